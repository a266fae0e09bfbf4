"""C02: every sampling method returns the requested points, inside the bounds of the space."""
from vp import engine as E, q
from vp.engine import elem, num, ALL, mk, const_of
from vp.facts import last_ident

ASSUMPTIONS = ["Uniform::new(0,1) and Rng::gen::<float>() draw from [0,1)", "Array::linspace(0,1,n) is the n-point even grid",
               "ndarray element-wise arithmetic broadcasts per column"]


def lohi(xl):
    return elem(xl, ALL, num(0)), elem(xl, ALL, num(1))


def run(ctx):
    ctx.rule = ("For each sampler of the DOE crate: the value graph of `sample` (samplers' own overrides or the shared default, Self resolved) must equal "
                "lo + u*(hi-lo) as a polynomial, with lo/hi columns 0/1 of the space given to the constructor and u the sampler's normalized sample for the same count; "
                "every value stored in the normalized sample must be in [0,1] by its form, written on all columns, with the requested row count.")
    samplers = sorted({last_ident(f.selfh): f for f in ctx.impls("SamplingMethod", "normalized_sample") if f.crate == "egobox_doe"}.items())
    ctx.floor("samplers in the DOE crate", len(samplers), 3)
    default = ctx.fn("SamplingMethod::sample", "egobox_doe")
    for name, nf in samplers:
        own = [f for f in ctx.impls("SamplingMethod", "sample") if f.selfh == nf.selfh and f.crate == nf.crate]
        sf = own[0] if own else default
        r = ctx.eval(sf, selfty=nf.selfh, opaque=lambda c, fn: fn.name == "normalized_sample")
        calls = r.events(pred=lambda e: e.name == "SamplingMethod::normalized_sample")
        xl = E.select(mk("param", "a0"), "xlimits")
        ok = len({e.res for e in calls}) == 1
        if ctx.ob(ok, f"{name}:one-normalized", f"{name}::sample must use exactly one normalized sample, found {len(calls)}", sf.span):
            e = calls[0]
            u = e.res
            lo, hi = lohi(xl)
            want = E.op("Add", lo, E.op("Mul", u, E.op("Sub", hi, lo)))
            got = r.val()
            ctx.ob(q.peq(got, want), f"{name}:scaling", f"{name}::sample is {E.show(got, 7)}; expected lower + u*(upper-lower) over its own space", sf.span)
            ctx.ob(e.args[1] is mk("param", "a1"), f"{name}:count", f"{name}::sample asks for {E.show(e.args[1])} normalized points instead of the requested number", e.where())
        # sampling_space is what the constructor was given
        sp = [f for f in ctx.impls("SamplingMethod", "sampling_space") if f.selfh == nf.selfh and f.crate == nf.crate]
        for f in sp:
            ctx.ob(ctx.eval(f).val() is xl, f"{name}:space", f"{name}::sampling_space does not return the sampler's own bounds", f.span)
        for f in ctx.prog.find(crate="egobox_doe", selfty=name, kind="AssocFn"):
            if f.generated() or f.trait or f.locals[0][0].split("<")[0] != nf.selfh:
                continue
            rr = ctx.eval(f)
            out = E.select(rr.val(), "xlimits")
            if f.locals[1][0].startswith("&ndarray") or "ArrayBase" in f.locals[1][0].split("<")[0]:
                good = out is mk("param", "a0")
            else:
                good = out is xl
            ctx.ob(good, f"{name}::{f.name}:keeps-bounds", f"{f.short} gives bounds {E.show(out)} instead of the ones passed in", f.span)
            ctx.count("constructors and builders checked")
        # normalized sample in [0,1], ns rows, all columns
        rr = ctx.eval(nf, selfty=nf.selfh)
        check_normalized(ctx, name, nf, rr)
        single_point(ctx, name, nf, ctx.eval(nf, selfty=nf.selfh, opaque=lambda c, fn: fn.name in ("pdist", "cdist")))
    ctx.floor("places needing two points", ctx.counts.get("places needing two points", 0), 2)
    ctx.floor("constructors and builders checked", ctx.counts.get("constructors and builders checked", 0), 8)


NS = mk("param", "a1")
NX = mk("call", "ArrayBase::nrows", (E.select(mk("param", "a0"), "xlimits"),))


def edge_atom(ns):
    """rewrites bin edges: L (lower edge), W (width)"""
    L, W = mk("param", "L"), mk("param", "W")
    ns1 = q.poly(E.op("Add", ns, num(1)))

    def lin(n):
        return n.k == "call" and n.d.endswith("::linspace") and E.is_num(n.a[0], 0) and E.is_num(n.a[1], 1) and q.poly(n.a[2]) == ns1

    def atom(n):
        if n.k == "elem":
            b = n.a[0]
            if lin(b) and len(n.a) == 2:
                i = n.a[1]
                if i.k == "agg" and i.d[0].endswith("RangeTo") and q.peq(i.a[0], ns):
                    return L
                if i.k == "agg" and i.d[0].endswith("Range") and E.is_num(i.a[0], 0) and q.peq(i.a[1], ns):
                    return L
                if i.k == "agg" and i.d[0].endswith("RangeFrom") and E.is_num(i.a[0], 1):
                    return E.op("Add", L, W)
                if i.k == "agg" and i.d[0].endswith("Range") and E.is_num(i.a[0], 1) and q.poly(i.a[1]) == ns1:
                    return E.op("Add", L, W)
                if q.is_range(i) and E.is_num(i.a[0], 0) and q.peq(i.a[1], ns):
                    return L
                if i.k == "op" and i.d == "Add" and any(q.is_range(x) and E.is_num(x.a[0], 0) and q.peq(x.a[1], ns) for x in i.a) and any(E.is_num(x, 1) for x in i.a):
                    return E.op("Add", L, W)
                return None
            if b.k == "op" or (b.k in ("elem", "call") and not lin(b)):
                return b  # element-wise abstraction
        if q.is_range(n) and E.is_num(n.a[0], 0) and q.peq(n.a[1], ns):
            return E.op("Mul", L, ns)
        if n.k == "op" and n.d == "Div" and E.is_num(n.a[0]) and q.peq(n.a[1], ns):
            return E.op("Mul", n.a[0], W)
        return None

    return atom, L, W


def is_uniform(n):
    """a value in [0,1)"""
    if n.k == "call" and n.d.endswith("random_using"):
        u = n.a[1]
        return u.k == "call" and u.d.startswith("Uniform::new") and E.is_num(u.a[0], 0) and E.is_num(u.a[1], 1)
    if n.k == "call" and n.d.split("::")[-1] in ("gen", "random"):
        return True
    if n.k == "call" and n.d.endswith("gen_range"):
        a = n.a[1]
        return a.k == "agg" and len(a.a) >= 2 and E.is_num(a.a[0], 0) and E.is_num(a.a[1], 1)
    return False


def strat(n, ns):
    """value of the form lower_edge + t*width with t in [0,1]: returns (True, t) """
    atom, L, W = edge_atom(ns)
    p = q.poly(n, atom)
    p = {m: c for m, c in p.items()}
    if p.pop(((L, 1),), None) != 1:
        return False
    if not p:
        return True
    if len(p) != 1:
        return False
    (m, c), = p.items()
    m = dict(m)
    if m.pop(W, None) == 1:
        pass
    elif m.pop(ns, None) == -1:  # 1/ns is the width
        pass
    else:
        return False
    if not m:
        return 0 <= c <= 1
    if len(m) == 1:
        (x, e), = m.items()
        return e == 1 and c == 1 and is_uniform(x)
    return False


def unit_value(n, ns):
    """in [0,1] by its form"""
    if is_uniform(n):
        return True
    if n.k == "const":
        return E.is_num(n) and 0 <= n.d[0] <= 1
    if strat(n, ns):
        return True
    if n.k == "elem":
        return unit_value(n.a[0], ns)
    # k/(n-1), k in 0..n
    if n.k == "op" and n.d == "Div" and q.is_range(n.a[0]) and E.is_num(n.a[0].a[0], 0):
        return q.peq(n.a[0].a[1], E.op("Add", n.a[1], num(1)))
    if n.k == "op" and n.d in ("min", "max", "clamp"):
        return False
    return False


def check_normalized(ctx, name, nf, rr):
    got = rr.val()
    # FullFactorial keeps the first ns rows
    vals, perms, writes, inits = q.contents(got, rr.eng)
    ctx.count("values stored in normalized samples", len(vals))
    bad = []
    for v in vals:
        ok = unit_value(v, NS)
        if not ok and q.is_range(v) and E.is_num(v.a[0], 0):
            # a single level: 0..n under n <= 1 is 0; the guard is checked on the join it comes from
            ok = single_level(rr, v)
        if not ok:
            bad.append(v)
    ctx.ob(not bad and vals, f"{name}:unit", f"{name}'s normalized sample may hold {[E.show(b, 6) for b in bad[:2]]}, not provably in [0,1]", nf.span)
    # shape: one column per dimension, requested rows
    shapes = []
    for x in {y for v in vals for y in q.walk(v, rr.eng)} | set(inits):
        if x.k == "call" and (x.d.endswith("::zeros") or x.d.endswith("random_using")) and x.a:
            s = x.a[0]
            if s.k == "call" and s.d.endswith("::f"):
                s = s.a[0]
            if s.k == "agg" and s.d[0] == "tuple" and len(s.a) == 2:
                shapes.append(s)
    ctx.count("2-D buffers", len(shapes))
    ok_cols = bool(shapes) and all(s.a[1] is NX for s in shapes)
    ctx.ob(ok_cols, f"{name}:columns", f"{name}'s sample has a buffer of shape {[E.show(s) for s in shapes if s.a[1] is not NX][:2]}: one column per dimension expected", nf.span)
    rows = rows_of(got, rr.eng)
    ctx.ob(rows, f"{name}:rows", f"{name}'s normalized sample is not provably of the requested number of rows: {E.show(got, 5)}", nf.span)
    # writes over a zeroed buffer must reach every column
    if inits:
        partial = []
        for w in writes:
            idx = w.a[2:]
            if len(idx) == 2:
                j = idx[1]
                if not (j in (ALL, E.STAR) or (q.is_range(j) and E.is_num(j.a[0], 0) and j.a[1] is NX) or j.k == "call" and j.d == "index"):
                    partial.append(w)
        ctx.ob(not partial, f"{name}:all-columns", f"{name}: a column loop covers {[E.show(w.a[3], 4) for w in partial[:1]]}, not every column", nf.span)


def single_point(ctx, name, nf, r):
    """what needs two points (the smallest distance between points, two different random rows) is not reached with one point"""
    need = []
    for e in r.events():
        t = q.tail(e.name)
        if t in ("min", "max", "argmin", "argmax") and e.args and distances(e.args[0]):
            if any(u.args and u.args[0] is e.res and q.tail(u.name) in ("unwrap", "expect") for u in r.events()):
                need.append(("the smallest distance between points", e))
        if t == "gen_range" and any(c.k == "op" and c.d in ("Eq", "Ne") and any(x.k == "call" and q.tail(x.d) == "gen_range" for x in q.walk(c, control=False)) for c, _ in e.guards()):
            need.append(("a second row different from the first one", e))
    for what, e in need:
        ctx.count("places needing two points")
        ok = any(excluded(c, ed, NS, num(1)) for c, ed in e.guards())
        ctx.ob(ok, f"{name}:single:{e.frame.fn.name}", f"{name} looks for {what} even when a single point is requested", e.span)


def distances(v):
    while v.k == "call" and q.tail(v.d) in ("mapv", "map", "mapv_into", "view", "iter", "to_owned", "to_vec") and v.a:
        v = v.a[0]
    return v.k == "call" and q.tail(v.d) == "pdist"


def excluded(c, ed, count, val):
    env = {x: val for x in q.walk(c, control=False) if x is count or x.k == "call" and q.tail(x.d) in ("nrows",) and not (x.a[0].k == "sel" and x.a[0].d == "xlimits")}
    k = const_of(q.assume(c, env))
    if k is None:
        return False
    k = str(int(k))
    return (k not in ed[1:]) if ed[0] == "in" else (k in ed[1:])


def single_level(rr, v):
    """the phi this value comes from selects it only when the level count is <= 1"""
    n = v.a[1]
    for x in rr.eng_phis() if hasattr(rr, "eng_phis") else q.walk(rr.val(), rr.eng):
        if x.k == "phi" and v in x.a:
            g = x.d[x.a.index(v)]
            return any(c.k == "op" and c.d in ("Lt", "Le", "Eq", "Ne") and n in c.a and any(E.is_num(y, 1) for y in c.a) for alt in g for c, e in alt)
    return False


def rows_of(n, eng):
    """every alternative has NS rows"""
    seen = set()

    def go(x):
        if x in seen:
            return True
        seen.add(x)
        if x.k in ("phi",):
            return all(go(y) for y in x.a)
        if x.k == "mu":
            return all(go(y) for y in eng.mu_ops.get(x, ())) and bool(eng.mu_ops.get(x))
        if x.k == "wr":
            return go(x.a[0])
        if x.k == "eff":
            if q.tail(x.d[0]) in q.ADD:
                return (q.tail(x.a[0].d) if x.a[0].k == "call" else "") in ("with_capacity", "new") and go(x.a[1]) or go(x.a[0])
            return go(x.a[0])
        if x.k == "elem":
            i = x.a[1]
            if i.k == "agg" and i.d[0].endswith("Range") and E.is_num(i.a[0], 0) and i.a[1] is NS:
                return True
            if i.k == "agg" and i.d[0].endswith("RangeTo") and i.a[0] is NS:
                return True
            return go(x.a[0])
        if x.k == "sel":
            return go(x.a[0])
        if x.k == "call":
            t = q.tail(x.d)
            if t in ("zeros", "random_using", "from_shape_fn", "f"):
                return go(x.a[0])
            if t in q.TAKE:
                return go(x.a[0])
            if t in ("with_capacity", "new"):
                return True
            return False
        if x.k == "agg" and x.d[0] == "tuple":
            return x.a[0] is NS
        return False

    return go(n)
