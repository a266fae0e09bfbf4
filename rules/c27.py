"""C27: trust-region candidates lie in the domain and in the region."""
from vp import engine as E, q
from vp.engine import mk, select, const_of
from rules.c06 import flat, is_call
from rules.c07 import ALLMU
from rules.c08 import one
from rules.c19 import holds, paths, within
from rules.c32 import plain

ASSUMPTIONS = ["the best point lies in the domain (C04, C05)", "the optimizers return points within the bounds they are given", "LHS points lie in the limits given (C13)"]
A = [mk("param", f"a{i}") for i in range(6)]


def source(v):
    """what an element is read from, with the constant indices on the way"""
    idx = []
    while True:
        v = plain(v)
        if v.k == "elem":
            idx = [const_of(i) for i in v.a[1:] if isinstance(const_of(i), int)] + idx
            v = v.a[0]
        elif is_call(v, "row") or is_call(v, "column"):
            c = const_of(v.a[1])
            idx = ([c] if isinstance(c, int) else []) + idx
            v = v.a[0]
        elif is_call(v, "rows") or is_call(v, "outer_iter") or is_call(v, "axis_iter"):
            v = v.a[0]
        elif is_call(v, "select") and len(v.a) >= 3:
            v = v.a[0]
        elif is_call(v, "get_active_x"):
            v = v.a[1]
        else:
            return v, tuple(idx)


def bound(v, op, col, lim, org, rad):
    """None when v is op(limit, origin -/+ radius)"""
    v = plain(v)
    if is_call(v, "clamp"):
        v0, rest = plain(v.a[0]), [source(x) for x in v.a[1:]]
        return None if rest == [(lim, (0,)), (lim, (1,))] and shifted(v0, col, org, rad) else "not clamped to the limits"
    if not (v.k in ("op", "call") and q.tail(v.d) == op):
        return f"{E.show(v, 4)[:160]} is not the {'largest' if op == 'max' else 'smallest'} of two bounds"
    for x, y in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
        if source(x) == (lim, (col,)) and shifted(plain(y), col, org, rad):
            return None
    return E.show(v, 6)[:260]


def shifted(y, col, org, rad):
    if y.k != "op" or y.d != ("Sub" if col == 0 else "Add"):
        return False
    pairs = [(y.a[0], y.a[1])] + ([(y.a[1], y.a[0])] if col else [])
    return any(source(a)[0] is org and source(a)[1] == () and plain(b) is rad for a, b in pairs)


def rows(m):
    """(lower, upper) written in each row of a matrix"""
    ends = [x for x in (E.MU.get(m, ()) if m.k == "mu" else [m])]
    lo, up = set(), set()
    todo, seen = list(ends), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "mu":
            todo += E.MU.get(x, ())
        elif x.k == "wr":
            todo.append(x.a[0])
            val = x.a[1]
            cols = [const_of(i) for i in x.a[2:] if isinstance(const_of(i), int)]
            if cols in ([0], [1]):
                (lo, up)[cols[0]].add(val)
                continue
            p = plain(val)
            while p.k == "call" and q.tail(p.d) in ("aview1", "arr1", "from", "from_vec") and p.a:
                p = plain(p.a[0])
            if p.k == "agg" and len(p.a) == 2:
                lo.add(p.a[0])
                up.add(p.a[1])
            elif p.k == "wr":
                todo.append(p)
            else:
                return None
        elif x.k == "elem":
            todo.append(x.a[0])
        elif x.k == "call" and q.tail(x.d) in ("stack", "map"):
            p = plain(x.a[-1])
            if p.k == "agg" and len(p.a) == 2:
                lo.add(p.a[0])
                up.add(p.a[1])
            else:
                return None
        elif x.k == "call" and q.tail(x.d) in ("zeros", "ones", "from_elem", "default", "uninit", "clone"):
            pass
        else:
            return None
    return lo, up


def starter(ctx, f, agg):
    d = {n: x for n, x in zip(agg.d[3], agg.a)}
    impls = [g for g in ctx.prog.fns.values() if g.name == "multistart" and g.blocks and g.crate == "egobox_ego" and (g.path or "").startswith("<") and f"::{agg.d[1]}<" in g.path.split(" as ")[0] + "<"]
    if len(impls) != 1:
        ctx.ob(False, "region", f"{f.short} draws local candidates with {agg.d[1]}, not read", f.span)
        return
    g = impls[0]
    r = ctx.eval(g, opaque=lambda c, h: False)
    ctx.count("paths of the local sampling", len(flat(r.val())))
    names = {"lim": None, "org": None, "rad": []}
    X, B = select(A[0], "xlimits"), select(select(A[0], "config"), "trego")
    fields = {n: plain(x) for n, x in d.items()}
    for gs, v in flat(r.val()):
        ls = {x for x in q.walk(v) if x.k == "agg" and x.d[1] == "Lhs"}
        if len(ls) != 1 or not is_sample(v):
            ctx.ob(False, "region:sample", f"{g.short} returns {E.show(v, 4)[:200]}, not points drawn in the region", g.span)
            continue
        area = dict(zip(next(iter(ls)).d[3], next(iter(ls)).a))["xlimits"]
        rw = rows(plain(area))
        if not rw or not rw[0] or not rw[1]:
            ctx.ob(False, "region:area", f"{g.short} draws points in {E.show(area, 5)[:240]}, not read as the region", g.span)
            continue
        # fields of the starter stand for what the step gave it
        lim = [select(A[0], n) for n, x in fields.items() if x is X]
        org = [select(A[0], n) for n, x in fields.items() if is_best(x)]
        ctx.ob(len(lim) == 1, "region:limits", f"{f.short} does not give the limits of the domain to {agg.d[1]}: {[E.show(x, 3)[:80] for x in fields.values()]}", f.span)
        ctx.ob(len(org) == 1, "region:centre", f"{f.short} does not centre the region at the best point: {[E.show(x, 4)[:100] for x in fields.values()]}", f.span)
        if len(lim) != 1 or len(org) != 1:
            continue
        for col, op, vals in ((0, "max", rw[0]), (1, "min", rw[1])):
            rad = radius(fields, select(select(B, "d"), str(col)))
            ctx.ob(rad is not None, "region:radius", f"{f.short} does not give the configured size of the region to {agg.d[1]}", f.span)
            for v2 in vals:
                why = bound(v2, op, col, lim[0], org[0], rad) if rad is not None else None
                ctx.ob(why is None, f"region:{'upper' if col else 'lower'}", f"{g.short} bounds the candidates by {why}", g.span)


def is_sample(v):
    """drawn by the sampling itself: nothing moves the points afterwards"""
    v = plain(v)
    if v.k == "call" and q.tail(v.d) == "sample":
        return True
    if not (v.k == "op" and v.d == "Add" and len(v.a) == 2):
        return False
    lo, m = v.a
    return any(is_call(x, "sampling_space") for x in q.walk(lo)) and any(is_call(x, "normalized_sample") for x in q.walk(m)) and m.k == "op" and m.d == "Mul"


def is_best(v):
    """the row of the best point"""
    v = plain(v)
    i = [x for x in (v.a[1:] if v.k == "elem" else ()) if any(y.k == "sel" and y.d == "best_index" for y in within(x))]
    base = plain(v.a[0]) if v.k == "elem" else v
    return v.k == "elem" and len(i) == 1 and base.k == "sel" and base.d == "0" and any(y.k == "sel" and y.d == "data" for y in within(base)) and plain(i[0]).k == "sel" and plain(i[0]).d == "best_index"


def radius(fields, want):
    for n, x in fields.items():
        if x is want:
            return select(A[0], n)
        if x.k == "agg":
            for k, y in zip(x.d[3], x.a):
                if plain(y) is want:
                    return select(select(A[0], n), k)
        if x is want.a[0] and want.k == "sel":
            return select(select(A[0], n), want.d)
    return None


def local(ctx):
    f = one(ctx, "trego_step", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("optimize_infill_criterion", "update_data", "eval_obj", "eval_problem_fcstrs"))
    es = r.events(pred=lambda e: q.tail(e.name or "") == "optimize_infill_criterion")
    ctx.floor("local infill optimizations", len(es), 1)
    for e in es:
        st = plain(e.args[2])
        if st.k != "agg":
            ctx.ob(False, "region", f"{f.short} draws local candidates with {E.show(st, 3)[:120]}, not read", e.span)
            continue
        starter(ctx, f, st)
        cur = plain(e.args[3])
        ok = cur.k == "agg" and len(cur.a) == 3 and is_best(cur.a[0])
        ctx.ob(ok, "fallback", f"{f.short} falls back on {E.show(cur, 3)[:160]}, not on the best point", e.span)
    ups = r.events(pred=lambda e: q.tail(e.name or "") == "update_data")
    ctx.floor("additions of the local point", len(ups), 1)
    for e in ups:
        x = plain(e.args[3])
        ok = any(is_call(y, "optimize_infill_criterion") for y in q.walk(x, ALLMU)) and not [y for y in q.walk(x) if y.k == "op"]
        ctx.ob(ok, "point", f"{f.short} adds the point {E.show(x, 4)[:160]}, not the optimum of the criterion", e.span)


def inner(ctx):
    """candidates are optimized within the domain"""
    f = one(ctx, "optimize_infill_criterion", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("set_active_x", "get_active_x", "is_objective_improved", "minimize"))
    es = r.events(pred=lambda e: q.tail(e.name or "") == "minimize")
    ctx.floor("infill optimizations", len(es), 1)
    for e in es:
        o = plain(e.args[0])
        d = dict(zip(o.d[3], o.a)) if o.k == "agg" else {}
        b = plain(d.get("bounds", o))
        ok = is_call(b, "get_active_x") and const_of(b.a[0].a[0]) == 0 and plain(b.a[1]) is select(A[0], "xlimits") and source(b.a[2])[0] is select(A[1], "actives")
        ctx.ob(ok, "domain", f"{f.short} optimizes the criterion within {E.show(b, 4)[:160]}, not within the limits of the active components", e.span)
        x0 = plain(d.get("xinit", o))
        ok = any(is_call(y, "multistart") and y.d.split("::")[-1] == "multistart" for y in q.walk(x0, ALLMU)) and not [y for y in q.walk(x0) if y.k == "op" and y.d in ("Add", "Sub", "Mul", "Div")]
        ctx.ob(ok, "start", f"{f.short} starts the optimization from {E.show(x0, 4)[:160]}, not from a candidate", e.span)
    f = one(ctx, "minimize", "egobox_ego", "Optimizer")
    r = ctx.eval(f, opaque=lambda c, g: False)
    es = r.events(pred=lambda e: (e.name or "") in ("cobyla::minimize", "slsqp::minimize"))
    ctx.floor("calls of optimizers", len(es), 2)
    for e in es:
        hit = False
        for x in e.args:
            for y in [x] + list(E.MU.get(x, ()) if x.k == "mu" else ()):
                y = plain(y)
                if is_call(y, "map") and source(y.a[0])[0] is select(A[0], "bounds"):
                    p = plain(y.a[-1])
                    hit |= p.k == "agg" and [source(z) for z in p.a] == [(select(A[0], "bounds"), (0,)), (select(A[0], "bounds"), (1,))]
        ctx.ob(hit, "domain:bounds", f"{f.short} calls {e.name} without the bounds of its components", e.span)


def factor(ctx, f, e, T, v, fac, gs):
    ctx.ob(fac is select(T, "gamma") or fac is select(T, "beta"), "size", f"{f.short} changes the size of the region to {E.show(v, 4)[:160]}, not by a configured factor", e.span)
    if fac is None:
        return
    for conj in paths(gs):
        s = [won(c, ed) for c, ed in conj if won(c, ed) is not None]
        if not s and not conj:
            continue
        want = fac is select(T, "gamma")
        ctx.ob(want in s and (not want) not in s, "size:success", f"{f.short} {'extends' if want else 'reduces'} the region by {E.show(fac, 2)[:80]} when the previous step {'is not known to have succeeded' if want else 'is not known to have failed'}", e.span)
        if not want:
            loc = [holds(ed) for c, ed in conj if c.k == "sel" and c.d == "prev_step_ego"]
            ctx.ob(False in loc, "size:local", f"{f.short} reduces the region after a step which is not local", e.span)


def size(ctx):
    """the size of the region changes by the configured factors only"""
    f = one(ctx, "trego_iteration", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("trego_step", "ego_iteration", "refresh_surrogates", "refresh_infill_data"))
    T = select(select(A[0], "config"), "trego")
    sg = select(A[2], "sigma")
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") in ("trego_step", "ego_iteration")):
        st = e.args[2]
        while st.k == "eff":
            st = st.a[st.d[1]]
        for gs, v in flat(select(st, "sigma")):
            v = plain(v)
            n += 1
            if v is sg:
                continue
            fac = None
            if v.k == "op" and v.d == "Mul" and len(v.a) == 2:
                fac = v.a[1] if v.a[0] is sg else v.a[0] if v.a[1] is sg else None
            if fac is not None and fac.k == "phi":
                for g2, x in flat(fac):
                    factor(ctx, f, e, T, v, x, tuple(gs) + tuple(g2))
                continue
            factor(ctx, f, e, T, v, fac, gs)
    ctx.floor("sizes of the region", n, 4)
    f = one(ctx, "init", "egobox_ego", "EgorSolver")
    r = ctx.eval(f, opaque=lambda c, g: True)
    v = [x for x in q.walk(r.val(), ALLMU) if x.k == "upd" and "sigma" in x.d]
    for x in v:
        s = x.a[1 + x.d.index("sigma")]
        ctx.ob(plain(s) is select(T, "sigma0"), "size:initial", f"{f.short} starts with the region size {E.show(s, 3)[:120]}", f.span)


def won(c, ed):
    """the condition tells whether the last step improved the objective: True, False or None"""
    if c.k != "op" or c.d not in ("Lt", "Le"):
        return None
    read = lambda v, n: any(y.k == "sel" and y.d == n for y in within(v))
    obj = lambda v: read(v, "data")
    if not (obj(c.a[0]) and obj(c.a[1])):
        return None
    if read(c.a[0], "best_index") and read(c.a[1], "prev_best_index"):
        return holds(ed)
    if read(c.a[1], "best_index") and read(c.a[0], "prev_best_index"):
        return not holds(ed)
    return None


def run(ctx):
    ctx.rule = ("bounds of the local sampling derived as max(lower limit, best - radius) and min(upper limit, best + radius) per component; the optimizers receive the limits of the active "
                "components; the size is multiplied by gamma on success edges and by beta on failure edges of local steps only")
    local(ctx)
    inner(ctx)
    size(ctx)
