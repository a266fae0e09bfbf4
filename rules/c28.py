"""C28: hyperparameters are searched in one consistent scale, bounds paired with their own component."""
from vp import engine as E, q
from vp.engine import mk, num, const_of, STAR
from vp.facts import last_ident
from rules.c16 import payload

ASSUMPTIONS = ["the optimizer keeps each component of its candidates at the position of the corresponding component of the start and bounds it is given",
               "a plan drawn by the sampling crate has one column per row of its limits, in the same order (C02)"]
OPAQUE = {"reduced_likelihood", "normalize", "_cross_diff", "prepare_multistart", "optimize_params"}
LEN = ("len", "ncols", "nrows", "dim", "shape")


class Bad(Exception):
    pass


def strip(v):
    while True:
        if v.k == "op" and v.d in ("cast", "trunc") and len(v.a) == 1:
            v = v.a[0]
        elif v.k == "call" and len(v.a) == 1 and q.tail(v.d) in ("cast", "from", "into", "as_", "clone", "to_owned", "view", "to_vec", "from_vec", "into_f64", "into_raw_vec",
                                                               "collect", "into_iter", "iter", "to_f64", "into_owned", "arr1", "as_slice", "as_slice_mut", "reborrow", "into_raw_vec_and_offset"):
            v = v.a[0]
        elif v.k == "call" and q.tail(v.d) in ("unwrap", "expect"):
            v = v.a[0]
        elif v.k == "sel" and v.d == "!":
            w = v.a[0]
            if w.k == "call" and q.tail(w.d) in ("from_shape_vec", "to_f64", "as_slice"):
                v = w
            elif w.k == "call" and q.tail(w.d) == "last_mut":
                return v
            elif w.k == "elem" or w.k == "sel" and w.d in ("0", "1", "lo", "up") or w.k == "param":
                v = w  # to_f64().expect()
            else:
                return v
        elif v.k == "sel" and v.d == "0" and v.a[0].k == "call" and q.tail(v.a[0].d) == "into_raw_vec_and_offset":
            v = v.a[0].a[0]
        else:
            return v


def padd(a, b, s=1):
    return q.padd(a, b, s)


def text(p):
    if isinstance(p, str):
        return p
    out = []
    for m, c in sorted(p.items(), key=str):
        t = "*".join(str(x) for x, _ in m)
        out.append(f"{c}" if not m else t if c == 1 else f"{c}{t}")
    return "+".join(out) or "0"


def nonneg(p):
    """p >= 0 whenever 0 <= k < N (p linear in k and N)"""
    c, n, k = p.get((), 0), 0, 0
    for m, v in p.items():
        if m == (("N", 1),):
            n = v
        elif m == (("k", 1),):
            k = v
        elif m != ():
            return None
    # N = k + 1 + m with k, m >= 0
    if c + n >= 0 and n >= 0 and n + k >= 0:
        return True
    if c + n < 0 and n <= 0 and n + k <= 0:
        return False
    return None


class Ev:
    """components of array expressions at a symbolic position"""

    def __init__(self, names):
        self.names = names   # node -> (label, length poly)

    # ---------------------------------------------------------------- lengths and positions
    def length(self, v):
        v = strip(v)
        if v in self.names:
            return self.names[v][1]
        if v.k == "call":
            t = q.tail(v.d)
            if t == "from_elem":
                return self.pos(v.a[0] if E.last_ident(v.d.split("::")[0]) != "vec" and not v.d.startswith("vec") else v.a[1])
            if t in ("zeros", "ones"):
                return self.pos(v.a[0])
            if t == "map":
                return self.length(v.a[0])
            if t == "from_shape_vec":
                a = v.a[0]
                return self.pos(a.a[0] if a.k == "agg" else a)
            if t == "select":
                return self.length(v.a[2])
            if t in ("powf", "log10"):
                return self.length(v.a[-1] if t == "powf" else v.a[0])
        if v.k == "wr":
            return self.length(v.a[0])
        if v.k == "eff":
            if q.tail(self.effname(v)) == "resize":
                return self.pos(v.a[1])
        if v.k == "elem" and len(v.a) == 2:
            r = self.rng(v.a[1], v.a[0])
            if r:
                return padd(r[1], r[0], -1)
            if v.a[1] is STAR:
                return self.length(v.a[0])
        if v.k == "agg" and last_ident(v.d[0]) == "Range":
            return padd(self.pos(v.a[1]), self.pos(v.a[0]), -1)
        if v.k == "phi":
            ls = [self.length(w) for _, w in q.alts(v)]
            if ls and all(l == ls[0] for l in ls):
                return ls[0]
        if v.k == "mu":
            return self.length(self.entry(v)[0])
        raise Bad(f"length of {E.show(v, 5)}")

    @staticmethod
    def effname(v):
        return v.d if isinstance(v.d, str) else v.d[0] if isinstance(v.d[0], str) else str(v.d)

    def rng(self, i, base):
        if i.k != "agg":
            return None
        t = last_ident(i.d[0])
        if t == "Range":
            return self.pos(i.a[0]), self.pos(i.a[1])
        if t == "RangeTo":
            return {}, self.pos(i.a[0])
        if t == "RangeFrom":
            return self.pos(i.a[0]), self.length(base)
        if t == "RangeFull":
            return {}, self.length(base)
        return None

    def pos(self, n):
        def atom(x):
            y = strip(x)
            if y is not x:
                return y
            if x.k == "const" and isinstance(const_of(x), bool):
                return num(int(const_of(x)))
            if x in self.names and self.names[x][0] == "#":
                return None
            if x.k == "call" and q.tail(x.d) in LEN and len(x.a) == 1:
                return self.node(self.length_or_n(x.a[0]))
            if x.k == "phi":
                vs = [self.pos(w) for _, w in q.alts(x)]
                if vs and all(v == vs[0] for v in vs):
                    return self.node(vs[0])
                raise Bad(f"position {E.show(x, 4)}")
            return None
        p = q.poly(n, atom)
        out = {}
        for m, c in p.items():
            m2 = tuple((self.sym(x), e) for x, e in m)
            out[m2] = out.get(m2, 0) + c
        return {m: c for m, c in out.items() if c}

    def sym(self, x):
        if isinstance(x, str):
            return x
        if x in self.names and self.names[x][0] == "#":
            return self.names[x][2]
        if x.k == "param" and x.d in ("N", "k"):
            return x.d
        raise Bad(f"size {E.show(x, 5)}")

    def length_or_n(self, v):
        return self.length(v)

    def node(self, p):
        out = num(0)
        for m, c in p.items():
            t = num(c)
            for x, e in m:
                for _ in range(e):
                    t = mk("op", "Mul", (t, mk("param", x))) if not (t.k == "const" and const_of(t) == 1) else mk("param", x)
            out = t if out.k == "const" and const_of(out) == 0 else mk("op", "Add", (out, t))
        return out

    # ---------------------------------------------------------------- values
    def scal(self, v, k):
        """a scalar computed within a traversal at position k"""
        v = strip(v)
        c = const_of(v)
        if c is not None and not isinstance(c, str):
            return {str(c)}
        if v.k == "elem" and len(v.a) == 2:
            i = v.a[1]
            return self.comp(v.a[0], k if i is STAR else self.index(i, k))
        if v.k == "elem" and len(v.a) == 3 and v.a[1] in self.names:
            return self.comp(E.elem(v.a[0], v.a[1], mk("agg", ("RangeFull", "RangeFull", 0, ()), ())), self.index(v.a[2], k))
        if v.k == "sel":
            b = v.a[0]
            if b.k == "elem" and b.a[1] is STAR and b.a[0].k == "call" and q.tail(b.a[0].d) == "zip" and v.d in ("0", "1"):
                return self.comp(b.a[0].a[int(v.d)], k)
            if b.k == "elem" and b.a[1] is STAR and b.a[0].k == "call" and q.tail(b.a[0].d) == "enumerate":
                return {text(k)} if v.d == "0" else self.comp(b.a[0].a[0], k)
            if v.d in ("0", "1") and b.k == "elem" and len(b.a) == 2:
                return pair_scal(self, b, k)[int(v.d)]
            return {f"{x}.{v.d}" for x in self.scal(b, k)}
        if v.k == "agg" and v.d[0] == "tuple" or v.k == "agg" and v.d[1] == "tuple":
            raise Bad("tuple")
        if v.k == "call" and q.tail(v.d) == "log10":
            return {f"log10({x})" for x in self.scal(v.a[0], k)}
        if v.k == "call" and q.tail(v.d) in ("powf", "exp10") or v.k == "op" and v.d == "powf":
            if const_of(v.a[0]) == 10:
                return {f"pow10({x})" for x in self.scal(v.a[1], k)}
        if v.k == "op" and v.d == "log10":
            return {f"log10({x})" for x in self.scal(v.a[0], k)}
        if v.k == "phi":
            return set().union(*(self.scal(w, k) for _, w in q.alts(v)))
        return {E.show(v, 12)}

    def index(self, i, k):
        """a position: a polynomial, or the text of an index read from a table"""
        i = strip(i)
        if i.k == "call" and i.d == "index" or i.k == "op" and i.d == "index":
            if k is None:
                raise Bad("position outside its traversal")
            return k
        if i.k in ("op", "call") and i.d == "range":
            if k is None or isinstance(k, str):
                raise Bad("position outside its traversal")
            return padd(self.pos(i.a[0]), k)
        if i.k == "elem" or i.k == "sel" or i.k == "phi" and any(w.k == "elem" for _, w in q.alts(i)):
            r = set().union(*(self.idx1(w, k) for _, w in q.alts(i)))
            if len(r) == 1:
                x = r.pop()
                return x if isinstance(x, str) else dict(x)
            raise Bad(f"index {r}")
        return self.pos(i)

    def idx1(self, w, k):
        w = strip(w)
        if w.k in ("op", "call") and w.d in ("range", "index"):
            p = self.index(w, k)
            return {p if isinstance(p, str) else frozenset(p.items())}
        if w.k == "elem" and len(w.a) == 2:
            src, j = strip(w.a[0]), (k if w.a[1] is STAR else self.index(w.a[1], k))
            return self.idxof(src, j)
        if w.k == "sel" and w.a[0].k == "elem" and w.a[0].a[1] is STAR and w.a[0].a[0].k == "call":
            z = w.a[0].a[0]
            if q.tail(z.d) == "zip" and w.d in ("0", "1"):
                return self.idxof(strip(z.a[int(w.d)]), k)
            if q.tail(z.d) == "enumerate":
                return {frozenset(k.items())} if w.d == "0" and not isinstance(k, str) else self.idxof(strip(z.a[0]), k)
        return {frozenset(self.pos(w).items())}

    def idxof(self, src, j):
        out = set()
        for _, s in q.alts(src):
            s = strip(s)
            if s.k == "agg" and last_ident(s.d[0]) == "Range":
                if isinstance(j, str):
                    raise Bad("range")
                out.add(frozenset(padd(self.pos(s.a[0]), j).items()))
            else:
                out |= self.comp(s, j)
        return out

    def entry(self, n):
        ops = [x for x in E.MU.get(n, ()) if x is not n]
        if n in E.BACK:
            back = [v for _, v in E.BACK[n]]
            ops = [x for x in ops if not any(x is v for v in back)] + back
        body = [x for x in ops if any(y is n for y in q.walk(x))]
        init = [x for x in ops if not any(x is y for y in body)]
        if len(init) != 1:
            raise Bad("loop with several entries")
        return self.inc(init[0]), [self.inc(x) for x in body]

    @staticmethod
    def inc(v):
        return v

    def comp(self, v, i):
        """the alternatives of element i of v"""
        v = strip(v)
        if v in self.names:
            return {f"{self.names[v][0]}[{text(i)}]"}
        if v.k == "phi":
            return set().union(*(self.comp(w, i) for _, w in q.alts(v)))
        if v.k == "call":
            t = q.tail(v.d)
            if t == "from_elem":
                x = v.a[0] if v.d.startswith("vec") else v.a[1]
                return self.scal(x, i)
            if t in ("zeros", "ones"):
                return {"0" if t == "zeros" else "1"}
            if t == "map":
                return self.scal(v.a[1], i)
            if t == "from_shape_vec":
                return self.comp(v.a[1], i)
            if t == "select":
                return self.comp(v.a[0], self.index1(self.idxof(strip(v.a[2]), i)))
            if t == "log10":
                return {f"log10({x})" for x in self.comp(v.a[0], i)}
            if t in ("powf",) and const_of(v.a[0]) == 10:
                return {f"pow10({x})" for x in self.comp(v.a[1], i)}
        if v.k == "op" and v.d in ("log10",):
            return {f"log10({x})" for x in self.comp(v.a[0], i)}
        if v.k == "op" and v.d == "powf" and const_of(v.a[0]) == 10:
            return {f"pow10({x})" for x in self.comp(v.a[1], i)}
        if v.k == "elem" and len(v.a) == 2:
            r = self.rng(v.a[1], v.a[0])
            if r and not isinstance(i, str):
                return self.comp(v.a[0], padd(r[0], i))
            if v.a[1] is STAR:
                return self.comp(v.a[0], i)
        if v.k == "wr" and len(v.a) == 3:
            return self.write(v.a[0], v.a[1], v.a[2], i)
        if v.k == "upd" and v.d is None and len(v.a) >= 2:
            pass
        if v.k == "eff" and q.tail(self.effname(v)) == "resize":
            old = self.length(v.a[0])
            if isinstance(i, str):
                raise Bad("resize")
            inside = nonneg(padd(padd(old, i, -1), {(): -1}))
            if inside is None:
                raise Bad(f"position {text(i)} in {text(old)}")
            return self.comp(v.a[0], i) if inside else self.scal(v.a[2], i)
        if v.k == "mu":
            return self.scatter(v, i)
        if v.k in ("param", "sel"):
            return {f"{E.show(v, 9)}[{text(i)}]"}
        raise Bad(f"elements of {E.show(v, 6)}")

    def index1(self, s):
        if len(s) != 1:
            raise Bad(f"index {s}")
        x = next(iter(s))
        return x if isinstance(x, str) else dict(x)

    def write(self, base, val, at, i):
        if at is STAR:
            return self.scal(val, i)
        if at.k == "sel" and at.d == "!" and at.a[0].k == "call" and q.tail(at.a[0].d) == "last_mut":
            at = self.node(padd(self.length(base), {(): -1}))
        r = self.rng(at, base)
        if isinstance(i, str):
            raise Bad("write")
        if r:
            lo, hi = nonneg(padd(i, r[0], -1)), nonneg(padd(padd(r[1], i, -1), {(): -1}))
            if lo is None or hi is None:
                raise Bad(f"position {text(i)} in {text(r[0])}..{text(r[1])}")
            return self.comp(val, padd(i, r[0], -1)) if lo and hi else self.comp(base, i)
        p = self.index(at, None)
        if isinstance(p, str):
            raise Bad("write")
        d = padd(p, i, -1)
        if not d:
            return self.scal(val, i)
        if nonneg(padd(d, {(): -1})) or nonneg(padd({m: -c for m, c in d.items()}, {(): -1})):
            return self.comp(base, i)
        raise Bad(f"positions {text(p)} and {text(i)}")

    def scattered(self, v):
        """(base, [(value at k, index at k)]) of an array written element by element in a loop"""
        v = strip(v)
        if v.k != "mu":
            return v, []
        base, body = self.entry(v)
        out = []
        K = {(("k", 1),): 1}
        for b in body:
            b = strip(b)
            if b.k != "wr" or b.a[0] is not v or len(b.a) != 3:
                raise Bad(f"loop body {E.show(b, 4)}")
            out.append((self.scal(b.a[1], K), self.idx(b.a[2], K)))
        return base, out

    def idx(self, i, k):
        x = self.index(i, k)
        return x if isinstance(x, str) else text(x)

    def pushed(self, v):
        """what a loop pushes on an empty list, one element per iteration"""
        if v.k != "mu":
            return None
        base, body = self.entry(v)
        base = strip(base)
        empty = base.k == "call" and q.tail(base.d) in ("new", "with_capacity", "default") or base.k == "agg" and not base.a
        if empty and len(body) == 1 and body[0].k == "eff" and q.tail(self.effname(body[0])) == "push" and body[0].a[0] is v:
            return body[0].a[1]
        return None

    def scatter(self, v, i):
        p = self.pushed(v)
        if p is not None:
            return self.scal(p, i)
        base, ws = self.scattered(v)
        if len(ws) == 1 and ws[0][1] == "k" and not isinstance(i, str):
            # element k rewritten at position k of a traversal of the whole array
            return {w.replace("[k]", f"[{text(i)}]") for w in ws[0][0]}
        raise Bad("scattered writes")


K = {(("k", 1),): 1}
N = {(("N", 1),): 1}


def in_case(v, disc, lens):
    """v when the option at the head of each path of disc is the given variant, and the lengths compare to 1 as told"""
    v = q.assume(v, disc)
    facts = {}
    for x in q.walk(v, control=True):
        if x.k == "discr" and x.a[0].k == "call" and q.tail(x.a[0].d) in ("last_mut", "last", "first_mut", "first"):
            facts[x] = num(1)   # the prepared bounds are never empty
        if x.k == "op" and x.d in ("Eq", "Ne") and len(x.a) == 2:
            for a, b in (x.a, x.a[::-1]):
                if const_of(a) == 1 and b.k == "call" and q.tail(b.d) == "len":
                    p = field_of(b.a[0])
                    if p in lens:
                        facts[x] = E.boolc(lens[p] == (x.d == "Eq"))
                elif b.k == "call" and q.tail(b.d) == "len" and field_of(b.a[0]) in lens and a.k != "const" and x not in facts:
                    facts[x] = E.boolc((not lens[field_of(b.a[0])]) == (x.d == "Eq"))
    return q.assume(v, facts)


def field_of(v):
    """init | bounds when the value is that field of the tuning"""
    fs = set()
    for _, w in q.alts(v):
        if w.k == "call" and q.tail(w.d) == "map":
            w = w.a[0]
            fs.add("bounds")
            continue
        w = strip(w)
        if w.k == "sel" and w.d in ("Full.init", "Partial.init", "Fixed.0"):
            fs.add("init")
        elif w.k == "sel" and w.d in ("Full.bounds", "Partial.bounds"):
            fs.add("bounds")
        else:
            return None
    return fs.pop() if len(fs) == 1 else None


def variant(ctx, adt, name):
    for v in ctx.prog.adt(adt, "egobox_gp")[0]["vs"]:
        if v["n"] == name:
            return num(v["d"])
    raise LookupError(f"{adt}::{name}")


def fits(ctx):
    out = {}
    for f in ctx.prog.fns.values():
        if f.crate == "egobox_gp" and f.name == "fit" and f.blocks and last_ident((f.selfh or "").split("<")[0]) in ("GpValidParams", "SgpValidParams"):
            out[last_ident(f.selfh.split("<")[0])] = f
    return out


def attempt(ctx, key, want, get, where, msg):
    try:
        got = get()
    except Bad as e:
        ctx.ob(False, key, f"{msg}: cannot be resolved ({e})", where)
        return
    ctx.ob(got == want, key, f"{msg}: found {sorted(got) if isinstance(got, (set, frozenset)) else got}, expected {sorted(want) if isinstance(want, (set, frozenset)) else want}", where)


def run(ctx):
    ctx.rule = ("component-wise evaluation of the value graph: each component of the starts, the bounds, the candidate the likelihood is evaluated at, and the returned hyperparameters, "
                "as a function of the same component of the configuration, with log10/pow10 conversions counted")
    multistart(ctx)
    optimizer(ctx)
    fs = fits(ctx)
    ctx.floor("training functions", len(fs), 2)
    for ty, f in sorted(fs.items()):
        fit(ctx, ty, f)


# ------------------------------------------------------------ the starts and the bounds
def only(ctx, name):
    r = [f for f in ctx.prog.fns.values() if f.crate == "egobox_gp" and f.name == name and f.blocks and not f.generated()]
    if len(r) != 1:
        raise LookupError(f"{name} matches {len(r)} functions")
    return r[0]


def multistart(ctx):
    f = only(ctx, "prepare_multistart")
    r = ctx.eval(f, opaque=lambda c, g: g.crate != "egobox_gp")
    a = [mk("param", f"a{i}") for i in range(3)]
    v = r.ret
    ev = Ev({a[1]: ("start", N), a[2]: ("bounds", N)})
    if v.k != "agg" or len(v.a) != 2:
        ctx.ob(False, "multistart result", f"prepare_multistart returns {E.show(v, 4)}", f.span)
        return
    starts, bounds = v.a
    pairs(ctx, ev, bounds, "bounds handed to the optimizer", f.span, "log10(bounds[k].0)", "log10(bounds[k].1)")
    # rows of starts
    n = 0
    for _, w in q.alts(starts):
        rows = {}
        x = w
        while True:
            if x.k == "mu":
                base, body = ev.entry(x)
                for b in body:
                    rows.setdefault("rest", []).append((x, b))
                x = base
            elif x.k == "wr":
                rows.setdefault(E.show(x.a[2], 3) if len(x.a) > 2 else "?", []).append((None, x))
                x = x.a[0]
            else:
                break
        for key, ws in rows.items():
            for m, b in ws:
                n += 1
                if key == "0":
                    attempt(ctx, "first start", {"log10(start[k])"}, lambda: ev.comp(b.a[1], K), f.span, "the first start is the given one, in logarithm")
                else:
                    drawn(ctx, ev, b, f.span)
        ctx.ob("0" in rows, "given start kept", "a multistart does not begin with the given start", f.span)
    ctx.floor("rows of starts written", n, 3)


def pair_of(ev, v, k):
    """(alternatives of .0, of .1) of element k"""
    v = strip(v)
    if v in ev.names:
        t = f"{ev.names[v][0]}[{text(k)}]"
        return {t + ".0"}, {t + ".1"}
    if v.k == "phi":
        ps = [pair_of(ev, w, k) for _, w in q.alts(v)]
        return set().union(*(p[0] for p in ps)), set().union(*(p[1] for p in ps))
    p = ev.pushed(v)
    if p is not None:
        return pair_scal(ev, p, k)
    if v.k == "call":
        t = q.tail(v.d)
        if t == "map":
            return pair_scal(ev, v.a[1], k)
        if t == "from_elem":
            return pair_scal(ev, v.a[0] if v.d.startswith("vec") else v.a[1], k)
        if t == "select":
            return pair_of(ev, v.a[0], ev.index1(ev.idxof(strip(v.a[2]), k)))
    if v.k == "elem" and len(v.a) == 2:
        r = ev.rng(v.a[1], v.a[0])
        if r and not isinstance(k, str):
            return pair_of(ev, v.a[0], padd(r[0], k))
    if v.k == "eff" and q.tail(ev.effname(v)) == "resize" and not isinstance(k, str):
        inside = nonneg(padd(padd(ev.length(v.a[0]), k, -1), {(): -1}))
        if inside is None:
            raise Bad("resize")
        return pair_of(ev, v.a[0], k) if inside else pair_scal(ev, v.a[2], k)
    if v.k == "eff" and q.tail(ev.effname(v)) == "push" and not isinstance(k, str):
        d = padd(ev.length(v.a[0]), k, -1)
        if not d:
            return pair_scal(ev, v.a[1], k)
        return pair_of(ev, v.a[0], k)
    if v.k == "wr" and len(v.a) == 3 and not isinstance(k, str):
        at = v.a[2]
        if at.k == "sel" and at.d == "!" and at.a[0].k == "call" and q.tail(at.a[0].d) == "last_mut":
            at = ev.node(padd(ev.length(v.a[0]), {(): -1}))
        if at is STAR:
            return pair_scal(ev, v.a[1], k)
        p = ev.index(at, None)
        d = padd(p, k, -1) if not isinstance(p, str) else None
        if d is None:
            raise Bad("write")
        if not d:
            return pair_scal(ev, v.a[1], k)
        if nonneg(padd(d, {(): -1})) or nonneg(padd({m: -c for m, c in d.items()}, {(): -1})):
            return pair_of(ev, v.a[0], k)
        raise Bad(f"positions {text(p)} and {text(k)}")
    raise Bad(f"pairs of {E.show(v, 6)}")


def pair_scal(ev, v, k):
    v = strip(v)
    if v.k == "agg" and len(v.a) == 2:
        return ev.scal(v.a[0], k), ev.scal(v.a[1], k)
    if v.k == "phi":
        ps = [pair_scal(ev, w, k) for _, w in q.alts(v)]
        return set().union(*(p[0] for p in ps)), set().union(*(p[1] for p in ps))
    if v.k == "elem" and len(v.a) == 2:
        return pair_of(ev, v.a[0], k if v.a[1] is STAR else ev.index(v.a[1], k))
    t = ev.scal(v, k)
    return {x + ".0" for x in t}, {x + ".1" for x in t}


def pairs(ctx, ev, v, what, where, lo, up, at=None):
    try:
        a, b = pair_of(ev, v, K if at is None else at)
    except Bad as e:
        ctx.ob(False, what, f"{what}: cannot be resolved ({e})", where)
        return
    ctx.ob(a == {lo}, what + " lower", f"{what}: lower bound of a component is {sorted(a)}, expected {lo}", where)
    ctx.ob(b == {up}, what + " upper", f"{what}: upper bound of a component is {sorted(b)}, expected {up}", where)


def drawn(ctx, ev, b, where):
    """a row drawn within the converted bounds"""
    los, ups = set(), set()
    n = 0
    for x in q.walk(b.a[1] if b.k == "wr" else b):
        if x.k == "call" and q.tail(x.d) == "gen_range" and len(x.a) == 2 and x.a[1].k == "agg":
            n += 1
            try:
                los |= ev.scal(x.a[1].a[0], K)
                ups |= ev.scal(x.a[1].a[1], K)
            except Bad as e:
                los.add(str(e))
        elif x.k == "call" and q.tail(x.d) == "sample" and len(x.a) == 2:
            n += 1
            m = x.a[0]   # the sampling method, built from its limits
            while m.k == "call" and m.a:
                m = m.a[0]
            try:
                lo, up = limits(ev, m)
                los |= lo
                ups |= up
            except Bad as e:
                los.add(str(e))
    ctx.ob(n > 0, "start drawn", f"a start {E.show(b, 3)} is neither the given one nor drawn between the bounds", where)
    if n:
        ctx.ob(los == {"log10(bounds[k].0)"} and ups == {"log10(bounds[k].1)"}, "start drawn within bounds",
               f"the other starts are drawn between {sorted(los)} and {sorted(ups)}, expected the logarithm of each component's bounds", where)


def limits(ev, v):
    """columns of a limits table written row by row from pairs"""
    v = strip(v)
    base, body = ev.entry(v) if v.k == "mu" else (v, [])
    if len(body) == 1 and body[0].k == "wr" and len(body[0].a) == 4:
        v = body[0]
    elif len(body) == 1 and body[0].k == "wr":
        w = body[0]
        row = strip(w.a[1])
        if row.k == "elem" and len(row.a) == 2 and row.a[1] is STAR:
            row = strip(row.a[0])
        if row.k == "agg" and len(row.a) == 1:
            row = row.a[0]
        if row.k == "agg" and len(row.a) == 2:
            return ev.scal(row.a[0], K), ev.scal(row.a[1], K)
        if row.k == "call" and row.a and row.a[0].k == "agg":
            return ev.scal(row.a[0].a[0], K), ev.scal(row.a[0].a[1], K)
        raise Bad(f"row {E.show(row, 4)}")
    if v.k == "call" and q.tail(v.d) in ("from_shape_fn", "from_shape_vec", "map", "stack", "concatenate"):
        raise Bad(f"limits {E.show(v, 4)}")
    if v.k == "wr":
        out = {}
        while v.k == "wr" and len(v.a) == 4:
            c = const_of(v.a[3])
            if c in (0, 1):
                out.setdefault(c, ev.scal(v.a[1], K))
            v = v.a[0]
        if set(out) == {0, 1}:
            return out[0], out[1]
    raise Bad(f"limits {E.show(v, 4)}")


# ------------------------------------------------------------ the optimizer
def optimizer(ctx):
    f = only(ctx, "optimize_params")
    r = ctx.eval(f)
    a = [mk("param", f"a{i}") for i in range(4)]
    ev = Ev({a[1]: ("start", N), a[2]: ("bounds", N)})
    mins = r.events(pred=lambda e: q.tail(e.name) in ("minimize", "optimize") and e.name.split("::")[0] in ("cobyla", "nlopt", "Nlopt"))
    ctx.floor("optimizer calls", len(mins), 1)
    for e in mins:
        attempt(ctx, "optimizer start", {"start[k]"}, lambda: ev.comp(e.args[0], K), e.span, "the optimizer starts at the given start")
        pairs(ctx, ev, e.args[1], "optimizer bounds", e.span, "bounds[k].0", "bounds[k].1")
    v = r.ret
    if not (v.k == "agg" and len(v.a) == 2):
        ctx.ob(False, "optimizer result", f"optimize_params returns {E.show(v, 4)}", f.span)
        return
    for _, w in q.alts(v.a[1]):
        w = strip(w)
        ok = w.k == "sel" and w.d == "1" and any(x.k == "call" and q.tail(x.d) in ("minimize", "optimize") for x in q.walk(w.a[0], cut=lambda y: y.k not in ("sel",))
                                                 ) or w.k == "call" and q.tail(w.d) == "minimize"
        ctx.ob(ok, "optimizer point", f"the point returned is {E.show(w, 4)}, expected the one found by the optimizer, unconverted", f.span)
    for _, w in q.alts(v.a[0]):
        w = strip(w)
        c = const_of(w)
        ok = c == float("inf") or w.k == "sel" and w.d == "2" and w.a[0].k == "sel" and w.a[0].d == "!"
        ctx.ob(ok, "optimizer value", f"the value returned is {E.show(w, 4)}, expected the minimum found or +inf", f.span)


# ------------------------------------------------------------ training
def fit(ctx, ty, f):
    sparse = ty.startswith("S")
    r = ctx.eval(f, opaque=lambda c, g: g.name in OPAQUE)
    where = f.span
    ev_pm = r.events(pred=lambda e: q.tail(e.name) == "prepare_multistart")
    ev_op = r.events(pred=lambda e: q.tail(e.name) == "optimize_params")
    ev_rl = r.events(pred=lambda e: q.tail(e.name) == "reduced_likelihood")
    ctx.floor(f"{ty} multistart calls", len(ev_pm), 1)
    ctx.floor(f"{ty} optimizations", len(ev_op), 1)
    ctx.floor(f"{ty} likelihood evaluations", len(ev_rl), 2)
    if len(ev_pm) != 1 or len(ev_op) != 1:
        return
    pm, op = ev_pm[0], ev_op[0]
    gp = q_path(pm.args[0])
    ctx.ob(gp is not None, f"{ty} number of starts", f"{ty} draws {E.show(pm.args[0], 4)} starts, expected the configured number", pm.span)
    if gp is None:
        return
    tuning = E.select(gp, "theta_tuning")
    disc = mk("discr", None, (tuning,))
    rets = [w for _, w in q.alts(r.ret) if w.k == "agg" and w.d[1] == "Ok"]
    if len(rets) != 1:
        ctx.ob(False, f"{ty} result", f"{ty}::fit has {len(rets)} successful results", where)
        return
    model = rets[0].a[0]
    theta_out = E.select(model, "theta")
    noise = mk("discr", None, (E.select(mk("param", "a0"), "noise"),))
    kept(ctx, ty, r, where)
    objective(ctx, ty, op, ev_rl, where)
    variants = ["Fixed", "Full", "Partial"]
    for var in variants:
        for est in ((True, False) if sparse else (None,)):
            for one_init in (True, False):
                for one_b in (True, False):
                    if var == "Fixed" and not one_b and not sparse:
                        continue
                    case = f"{ty} {var}{'' if est is None else ' noise ' + ('estimated' if est else 'fixed')} init:{'1' if one_init else 'n'} bounds:{'1' if one_b else 'n'}"
                    facts = {disc: variant(ctx, "ThetaTuning", var)}
                    if est is not None:
                        facts[noise] = variant(ctx, "ParamTuning", "Optimized" if est else "Fixed")
                    lens = {"init": one_init, "bounds": one_b if var != "Fixed" else one_init}

                    def inc(v):
                        return in_case(v, facts, lens)
                    ctx.count("cases")
                    one_case(ctx, case, var, est, one_init, one_b, inc, gp, tuning, pm, op, ev_rl, theta_out, model, where)


def q_path(v):
    """the parameters whose n_start is read"""
    v = strip(v)
    return v.a[0] if v.k == "sel" and v.d == "n_start" else None


def one_case(ctx, case, var, est, one_init, one_b, inc, gp, tuning, pm, op, ev_rl, theta_out, model, where):
    init = E.select(tuning, {"Fixed": "Fixed.0", "Full": "Full.init", "Partial": "Partial.init"}[var])
    names = {init: ("init", {(): 1} if one_init else N)}
    if var != "Fixed":
        names[E.select(tuning, f"{var}.bounds")] = ("bounds", {(): 1} if one_b else N)
    act = None
    if var == "Partial":
        act = E.select(tuning, "Partial.active")
        names[act] = ("active", None)
    partial = var == "Partial" and est is None
    at_k = "active[k]" if partial else "k"
    start = "init[0]" if one_init else f"init[{at_k}]"
    searched = not (var == "Fixed")
    total = padd(padd({} if var == "Fixed" else N, {(): 1}), {(): int(bool(est))}) if est is not None else None

    class Case(Ev):
        """sizes: the input dimension (or its reduction) is N, a candidate has as many components as the starts"""

        def length(self, v):
            v = strip(v)
            if v.k == "sel" and v.d == "0" and v.a[0] is pmres:
                return total if total is not None else N
            if v.k == "sel" and v.d == "1" and v.a[0] is pmres:
                return total if total is not None else N
            if v.k == "elem" and v.a[0] is start0:
                return total if total is not None else N
            if v.k == "elem" and v.a[0].k == "elem" and v.a[0].a[0] is start0:
                return total if total is not None else N
            if v.k == "phi" and any(x.k == "call" and q.tail(x.d) == "eye" for _, x in q.alts(v)):
                return N
            if v.k == "call" and q.tail(v.d) in ("records",):
                return N
            return Ev.length(self, v)

        def sym(self, x):
            if x.k == "phi" or x.k == "sel" and x.d == "!" and x.a[0].k == "sel" and x.a[0].d == "kpls_dim":
                return "N"
            return Ev.sym(self, x)

        def pos(self, n):
            n2 = strip(n)
            if n2.k == "phi" and all(w.k == "call" and q.tail(w.d) == "ncols" or w.k == "sel" for _, w in ((g, strip(w)) for g, w in q.alts(n2))):
                return N
            return Ev.pos(self, n)

        def comp(self, v, i):
            v = strip(v)
            if v.k == "elem" and v.a[0] is start0:
                return {f"x[{text(i)}]"}
            if v.k == "sel" and v.d == "1" and best_of(v.a[0]):
                return {f"best[{text(i)}]"}
            return Ev.comp(self, v, i)

        def scal(self, v, k):
            v = strip(v)
            if v.k == "elem" and v.a[0].k == "elem" and v.a[0].a[0] is start0 and len(v.a) == 2 and v.a[1] is STAR:
                return {f"x[{text(k)}]"}
            return Ev.scal(self, v, k)

    pmres = inc(pm.res)
    start0 = E.select(pmres, "0")
    opres = inc(op.res)

    def best_of(v):
        v = strip(v)
        while v.k == "sel" and v.d == "!":
            v = v.a[0]
        return v.k == "call" and q.tail(v.d) in ("reduce", "min_by", "fold", "reduce_with") and any(x is opres for x in q.walk(v))

    ev = Case(names)
    ev.inc = inc
    if searched or est is not None:
        # starts
        if est is None:
            attempt(ctx, f"{case}: start", {start}, lambda: ev.comp(inc(pm.args[1]), K), pm.span, f"{case}: component k of the start")
            lo = "bounds[0]" if one_b else f"bounds[{at_k}]"
            pairs(ctx, ev, inc(pm.args[2]), f"{case}: bounds", pm.span, lo + ".0", lo + ".1")
            attempt(ctx, f"{case}: optimizer start", {"x[k]"}, lambda: ev.comp(inc(op.args[0]), K), op.span, f"{case}: the optimizer starts at a row of the prepared starts")
            ctx.ob(inc(op.args[1]) is E.select(pmres, "1"), f"{case}: optimizer bounds", f"{case}: the optimizer is bounded by {E.show(inc(op.args[1]), 3)}, expected the converted bounds", op.span)
        else:
            nt = {} if var == "Fixed" else N
            if var != "Fixed":
                attempt(ctx, f"{case}: start", {start}, lambda: ev.comp(inc(pm.args[1]), K), pm.span, f"{case}: component k of the start")
                lo = "bounds[0]" if one_b else "bounds[k]"
                pairs(ctx, ev, inc(pm.args[2]), f"{case}: bounds", pm.span, lo + ".0", lo + ".1")
                pairs(ctx, Through(ev, pmres), inc(op.args[1]), f"{case}: optimizer bounds", op.span, "prepared[k].0", "prepared[k].1")
            nz = E.select(E.select(mk("param", "a0"), "noise"), "Optimized.init")
            if est:
                attempt(ctx, f"{case}: noise start", {E.show(nz, 12)}, lambda: ev.comp(inc(pm.args[1]), padd(nt, {(): 1})), pm.span, f"{case}: start of the noise variance")
                nb = E.show(E.select(E.select(mk("param", "a0"), "noise"), "Optimized.bounds"), 12)
                pairs(ctx, Through(ev, pmres), inc(op.args[1]), f"{case}: noise bounds", op.span, f"log10({nb}.0)", f"log10({nb}.1)", at=padd(nt, {(): 1}))
            try:
                s2 = ev.comp(inc(pm.args[1]), nt)
                a, b = pair_of(Through(ev, pmres), inc(op.args[1]), nt)
                ok = len(s2) == 1 and "std_axis" in next(iter(s2)) or "var_axis" in next(iter(s2))
                ctx.ob(ok, f"{case}: variance start", f"{case}: the start of the variance is {sorted(s2)}, expected the variance of the outputs", pm.span)
                ctx.ob(all(x.startswith("log10(") for x in a | b) and len(a) == len(b) == 1, f"{case}: variance bounds", f"{case}: the variance is searched between {sorted(a)} and {sorted(b)}, expected one pair of logarithms", op.span)
            except Bad as e:
                ctx.ob(False, f"{case}: variance", f"{case}: cannot be resolved ({e})", pm.span)
            attempt(ctx, f"{case}: optimizer start", {"x[k]"}, lambda: ev.comp(inc(op.args[0]), K), op.span, f"{case}: the optimizer starts at a row of the prepared starts")
    # candidates and result
    for e in ev_rl:
        inside = any(x is start0 for a in e.args for x in q.walk(inc(a)))
        final = any(q.same(x, y) for x in (inc(e.res),) for y in ()) or not candidate(e, start0, inc, opres)
        if est is None:
            corr = inc(e.args[1])
            if not (corr.k == "call" and len(corr.a) >= 3):
                ctx.ob(False, f"{case}: correlation", f"{case}: the likelihood is computed from {E.show(corr, 3)}", e.span)
                continue
            th = corr.a[2]
            if final:
                result(ctx, ev, case, var, th, start, partial, e.span)
            elif searched:
                cand(ctx, ev, case, th, start, partial, e.span, "x")
        else:
            nt = {} if var == "Fixed" else N
            src = "best" if final else "x"
            th, s2, nz = (inc(e.args[i]) for i in (1, 2, 3))
            want = {start} if var == "Fixed" else {f"pow10({src}[k])"}
            attempt(ctx, f"{case}: {src} theta", want, lambda: ev.comp(th, K), e.span, f"{case}: component k of the theta the likelihood is computed with")
            attempt(ctx, f"{case}: {src} variance", {f"pow10({src}[{text(nt)}])"}, lambda: ev.scal(s2, K), e.span, f"{case}: variance the likelihood is computed with")
            fx = E.show(E.select(E.select(mk("param", "a0"), "noise"), "Fixed.0"), 12)
            attempt(ctx, f"{case}: {src} noise", {f"pow10({src}[{text(padd(nt, {(): 1}))}])" if est else fx}, lambda: ev.scal(nz, K), e.span, f"{case}: noise variance the likelihood is computed with")
            if final:
                for fld, v in (("theta", th), ("sigma2", s2), ("noise", nz)):
                    ctx.ob(q.same(inc(E.select(model, fld)), v), f"{case}: stored {fld}", f"{case}: the model stores {E.show(inc(E.select(model, fld)), 3)} as {fld}, but its likelihood was computed with {E.show(v, 3)}", where)
        if final and est is None:
            ctx.ob(q.same(inc(theta_out), corr.a[2]), f"{case}: stored theta", f"{case}: the model stores {E.show(inc(theta_out), 3)}, but its likelihood was computed with {E.show(corr.a[2], 3)}", where)


class Through(Ev):
    """the pairs of the prepared bounds"""

    def __init__(self, base, pmres):
        self.base, self.pm1 = base, E.select(pmres, "1")
        self.inc = base.inc
        n = dict(base.names)
        n[self.pm1] = ("prepared", base.length(self.pm1))
        self.names = n

    def length(self, v):
        if strip(v) is self.pm1:
            return self.names[self.pm1][1]
        return self.base.length(v)

    def pos(self, n):
        return self.base.pos(n)

    def sym(self, x):
        return self.base.sym(x)


def candidate(e, start0, inc, opres):
    """is the likelihood evaluated inside the objective (at a candidate), rather than at the retained point?"""
    for a in e.args:
        v = inc(a)
        hit = [x for x in q.walk(v, cut=lambda y: y is opres) if x.k == "elem" and x.a[0] is start0]
        if hit:
            return True
    return e.frame.parent is not None if hasattr(e.frame, "parent") else False


def cand(ctx, ev, case, th, start, partial, where, src):
    try:
        base, ws = ev.scattered(th)
        if ws:
            b0 = ev.comp(base, "active[k]" if partial else K)
            ctx.ob(b0 <= {start}, f"{case}: candidate base", f"{case}: the other components of a candidate are {sorted(b0)}, expected the initial guess", where)
            for val, at in ws:
                ctx.ob(val == {f"pow10({src}[k])"}, f"{case}: candidate value", f"{case}: a component of the candidate theta is {sorted(val)}, expected pow10({src}[k])", where)
                ctx.ob(at == ("active[k]" if partial else "k"), f"{case}: candidate position", f"{case}: component k of the candidate is written at {at}", where)
        else:
            got = ev.comp(th, K)
            ctx.ob(not partial and got == {f"pow10({src}[k])"}, f"{case}: candidate value", f"{case}: theta of a candidate is {sorted(got)}, expected pow10({src}[k]) on the searched components", where)
    except Bad as e:
        ctx.ob(False, f"{case}: candidate", f"{case}: the theta the likelihood is evaluated at cannot be resolved ({e})", where)


def result(ctx, ev, case, var, th, start, partial, where):
    if var == "Fixed":
        attempt(ctx, f"{case}: result", {start}, lambda: ev.comp(th, K), where, f"{case}: component k of the returned theta")
    elif not partial:
        attempt(ctx, f"{case}: result", {"pow10(best[k])"}, lambda: ev.comp(th, K), where, f"{case}: component k of the returned theta")
    else:
        cand(ctx, ev, case, th, start, True, where, "best")


def kept(ctx, ty, r, where):
    """of the optimizations of the different starts, the one with the lowest value is retained"""
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name) in ("reduce", "reduce_with", "min_by", "max_by") and any(x.k == "call" and q.tail(x.d) == "optimize_params" for a in e.args for x in q.walk(a))):
        f = ctx.prog.fns.get(e.raw[-1].d) if e.raw[-1].k == "clo" else None
        if f is None:
            continue
        n += 1
        v = ctx.eval(f).ret
        a, b = mk("param", "a1"), mk("param", "a2")
        a0, b0 = E.select(a, "0"), E.select(b, "0")
        for lower, x, y in ((a, 0, 1), (b, 1, 0)):
            g = q.assume(v, {a0: num(float(x)), b0: num(float(y))})
            facts = {}
            for o in q.walk(g, control=True):
                if o.k == "op" and o.d in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and all(const_of(w) is not None for w in o.a):
                    p, s = const_of(o.a[0]), const_of(o.a[1])
                    facts[o] = E.boolc({"Lt": p < s, "Le": p <= s, "Gt": p > s, "Ge": p >= s, "Eq": p == s, "Ne": p != s}[o.d])
            g = q.assume(g, facts)
            while g.k == "sel" and g.d == "!" or g.k == "agg" and g.d[1] == "Some":
                g = g.a[0]
            if q.tail(e.name) in ("min_by", "max_by"):
                order = const_of(g)
                ok = (order == (255 if lower is a else 1)) == (q.tail(e.name) == "min_by") and order is not None or order == -1 and lower is a
            else:
                ok = q.same(g, q.assume(lower, {a0: num(float(x)), b0: num(float(y))})) or g is lower
            ctx.ob(ok, f"{ty} retained start", f"{ty}: of two optimizations, the one retained when the {'first' if lower is a else 'second'} has the lower value is {E.show(g, 4)}", where)
    return n


def objective(ctx, ty, op, rl, where):
    """the optimizer minimizes the opposite of the likelihood"""
    vals = op.res.a[3:] if op.res.k == "call" else ()
    ctx.ob(len(vals) == 1, f"{ty} objective", f"{ty}: the objective handed to the optimizer cannot be resolved", where)
    res = [x.res for x in rl]
    for v in vals:
        n = 0
        for _, w in q.alts(v):
            w = strip(w)
            c = const_of(w)
            if c == float("inf"):
                continue
            n += 1
            y = strip(w.a[0]) if w.k == "op" and w.d == "Neg" else None
            ok = y is not None and y.k == "sel" and y.d == "0" and any(y.a[0] in (x, E.select(x, "!")) for x in res)
            ctx.ob(ok, f"{ty} objective", f"{ty}: the optimizer minimizes {E.show(w, 4)}, expected the opposite of the likelihood", where)
        ctx.ob(n > 0, f"{ty} objective", f"{ty}: the objective never uses the likelihood", where)
