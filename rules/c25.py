"""C25: correlation kernels are the documented ones (1 at zero distance, in (0,1], even) and their jacobians are their derivatives."""
import math
from vp import engine as E, q
from vp.engine import mk, const_of, select
from vp.tensor import Tensors, T, Bad, atom, pmul, padd, merge, reaches, show as show_
from vp.facts import last_ident
from rules.c16 import payload

ASSUMPTIONS = ["hyperparameters are positive", "arithmetic over the reals; at a zero component of the distance the derivative is the one-sided one"]

# documented kernels: per component and hyperparameter, with s = theta·|weight·d|:   prod poly(s) · exp(-sum coef·s^power)
KERNELS = {
    "SquaredExponentialCorr": ([1.0], 0.5, 2),
    "AbsoluteExponentialCorr": ([1.0], 1.0, 1),
    "Matern32Corr": ([1.0, math.sqrt(3)], math.sqrt(3), 1),
    "Matern52Corr": ([1.0, math.sqrt(5), 5 / 3], math.sqrt(5), 1),
}
# atoms: A = |d|, S = sign d, t = theta, W = |weight|, V = sign weight
SQUARES = ("S", "V")


def nrm(p):
    out = {}
    for m, c in p.items():
        m = tuple((x, e % 2 if x in SQUARES else e) for x, e in m)
        m = tuple((x, e) for x, e in m if e)
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if abs(c) > 1e-13}


def mono(*xs):
    d = {}
    for x, e in xs:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def show(p):
    return show_({m: float(round(c, 6)) for m, c in p.items()})


def close(a, b):
    a, b = nrm(a), nrm(b)
    return all(abs(a.get(m, 0) - b.get(m, 0)) <= 1e-9 * max(1, abs(b.get(m, 0))) for m in set(a) | set(b))


class Kern(Tensors):
    """tensors whose sums and products over labels are kept flat; atoms carry the poly they were made of"""

    def __init__(self, eng, leaf):
        super().__init__(eng, leaf)
        self.made = {}

    def name(self, kind, labels, p):
        s = f"{kind}{''.join(sorted(labels))}{{{show(nrm(p))}}}"
        self.made[s] = (kind, frozenset(labels), nrm(p))
        return s

    def flat(self, p):
        """{(labels of the sum, monomial): coefficient}"""
        out = {}
        for m, c in nrm(p).items():
            ss = [(x, e) for x, e in m if self.made.get(x, "?")[0] == "Σ"]
            if not ss:
                out[(frozenset(), m)] = out.get((frozenset(), m), 0) + c
                continue
            if len(ss) > 1 or ss[0][1] != 1:
                raise Bad(f"product of sums {show({m: c})}")
            _, labs, inner = self.made[ss[0][0]]
            for m2, c2 in nrm(pmul({tuple(t for t in m if t not in ss): c}, inner)).items():
                out[(labs, m2)] = out.get((labs, m2), 0) + c2
        return {k: c for k, c in out.items() if abs(c) > 1e-13}

    def unflat(self, fl):
        by = {}
        for (labs, m), c in fl.items():
            by.setdefault(labs, {})[m] = c
        r = {}
        for labs, p in by.items():
            r = padd(r, atom(self.name("Σ", labs, p)) if labs else p)
        return r

    def sum(self, label, p):
        fl = {}
        for (labs, m), c in self.flat(p).items():
            if label in labs:
                raise Bad(f"summed twice over {label}")
            fl[(labs | {label}, m)] = c
        return self.unflat(fl)

    def prod(self, label, p, excl=False):
        p = nrm(p)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.made.get(m[0][0], "?")[0] == ("Πx" if excl else "Π"):
                _, labs, inner = self.made[m[0][0]]
                if label in labs:
                    raise Bad(f"multiplied twice over {label}")
                return atom(self.name("Πx" if excl else "Π", labs | {label}, inner))
        return atom(self.name("Πx" if excl else "Π", {label}, p))

    def _ev(self, n):
        if n.k == "op" and n.d in ("exp", "abs", "signum", "powi", "powf", "sqrt"):
            a = self.ev(n.a[0])
            p = nrm(a.p)
            if n.d == "exp":
                return T(a.labels, atom(self.name("exp", (), self.unflat(self.flat(p)))))
            if n.d in ("abs", "signum") and len(p) == 1:
                (m, c), = p.items()
                if all(x in ("A", "S", "t", "W", "V") for x, _ in m):
                    if n.d == "abs":
                        return T(a.labels, {tuple((x, e) for x, e in m if x not in SQUARES): abs(c)})
                    return T(a.labels, {tuple((x, e) for x, e in m if x in SQUARES): 1 if c > 0 else -1})
            if n.d in ("powi", "powf"):
                c = const_of(n.a[1])
                if c is not None and float(c) in (1, 2, 3, 4):
                    r = {(): 1}
                    for _ in range(int(c)):
                        r = nrm(pmul(r, p))
                    return T(a.labels, r)
            raise Bad(f"{n.d}({show(p)})")
        if n.k == "op" and n.d == "Neg":
            a = self.ev(n.a[0])
            return T(a.labels, {m: -c for m, c in a.p.items()})
        if n.k == "sel" and n.d == "!":
            return self.ev(n.a[0])
        if n.k == "call":
            s = q.tail(n.d)
            if s in ("into_shape_with_order", "to_shape", "into_shape", "insert_axis"):
                a = self.ev(n.a[0])
                if s == "insert_axis":
                    return super()._ev(n)
                sh = self.shape(n.a[1])
                core = tuple(x for x in a.labels if x != "1")
                if tuple(x for x in sh if x != "1") != core:
                    raise Bad(f"an array with axes {a.labels} is reshaped to {sh}")
                return T(sh, a.p)
            if s == "product":
                a = self.ev(n.a[0])
                if len(a.labels) != 1:
                    raise Bad("product over several axes")
                return T((), self.prod(a.labels[0], a.p))
            if s == "einsum":
                spec = const_of(n.a[0])
                ops = n.a[1].a
                ins, out = str(spec).split("->")
                lab = {}
                p = {(): 1}
                for names, x in zip(ins.split(","), ops):
                    t = self.ev(x)
                    if len(names) != len(t.labels):
                        raise Bad(f"einsum {spec} of axes {t.labels}")
                    for c, l in zip(names, t.labels):
                        if lab.setdefault(c, l) != l:
                            raise Bad(f"einsum {spec} contracts axes {lab[c]} and {l}")
                    p = pmul(p, t.p)
                for c in lab:
                    if c not in out:
                        p = self.sum(lab[c], p)
                return T(tuple(lab[c] for c in out), p)
            if s in ("differences",):
                raise Bad("differences not followed")
        return super()._ev(n)

    def _mu(self, n, f=None):
        """nested loops which fill cells or accumulate"""
        chain, cur, init = [], n, None
        while True:
            ops = [x for x in E.MU.get(cur, ()) if x is not cur]
            ini = [x for x in ops if x in chain or not chain and not reaches(x, cur, self.bind)]
            bod = [x for x in ops if x not in ini]
            if len(ini) != 1 or len(bod) != 1:
                if not chain and len(ini) == 2 and not bod:
                    # a buffer overwritten without reading it back
                    z = [x for x in ini if x.k == "call"] or ini[:1]
                    ini, bod = z[:1], [x for x in ini if x not in z[:1]]
                else:
                    raise Bad(f"loop value {E.show(cur)} with {len(ini)} starts and {len(bod)} updates")
            if not chain:
                init = self.ev(ini[0])
            chain.append(cur)
            body = bod[0]
            if cur in E.MU.get(cur, ()) and cur in E.BACK:
                body = E.phi(list(E.BACK[cur]))
            if body.k == "mu" and body not in chain:
                cur = body
                continue
            break
        me = f"µ{n.i}"
        old = {m: self.bind.get(m) for m in chain}
        for m in chain:
            self.bind[m] = T(init.labels, atom(me))
        try:
            loops = [self.loop(m) for m in chain]
            excl = False
            if body.k == "phi":
                body, excl = self.skip(body, chain)
            dropped = []
            while body.k == "wr":
                b, v, idx = body.a[0], body.a[1], body.a[2:]
                t = self.ev(b)
                if not all(x is E.STAR or x.k == "call" and x.d == "index" or q.is_range(x) and self.src(x) == l for x, l in zip(idx, t.labels)):
                    raise Bad(f"a cell written at {E.show(body, 3)}")
                dropped += t.labels[: len(idx)]
                body = v
            t = self.ev(body)
            rest = tuple(x for x in init.labels if x not in dropped)
            if merge(rest, t.labels) != rest:
                raise Bad(f"values with axes {t.labels} stored in cells with axes {rest}")
            over = list(loops)
            for d in dropped:
                if d not in over and "?" not in over:
                    raise Bad(f"cells along {d} are filled while {loops} are iterated")
                over.remove(d if d in over else "?")
            if "?" in over:
                raise Bad(f"a loop over an unknown axis ({loops})")
            p = nrm(t.p)
            has = [m for m in p if any(x == me for x, _ in m)]
            if not has:
                if over or excl:
                    raise Bad(f"a value overwritten along {over}")
                return T(init.labels, p)
            if len(has) == len(p) and all((me, 1) in m for m in p) and len(p) >= 1 and any(len(m) > 1 for m in p):
                fac = {tuple(x for x in m if x[0] != me): c for m, c in p.items()}
                if any(x == me for m in fac for x, _ in m):
                    raise Bad("power of an accumulator")
                for l in reversed(over):
                    fac = self.prod(l, fac, excl)
                return T(init.labels, pmul(init.p, fac))
            t2 = padd(p, atom(me), -1)
            if excl or any(x == me for m in t2 for x, _ in m):
                raise Bad(f"accumulation {show(p)}")
            for l in reversed(over):
                t2 = self.sum(l, t2)
            return T(init.labels, padd(init.p, t2))
        finally:
            for m, o in old.items():
                if o is None:
                    self.bind.pop(m, None)
                else:
                    self.bind[m] = o

    def accumulate(self, me, init, p, label):
        p = nrm(p)
        if p and all((me, 1) in m for m in p) and any(len(m) > 1 for m in p):
            fac = {tuple(x for x in m if x[0] != me): c for m, c in p.items()}
            if not any(x == me for m in fac for x, _ in m):
                return pmul(init, self.prod(label, fac))
        return super().accumulate(me, init, p, label)

    def skip(self, body, chain):
        """(update, True) of an accumulation done for every position but the outer one"""
        keep = [(g, v) for g, v in zip(body.d, body.a) if v in chain]
        upd = [(g, v) for g, v in zip(body.d, body.a) if v not in chain]
        if len(keep) != 1 or len(upd) != 1:
            raise Bad(f"conditional accumulation {E.show(body, 4)}")
        g = keep[0][0]
        if len(g) != 1:
            raise Bad(f"positions left out of a product: {E.show(body, 6)}")
        got = set()
        for c, ed in next(iter(g)):
            v = q.lit(c, ed)
            eq = c.k == "op" and c.d in ("Eq", "Ne") and ((c.d == "Eq") != (ed == ("in", "0")))
            if not eq:
                raise Bad(f"positions left out of a product under {E.show(c, 4)}")
            labs = set()
            for x in c.a:
                if not (x.k == "call" and x.d == "index" or q.is_range(x)):
                    raise Bad(f"positions left out of a product under {E.show(c, 4)}")
                labs.add(self.src(x if q.is_range(x) else x.a[0]))
            if len(labs) != 1 or c.a[0] is c.a[1] and not q.is_range(c.a[0]):
                raise Bad(f"positions of axes {sorted(labs)} are compared")
            got |= labs
        if got != {"d", "h"}:
            raise Bad(f"a product leaves out the positions with the same {sorted(got)}")
        return upd[0][1], True


def leaves(dist, theta, weights, x=None, xt=None):
    D = {(("A", 1), ("S", 1)): 1}

    def leaf(n):
        if dist is not None and n is dist:
            return T(("n", "d"), D)
        if n is theta:
            return T(("h",), atom("t"))
        if n is weights:
            return T(("d", "h"), {(("V", 1), ("W", 1)): 1})
        if x is not None:
            if n.k == "op" and n.d == "Sub" and {n.a[0], n.a[1]} == {x, xt}:
                return T(("n", "d"), D if n.a[0] is x else {m: -1 for m in D})
            if n is xt:
                return T(("n", "d"), atom("xt"))
            if n is x:
                return T(("d",), atom("x"))
        return None
    return leaf


def spec_value(k, K):
    poly, coef, pw = K
    e = k.unflat({(frozenset("dh"), mono(("A", pw), ("t", pw), ("W", pw))): -coef})
    p = atom(k.name("exp", (), e))
    if len(poly) > 1:
        f = {mono(("A", i), ("t", i), ("W", i)): c for i, c in enumerate(poly)}
        p = pmul(p, atom(k.name("Π", set("dh"), f)))
    return p


def spec_jac(k, K):
    poly, coef, pw = K
    val = spec_value(k, K)
    de = {(frozenset("h"), mono(("A", pw - 1), ("t", pw), ("W", pw), ("S", 1))): -coef * pw}
    out = pmul(val, k.unflat(de))
    if len(poly) > 1:
        e = k.unflat({(frozenset("dh"), mono(("A", pw), ("t", pw), ("W", pw))): -coef})
        f = {mono(("A", i), ("t", i), ("W", i)): c for i, c in enumerate(poly)}
        px = k.name("Πx", set("dh"), f)
        da = {(frozenset("h"), mono(("A", i - 1), ("t", i), ("W", i), ("S", 1), (px, 1))): c * i for i, c in enumerate(poly) if i}
        out = padd(out, pmul(atom(k.name("exp", (), e)), k.unflat(da)))
    return out


def run(ctx):
    ctx.rule = ("For each correlation model, value, jacobian and both together are read as labelled formulas (points n, components d, hyperparameters h) from the value graph: the value must be prod_{d,h} poly(s)·exp(-Σ_{d,h} c·s^k) with s = theta·|weight·d| and the "
                "documented poly, c and k, from which value 1 at 0, symmetry and range (0,1] follow by comparing coefficients; the jacobian must be the derivative of that formula taken symbolically, at d = x - xtrain.")
    seen = set()
    n = 0
    P = [mk("param", f"a{i}") for i in range(6)]
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.short):
        if f.generated() or f.trait != "CorrelationModel" or not f.blocks or f.name not in ("value", "jacobian", "valjac"):
            continue
        kn = last_ident(f.selfh or "").split("<")[0]
        if not ctx.ob(kn in KERNELS, f"{kn}:known", f"{f.short}: no documented formula for the kernel {kn}", f.span):
            continue
        K = KERNELS[kn]
        seen.add((kn, f.name))
        r = ctx.eval(f, selfty=f.selfh)
        v = r.val()
        parts = [("value", v)] if f.name == "value" else [("jacobian", v)] if f.name == "jacobian" else [("value", select(v, "0")), ("jacobian", select(v, "1"))]
        for what, w in parts:
            n += 1
            k = Kern(r.eng, leaves(P[1], P[2], P[3]) if f.name == "value" else leaves(None, P[3], P[4], P[1], P[2]))
            exp = spec_value(k, K) if what == "value" else spec_jac(k, K)
            labels = ("n", "1") if what == "value" else ("n", "d")
            try:
                t = k.ev(w)
                got, lab = t.p, t.labels
            except Bad as e:
                ctx.ob(False, f"{kn}:{f.name}:{what}", f"{f.short}: the {what} cannot be read as the documented formula: {e}", f.span)
                continue
            ok = same(k, got, exp) and lab == labels
            ctx.ob(ok, f"{kn}:{f.name}:{what}", f"{f.short}: the {what} is {show(nrm(got))} over axes {lab} instead of {show(nrm(exp))} over {labels} (A=|d|, S=sign d, t=theta, W=|weight|, Π product, Πx product without the own factor)", f.span)
    ctx.floor("kernel formulas", n, 16)
    for kn, (poly, c, k) in KERNELS.items():
        ctx.ob(poly[0] == 1 and all(a >= 0 for a in poly), f"{kn}:zero", f"{kn} is not 1 at zero distance", "")
        ctx.ob(c > 0 and (len(poly) == 1 or k == 1 and all(a <= c ** i / math.factorial(i) + 1e-12 for i, a in enumerate(poly))), f"{kn}:range", f"{kn} exceeds 1", "")
        for m in ("value", "jacobian", "valjac"):
            ctx.ob((kn, m) in seen, f"{kn}:{m}:found", f"{kn}::{m} not found", "")


def same(k, a, b):
    if close(a, b):
        return True
    try:
        fa, fb = k.flat(a), k.flat(b)
    except Bad:
        return False
    return all(abs(fa.get(x, 0) - fb.get(x, 0)) <= 1e-9 * max(1, abs(fb.get(x, 0))) for x in set(fa) | set(fb))
