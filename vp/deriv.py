"""Formulas of scalar functions of a point, read from value graphs, and their symbolic derivative.
A formula is a Laurent polynomial {((atom, exponent), ..): coefficient}; atoms are texts with a meaning in `reg`."""
import math
from . import engine as E, q
from .engine import const_of, STAR, ALL
from .tensor import pmul as pmul_, padd as padd_, Bad

TINY = 1e-12


def clean(p):
    return {m: c for m, c in p.items() if c}


def show(p):
    def num(c):
        return f"{c:.9g}"
    p = {m: float(round(c)) if c == c and abs(c) < 1e15 and round(c) and abs(c - round(c)) < 1e-9 else c for m, c in p.items()}
    return " + ".join((num(c) if c != 1 or not m else "") + ("·" if c != 1 and m else "") + "·".join(x + (f"^{e}" if e != 1 else "") for x, e in m) for m, c in sorted(p.items())) or "0"


def close(a, b):
    """two formulas are the same up to the rounding of the constants"""
    keys = set(a) | set(b)
    top = max([abs(v) for v in list(a.values()) + list(b.values())] or [1])
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= 1e-8 * max(abs(a.get(k, 0)), abs(b.get(k, 0)), 1e-2 * top) for k in keys)


class Formulas:
    def __init__(self, eng, leaf, cond=None):
        """leaf(node) -> polynomial | None; cond: {condition node: bool} for the case at hand"""
        self.eng, self.leaf, self.facts = eng, leaf, {}
        self.reg, self.memo, self.bind, self.index, self.empty = {}, {}, {}, set(), set()

    # ------------------------------------------------------------------ polynomials
    def atom(self, s, kind, *payload):
        self.reg[s] = (kind,) + payload
        return {((s, 1),): 1}

    def padd(self, a, b, s=1):
        return padd_(a, b, s)

    def pmul(self, a, b):
        r = {}
        for m, c in pmul_(a, b).items():
            for m2, c2 in self.norm(m).items():
                v = r.get(m2, 0) + c * c2
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
        return r

    def norm(self, m):
        """exponentials of one product merged"""
        ex = [(x, e) for x, e in m if self.reg.get(x, ("",))[0] == "exp"]
        if not ex or len(ex) == 1 and ex[0][1] == 1:
            return {m: 1}
        arg = {}
        for x, e in ex:
            arg = padd_(arg, {k: c * e for k, c in self.reg[x][1].items()})
        rest = {tuple(t for t in m if t not in ex): 1}
        return pmul_(rest, self.exp(clean({k: c for k, c in arg.items() if abs(c) > 1e-12})))

    def exp(self, p):
        k, out, rest = 0.0, {(): 1}, {}
        for m, c in p.items():
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1 and self.reg.get(m[0][0], ("",))[0] == "ln" and float(c).is_integer():
                b = self.reg[m[0][0]][1]
                for _ in range(int(abs(c))):
                    out = self.pmul(out, b) if c > 0 else self.pmul(out, self.inv(b))
            else:
                rest[m] = c
        r = {(): math.exp(k)} if not rest else pmul_({(): math.exp(k)}, self.atom(f"exp[{show(rest)}]", "exp", rest))
        if rest and out == {(): 1}:
            return r
        return self.pmul(r, out)

    def inv(self, p):
        p = clean(p)
        if not p:
            raise Bad("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            return self.pmul({tuple((x, -e) for x, e in m): 1}, {(): 1 / c})
        p, c, mono = self.content(p)
        return self.pmul({tuple((x, -e) for x, e in mono): 1 / c}, {((self.sumatom(p), -1),): 1})

    def sumatom(self, p):
        s = f"({show(p)})"
        self.reg[s] = ("sum", p)
        return s

    def content(self, p):
        """p = c · mono · p'"""
        ms = list(p)
        common = {}
        for x in {x for m in ms for x, _ in m}:
            if self.reg.get(x, ("",))[0] == "exp":
                continue
            e = min(dict(m).get(x, 0) for m in ms)
            if e:
                common[x] = e
        mono = tuple(sorted(common.items()))
        p = pmul_(p, {tuple((x, -e) for x, e in mono): 1})
        c = p[min(p)]
        return {m: v / c for m, v in p.items()}, c, mono

    def ln(self, p):
        p = clean(p)
        if not p:
            raise Bad("logarithm of zero")
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0:
                raise Bad(f"logarithm of {show(p)}")
            r = {(): math.log(c)} if c != 1 else {}
            for x, e in m:
                k = self.reg.get(x, ("",))
                r = padd_(r, {mm: cc * e for mm, cc in (k[1] if k[0] == "exp" else self.atom(f"ln[{x}]", "ln", {((x, 1),): 1})).items()})
            return r
        return self.atom(f"ln[{show(p)}]", "ln", p)

    def sqrt(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c >= 0 and all(e % 2 == 0 for _, e in m):
                return {tuple((x, e // 2) for x, e in m): math.sqrt(c)}
        return self.atom(f"sqrt[{show(p)}]", "sqrt", p)

    def abs(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): abs(c)}
            for x, e in m:
                k = self.reg.get(x, ("",))[0]
                t = {((x, 1),): 1}
                if k not in ("exp", "erfc", "abs", "sigma"):
                    t = self.atom(f"abs[{x}]", "abs", t)
                (mm, _), = t.items()
                r = self.pmul(r, {((mm[0][0], e),): 1})
            return r
        return self.atom(f"abs[{show(p)}]", "abs", p)

    def erfc(self, p):
        if p and p[min(p)] > 0:
            n = {m: -c for m, c in p.items()}
            return padd_({(): 2}, self.erfc(n), -1)
        return self.atom(f"erfc[{show(p)}]", "erfc", p)

    def big(self, op, src, p):
        """Σ over a collection"""
        if any(x in src for x in self.empty):
            return {} if op[0] == "Σ" else {(): 1}
        if op == "Σ":
            r = {}
            for m, c in p.items():
                r = padd_(r, {mm: c for mm in self.atom(f"Σ{src}[{show({m: 1})}]", "Σ", src, {m: 1})})
            return r
        return self.atom(f"{op}{src}[{show(p)}]", op, src, p)

    # ------------------------------------------------------------------ derivative with respect to the component
    def D(self, p):
        r = {}
        for m, c in p.items():
            for i, (x, e) in enumerate(m):
                rest = m[:i] + (((x, e - 1),) if e != 1 else ()) + m[i + 1:]
                d = self.Datom(x)
                if d:
                    r = padd_(r, self.pmul(self.pmul({(): c * e}, {tuple(sorted(rest)): 1}), d))
        return r

    def Datom(self, x):
        k = self.reg.get(x, ("const",))
        if k[0] == "const":
            return {}
        if k[0] == "of":  # named function of the point with its derivative
            return k[1]
        if k[0] == "sigma":
            return self.pmul(k[1], {((x, -1),): 0.5})
        p = k[-1]
        d = self.D(p)
        if not d:
            return {}
        if k[0] == "exp":
            return self.pmul({((x, 1),): 1}, d)
        if k[0] == "ln":
            return self.pmul(d, self.inv(p))
        if k[0] == "sum":
            return d
        if k[0] == "sqrt":
            return self.pmul(d, {((x, -1),): 0.5})
        if k[0] == "abs":
            return self.pmul(self.pmul({((x, 1),): 1}, self.inv(p)), d)
        if k[0] == "erfc":
            return self.pmul(self.pmul({(): -2 / math.sqrt(math.pi)}, self.exp({m: -c for m, c in self.pmul(p, p).items()})), d)
        if k[0] == "fun":
            return self.pmul(self.atom(f"{k[1]}'[{show(p)}]", "fun'", k[1], p), d)
        if k[0] == "Σ":
            return self.big("Σ", k[1], d)
        if k[0] == "Π":
            return self.big("Σ", k[1], self.pmul(d, self.atom(f"Π{k[1]}≠[{show(p)}]", "Π≠", k[1], p)))
        raise Bad(f"derivative of {x}")

    def singular(self, p, seen=None):
        """atoms σ which the formula divides by or takes the logarithm of"""
        out, seen = set(), set() if seen is None else seen
        for m in p:
            for x, e in m:
                k = self.reg.get(x, ("const",))
                if k[0] == "sigma" and e < 0:
                    out.add(x)
                if k[0] == "ln" and len(k[1]) == 1:
                    out |= {y for mm in k[1] for y, _ in mm if self.reg.get(y, ("",))[0] == "sigma"}
                if x in seen:
                    continue
                seen.add(x)
                if k[0] in ("exp", "ln", "sum", "sqrt", "abs", "erfc", "fun", "fun'", "Σ", "Π", "Π≠"):
                    out |= self.singular(k[-1], seen)
        return out

    # ------------------------------------------------------------------ reading
    def ex(self, n):
        if n in self.bind:
            return self.bind[n]
        r = self.memo.get(n)
        if r is None:
            r = self.ex_(n)
            self.memo[n] = r
        return r

    def ex_(self, n):
        c = const_of(n)
        if isinstance(c, bool):
            return {(): 1} if c else {}
        if isinstance(c, (int, float)):
            return {(): c} if c else {}
        m = elem_(n)
        if m is not n:
            return self.ex(m)
        r = self.leaf(n)
        if r is not None:
            return r
        if n.k == "phi" and len(set(n.a)) == 1:
            return self.ex(n.a[0])
        if n.k in ("op", "call"):
            s = q.tail(n.d) if n.k == "call" else n.d
            a = n.a
            if s in ("Add", "Sub", "Mul", "Div") and len(a) == 2:
                x, y = self.ex(a[0]), self.ex(a[1])
                return padd_(x, y) if s == "Add" else padd_(x, y, -1) if s == "Sub" else self.pmul(x, y) if s == "Mul" else self.pmul(x, self.inv(y))
            if s == "Neg":
                return {m: -c for m, c in self.ex(a[0]).items()}
            if s == "recip":
                return self.inv(self.ex(a[0]))
            if s in ("powi", "powf", "pow"):
                k = const_of(a[1])
                if isinstance(k, (int, float)) and float(k).is_integer() and abs(k) <= 6:
                    x, r = self.ex(a[0]), {(): 1}
                    for _ in range(int(abs(k))):
                        r = self.pmul(r, x)
                    return r if k >= 0 else self.inv(r)
                if k == 0.5:
                    return self.sqrt(self.ex(a[0]))
            if s in ("exp", "sqrt", "abs", "erfc") and len(a) == 1:
                return getattr(self, s)(self.ex(a[0]))
            if s in ("ln", "log") and len(a) == 1:
                return self.ln(self.ex(a[0]))
            if s in ("expm1", "exp_m1"):
                return padd_(self.exp(self.ex(a[0])), {(): 1}, -1)
            if s in ("log1p", "ln_1p"):
                return self.ln(padd_(self.ex(a[0]), {(): 1}))
            if s == "mul_add":
                return padd_(self.pmul(self.ex(a[0]), self.ex(a[1])), self.ex(a[2]))
            if s == "max" and len(a) == 2:
                for c, v in ((a[0], a[1]), (a[1], a[0])):
                    if isinstance(const_of(c), float) and 0 < const_of(c) <= TINY:
                        return self.ex(v)  # the clipped region is excluded
            if n.k == "call":
                if s == "zeros":
                    return {}
                if s == "from_elem" and len(a) == 2:
                    return self.ex(a[1] if "ArrayBase" in n.d else a[0])
                if s == "fold":
                    return self.acc(a[0], a[1], self.ex(a[2]), a[3])
                if s in ("sum", "product") and a:
                    return self.big("Σ" if s == "sum" else "Π", src(a[0]), self.ex(E.elem(a[0], STAR)))
                if s in ("cast", "to_vec", "to_owned", "view", "from_vec", "clone", "into", "from", "into_owned", "collect", "into_raw_vec", "into_shape_with_order", "arr1") and a:
                    return self.ex(a[0])
                if s == "map" and len(a) == 2:
                    return self.ex(a[1])
        if n.k == "op" and n.d in ("cast", "trunc"):
            return self.ex(n.a[0])
        if n.k == "elem" and len(n.a) == 2:
            self.index.add(n.a[1])
            return self.ex(n.a[0])
        if n.k == "mu":
            ops = E.MU.get(n, ())
            body = [x for x in ops if any(y is n for y in q.walk(x))]
            init = [x for x in ops if x not in body and x is not n]
            body = [q.assume(x, self.facts) for x in body]
            ls = list(E.LOOPS.get(n.d[:2], ()))
            if len(body) == 1 and len(init) == 1 and len(ls) == 1 and body[0].k != "wr":
                return self.acc(n, ls[0], self.ex(init[0]), body[0])
        return self.other(n)

    def other(self, n):
        raise Bad(f"{E.show(n, 5)[:200]} is not read")

    def acc(self, m, source, init, body):
        ex = ""
        if body.k == "phi" and len(body.a) == 2 and m in body.a:
            i = 1 - body.a.index(m)
            g = [x for alt in body.d[i] for x in alt]
            if len(g) == 1 and differs(*g[0]):
                ex, body = "≠", body.a[i]
        self.bind[m] = self.atom("µ", "const")
        try:
            b = self.ex(body)
        finally:
            del self.bind[m]
        with_ = {tuple(t for t in k if t != ("µ", 1)): c for k, c in b.items() if ("µ", 1) in k}
        without = {k: c for k, c in b.items() if ("µ", 1) not in k}
        if any(x == "µ" for k in list(with_) + list(without) for x, _ in k):
            raise Bad("an accumulation")
        s, x = src(source), ""
        if s.endswith("≠"):
            s, ex = s[:-1], "≠"
        if with_ == {(): 1}:
            return padd_(init, self.big("Σ" + ex if ex else "Σ", s, without))
        if not without:
            t = self.atom(f"Π{s}≠[{show(with_)}]", "Π≠", s, with_) if ex else self.big("Π", s, with_)
            return self.pmul(init, t)
        raise Bad(f"an accumulation {show(b)}")


def differs(c, e):
    """(condition, edge) says that the index of an outer loop is not that of the inner one"""
    if c.k == "op" and c.d in ("Ne", "Eq") and all(x.k in ("call", "sel", "elem") and any(y.k == "call" and q.tail(y.d) in ("index", "enumerate", "next") or y.k in ("elem",) for y in q.walk(x)) for x in c.a) and c.a[0] is not c.a[1]:
        t = ("1" in e[1:]) == (e[0] == "in")
        return t == (c.d == "Ne")
    return False


def elem_(n):
    """components of zipped, mapped and enumerated collections"""
    if n.k == "sel" and n.d == "!" and n.a[0].k == "call" and q.tail(n.a[0].d) == "next" and len(n.a[0].a) == 1:
        return elem_(n.a[0].a[0])
    if n.k == "sel" and n.d in ("0", "1"):
        b = elem_(n.a[0])
        if b.k == "elem" and len(b.a) == 2 and b.a[1] is STAR and b.a[0].k == "call":
            s, x = q.tail(b.a[0].d), b.a[0].a
            if s == "zip" and len(x) == 2:
                return elem_(E.elem(x[int(n.d)], STAR))
            if s == "enumerate" and n.d == "1":
                return elem_(E.elem(x[0], STAR))
            if s == "filter":
                return elem_(E.select(elem_(E.elem(x[0], STAR)), n.d))
            if s == "map":
                return elem_(E.select(x[1], n.d))
        if b is not n.a[0]:
            return E.select(b, n.d)
    if n.k == "elem" and len(n.a) == 2 and n.a[1] is STAR and n.a[0].k == "call" and q.tail(n.a[0].d) == "map" and len(n.a[0].a) == 2:
        return elem_(n.a[0].a[1])
    return n


def src(n):
    """the collections walked, side by side"""
    r = roots(n)
    ex = "≠" if "≠" in r else ""
    return "{" + ",".join(sorted(f"<{x}>" for x in r - {"≠"})) + "}" + ex


def roots(n):
    if n.k == "call":
        s = q.tail(n.d)
        if s == "zip":
            return roots(n.a[0]) | roots(n.a[1])
        if s in ("enumerate", "iter", "map", "into_iter", "cloned"):
            return roots(n.a[0])
        if s == "filter" and len(n.a) == 2:
            c, t = n.a[1], True
            while c.k == "op" and c.d == "Not":
                c, t = c.a[0], not t
            if differs(c, ("in", "1") if t else ("notin", "1")):
                return roots(n.a[0]) | {"≠"}
    return {E.show(n, 6)}
