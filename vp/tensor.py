"""Symbolic tensors over value graphs: each array value is read as `labels of its axes` + a polynomial in labelled atoms, with
ndarray's broadcasting rules. Reductions over an axis become sums over its label; element-by-element buffers and
accumulators are read through their loops. Anything else raises Bad: the caller decides what that means."""
from . import engine as E
from . import q
from .engine import const_of, ALL, STAR


class Bad(Exception):
    pass


def ppow(p, k):
    r = {(): 1}
    for _ in range(k):
        r = pmul(r, p)
    return r


def padd(a, b, s=1):
    return q.padd(a, b, s)


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for x, e in m1 + m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted((x, e) for x, e in d.items() if e))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def atom(s):
    return {((s, 1),): 1}


def show(p):
    return " + ".join(("" if c == 1 and m else f"{c}") + "·".join(x + (f"^{e}" if e != 1 else "") for x, e in m) for m, c in sorted(p.items())) or "0"


class T:
    def __init__(self, labels, p):
        self.labels, self.p = tuple(labels), p

    def __repr__(self):
        return f"[{','.join(self.labels)}] {show(self.p)}"


def merge(a, b):
    """ndarray broadcasting on labels"""
    n = max(len(a), len(b))
    a, b = ("",) * (n - len(a)) + tuple(a), ("",) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y or y in ("", "1") or (y == "?" and x not in ("", "1")):
            out.append(x or y)
        elif x in ("", "1", "?"):
            out.append(y)
        else:
            raise Bad(f"operands with axes [{','.join(a)}] and [{','.join(b)}] are combined element by element")
    return tuple(out)


ZERO = {"zeros", "new", "with_capacity", "default", "uninit", "from_elem", "ones"}


def reaches(x, n, stop=()):
    """x depends on loop value n, through other loops too"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y is n:
            return True
        if y in seen or y in stop:
            continue
        seen.add(y)
        todo += y.a
        if y.k == "mu":
            todo += E.MU.get(y, ())
    return False


UNARY = {"exp", "sqrt", "abs", "ln", "log10", "tanh", "sin", "cos", "erf", "erfc", "norm_cdf", "norm_pdf", "cdf", "pdf"}


class Tensors:
    def __init__(self, eng, leaf, dims=None):
        self.eng, self.leaf, self.dims = eng, leaf, dims or (lambda n: None)
        self.memo, self.bind, self.sums = {}, {}, {}
        self.key = q.Keyer()

    def sum(self, label, p):
        """Σ_label p"""
        if not p:
            return {}
        s = f"Σ{label}{{{show(p)}}}"
        self.sums[s] = p
        return atom(s)

    def split(self, p):
        """p = rest + Σ inner"""
        rest, inner = {}, {}
        for m, c in p.items():
            ss = [(x, e) for x, e in m if x in self.sums]
            if len(ss) == 1 and ss[0][1] == 1:
                inner = padd(inner, pmul({tuple(t for t in m if t not in ss): c}, self.sums[ss[0][0]]))
            elif ss:
                raise Bad(f"product of sums {show({m: c})}")
            else:
                rest = padd(rest, {m: c})
        return rest, inner

    def ev(self, n):
        r = self.bind.get(n) or self.memo.get(n)
        if r is None:
            r = self._ev(n)
            if not self.bind:
                self.memo[n] = r
        return r

    def axis(self, n):
        c = const_of(n.a[0]) if n.k == "agg" and n.a else const_of(n)
        if not isinstance(c, int):
            raise Bad(f"axis {E.show(n)}")
        return c

    def dim(self, n):
        """label of the axis whose length n is"""
        d = self.dims(n)
        if d:
            return d
        if const_of(n) == 1:
            return "1"
        if n.k == "call" and q.tail(n.d) in ("nrows", "len", "ncols", "len_of"):
            try:
                t = self.ev(n.a[0])
            except Bad:
                return "?"
            i = {"nrows": 0, "len": 0, "ncols": 1}.get(q.tail(n.d))
            if i is None:
                i = self.axis(n.a[1])
            return t.labels[i] if i < len(t.labels) else "?"
        if n.k == "sel" or n.k == "elem":
            b = n.a[0]
            i = n.d if n.k == "sel" else const_of(n.a[1])
            if b.k == "call" and q.tail(b.d) in ("dim", "shape", "raw_dim") and str(i).isdigit():
                try:
                    t = self.ev(b.a[0])
                    return t.labels[int(i)]
                except (Bad, IndexError):
                    return "?"
        return "?"

    def shape(self, n):
        if n.k == "agg" and n.d[0] in ("tuple", "array"):
            return tuple(self.dim(x) for x in n.a)
        if n.k == "call" and q.tail(n.d) in ("raw_dim", "dim"):
            return self.ev(n.a[0]).labels
        return (self.dim(n),)

    def src(self, s):
        """label an iteration runs over"""
        while s.k == "call" and s.d in ("enumerate", "zip", "map"):
            if s.d == "zip":
                a = self.src(s.a[0])
                b = self.src(s.a[1])
                if a != b and "?" not in (a, b):
                    raise Bad(f"axes {a} and {b} are iterated together")
                return a if a != "?" else b
            s = s.a[0]
        if s.k == "call" and s.d in ("filter", "part"):
            raise Bad("a filtered or partial iteration")
        if s.k == "call" and s.d == "cols":
            return self.ev(s.a[0]).labels[1]
        if s.k == "call" and s.d == "range":
            return self.dim(s.a[1]) if E.is_num(s.a[0], 0) else "?"
        if s.k == "agg" and q.last(s.d[0]) == "Range":
            if not E.is_num(s.a[0], 0):
                raise Bad("an iteration that does not start at 0")
            return self.dim(s.a[1])
        try:
            t = self.ev(s)
        except Bad:
            return "?"
        return t.labels[0] if t.labels else "?"

    def loop(self, m):
        ss = E.LOOPS.get(m.d[:2]) or (E.LOOPS.get(m.d[0]) if m.d[1] == "clo" else None) or ()
        ls = {self.src(s) for s in ss} - {"?"}
        if len(ls) > 1:
            raise Bad(f"axes {sorted(ls)} are iterated together")
        return ls.pop() if ls else "?"

    def indexed(self, t, idx, n):
        """drop the axes of t selected by idx"""
        keep, dropped = [], []
        for i, x in enumerate(idx):
            if i >= len(t.labels):
                if x is ALL:
                    continue
                if t.labels and t.labels[0] == "?":
                    continue
                raise Bad(f"too many indices in {E.show(n, 4)}")
            lab = t.labels[i]
            if x is ALL:
                keep.append(lab)
                continue
            c = const_of(x)
            if c is not None:
                if c == 0 and lab in ("1", "?"):
                    continue
                raise Bad(f"axis {lab} read at the fixed position {c} in {E.show(n, 4)}")
            want = "?"
            if x.k == "call" and x.d == "index":
                want = self.src(x.a[0])
            elif q.is_range(x):
                want = self.src(x)
            elif x is not STAR:
                raise Bad(f"position {E.show(x, 4)} on axis {lab}")
            if want not in ("?", lab) and lab != "?":
                raise Bad(f"axis {lab} is read at a position of axis {want} in {E.show(n, 4)}")
            dropped.append(lab)
        return T(tuple(keep) + t.labels[len(idx):], t.p), dropped

    def accumulate(self, me, init, p, label):
        """value of an accumulator that starts at init and becomes p (in terms of atom me) at each step of a loop over label"""
        if any(x == me for m in p for x, _ in m):
            t = padd(p, atom(me), -1)
            if any(x == me for m in t for x, _ in m):
                raise Bad(f"accumulation {show(p)}")
            return padd(init, self.sum(label, t))
        return p

    def _ev(self, n):
        r = self.leaf(n)
        if r is not None:
            return r
        k = n.k
        if k == "const" and n.d[1] == "num":
            return T((), {(): n.d[0]} if n.d[0] else {})
        if k == "op":
            if n.d in ("Add", "Sub", "Mul", "Div"):
                a, b = self.ev(n.a[0]), self.ev(n.a[1])
                lab = merge(a.labels, b.labels)
                if n.d == "Mul":
                    return T(lab, pmul(a.p, b.p))
                if n.d == "Div":
                    if len(b.p) != 1:
                        raise Bad(f"division by {show(b.p)}")
                    (m, c), = b.p.items()
                    return T(lab, pmul(a.p, {tuple((x, -e) for x, e in m): 1 / c}))
                return T(lab, padd(a.p, b.p, 1 if n.d == "Add" else -1))
            if n.d == "Neg":
                a = self.ev(n.a[0])
                return T(a.labels, {m: -c for m, c in a.p.items()})
            if n.d in ("powi", "powf"):
                c = const_of(n.a[1])
                if c is not None and float(c).is_integer() and 0 <= c < 9:
                    a = self.ev(n.a[0])
                    return T(a.labels, ppow(a.p, int(c)))
            if n.d in UNARY:
                a = self.ev(n.a[0])
                return T(a.labels, atom(f"{n.d}({show(a.p)})"))
            raise Bad(f"operation {E.show(n, 3)}")
        if k == "phi":
            rs = [self.ev(v) for v in n.a]
            if any(x.p != rs[0].p or x.labels != rs[0].labels for x in rs):
                raise Bad(f"different formulas on different paths: {' / '.join(str(x) for x in rs[:3])}")
            return rs[0]
        if k == "elem":
            return self.indexed(self.ev(n.a[0]), n.a[1:], n)[0]
        if k == "agg" and n.d[0] == "array" and len(n.a) == 1:
            t = self.ev(n.a[0])
            return T(("1",) + t.labels, t.p)
        if k == "wr":
            b, v = self.ev(n.a[0]), self.ev(n.a[1])
            rest, dropped = self.indexed(b, n.a[2:], n)
            if merge(rest.labels, v.labels) != rest.labels and "?" not in rest.labels:
                raise Bad(f"values with axes [{','.join(v.labels)}] are stored in a buffer with axes [{','.join(rest.labels)}]")
            labs = list(b.labels)
            return T(labs, v.p)
        if k == "mu":
            return self._mu(n)
        if k == "sel":
            b = n.a[0]
            if b.k == "call" and b.d == "fold":
                return self._fold(b, n.d)
            if b.k == "mu":
                return self._mu(b, n.d)
        if k == "call":
            s = q.tail(n.d)
            if s == "fold":
                return self._fold(n, None)
            if n.d == "map":
                r = self.ev(n.a[-1])
                return T((self.src(n.a[0]),) + r.labels, r.p)
            if n.d == "enumerate":
                return self.ev(n.a[0])
            if s in ("zeros", "ones", "from_elem", "default", "uninit"):
                if not n.a:
                    return T(("?",), {})
                p = {} if s in ("zeros", "default", "uninit") else {(): 1} if s == "ones" else self.ev(n.a[1]).p
                return T(self.shape(n.a[0]), p)
            if s in ("new", "with_capacity") and n.d.startswith("Vec"):
                return T(("?",), {})
            if s == "insert_axis":
                t, i = self.ev(n.a[0]), self.axis(n.a[1])
                return T(t.labels[:i] + ("1",) + t.labels[i:], t.p)
            if s in ("remove_axis", "index_axis"):
                t, i = self.ev(n.a[0]), self.axis(n.a[1])
                if t.labels[i] not in ("1", "?"):
                    raise Bad(f"axis {t.labels[i]} is dropped")
                return T(t.labels[:i] + t.labels[i + 1:], t.p)
            if s == "sum_axis":
                t, i = self.ev(n.a[0]), self.axis(n.a[1])
                if i >= len(t.labels):
                    raise Bad("sum over a missing axis")
                return T(t.labels[:i] + t.labels[i + 1:], self.sum(t.labels[i], t.p))
            if s == "sum":
                t = self.ev(n.a[0])
                if len(t.labels) == 1:
                    return T((), self.sum(t.labels[0], t.p))
            if s in ("t", "reversed_axes"):
                t = self.ev(n.a[0])
                return T(tuple(reversed(t.labels)), t.p)
            if s == "dot" and len(n.a) == 2:
                a, b = self.ev(n.a[0]), self.ev(n.a[1])
                if a.labels and b.labels and a.labels[-1] == b.labels[0]:
                    return T(a.labels[:-1] + b.labels[1:], self.sum(b.labels[0], pmul(a.p, b.p)))
                raise Bad(f"matrix product of axes [{','.join(a.labels)}] and [{','.join(b.labels)}]")
        raise Bad(f"cannot interpret {E.show(n, 4)}")

    def _mu(self, n, f=None):
        key = n if f is None else E.select(n, f)
        ops = [E.select(x, f) if f is not None else x for x in E.MU.get(n, ())]
        ops = [x for x in ops if x is not key]
        if len(ops) < 2:
            raise Bad(f"loop value {E.show(n)}")
        me = f"µ{n.i}" + (f or "")
        inits = [x for x in ops if not reaches(x, n, self.bind)]
        bodies = [x for x in ops if reaches(x, n, self.bind)]
        if not bodies and len(inits) == 2:
            z = [x for x in inits if x.k == "call" and q.tail(x.d) in ZERO or x.k in ("const", "mu")]
            bodies = [x for x in inits if x not in z[:1]]
            inits = z[:1]
        if len(inits) != 1:
            raise Bad(f"loop value {E.show(n)} with {len(inits)} starts")
        init = self.ev(inits[0])
        if len(bodies) != 1:
            raise Bad(f"loop value {E.show(n)} with {len(bodies)} updates")
        body = bodies[0]
        old = self.bind.get(key)
        self.bind[key] = T(init.labels, atom(me))
        try:
            lab = self.loop(n)
            if body.k == "wr" and body.a[0] is key:
                rest, dropped = self.indexed(init, body.a[2:], body)
                v = self.ev(body.a[1])
                if lab in dropped or any(x is STAR or (x.k == "call" and x.d == "index") for x in body.a[2:]) and (lab == "?" or lab in dropped):
                    merge(rest.labels, v.labels)
                    if len(v.labels) > len(rest.labels):
                        raise Bad(f"values with axes [{','.join(v.labels)}] are stored in cells with axes [{','.join(rest.labels)}]")
                    if lab != "?" and "?" not in dropped and lab not in dropped:
                        raise Bad(f"cells along {dropped} are filled while {lab} is iterated")
                    p = v.p
                    if any(x == me for m in p for x, _ in m):
                        t = padd(p, atom(me), -1)
                        if any(x == me for m in t for x, _ in m):
                            raise Bad(f"update {show(p)}")
                        p = padd(init.p, t)
                    return T(init.labels, p)
                return T(init.labels, self.accumulate(me, init.p, v.p, lab))
            if body.k == "eff" and q.tail(body.d[0]) == "push" and body.a[0] is key:
                t = self.ev(body.a[1])
                return T((lab,) + t.labels, t.p)
            t = self.ev(body)
            return T(merge(init.labels, t.labels), self.accumulate(me, init.p, t.p, lab))
        finally:
            if old is None:
                self.bind.pop(key, None)
            else:
                self.bind[key] = old

    def _fold(self, n, f):
        acc, init, r = n.a[0], n.a[-2], n.a[-1]
        if f is not None:
            acc, init, r = E.select(acc, f), E.select(init, f), E.select(r, f)
        ti = self.ev(init)
        lab = self.src(n.a[1])
        me = f"µ{acc.i}"
        self.bind[acc] = T(ti.labels, atom(me))
        try:
            t = self.ev(r)
            return T(merge(ti.labels, t.labels), self.accumulate(me, ti.p, t.p, lab))
        finally:
            self.bind.pop(acc, None)
