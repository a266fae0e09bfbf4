"""Queries over the value graph."""
from . import engine as E
from .engine import select, elem, num, const_of, show, STAR, ALL


def expand(n, eng, seen):
    """a node whose base is loop-carried, resolved into the loop's incoming values; None if it is not one"""
    if n.k == "mu":
        return list(eng.mu_ops.get(n, ()))
    if n.k in ("sel", "elem") and n.a[0].k in ("mu", "sel", "elem", "phi"):
        key = (n, "x")
        if key in seen:
            return None
        seen.add(key)
        b = expand(n.a[0], eng, seen)
        if b is None:
            return None
        out = []
        for x in b:
            if x is n.a[0]:
                continue
            out.append(select(x, n.d) if n.k == "sel" else elem(x, *n.a[1:]))
        return out
    return None


def walk(n, eng=None, cut=None, control=False, roots=None):
    """every node the value n is computed from (data dependences), not going below nodes where cut(node) is true"""
    seen = set()
    st = list(n) if isinstance(n, (list, tuple, set)) else [n]
    out = []
    xs = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if cut and cut(x):
            continue
        if eng is not None and x.k in ("mu", "sel", "elem"):
            e = expand(x, eng, xs)
            if e is not None:
                st.extend(e)
                if x.k == "elem":
                    st.extend(x.a[1:])
                continue
        st.extend(x.a)
        if control and x.k == "phi":
            for g in x.d:
                for alt in g:
                    st.extend(c for c, _ in alt)
    return out


def uses(n, pred, eng=None, cut=None, control=False):
    return [x for x in walk(n, eng, cut, control) if pred(x)]


def params(n, eng=None, cut=None, control=False):
    return {x.d for x in walk(n, eng, cut, control) if x.k == "param" and not x.d.startswith(("[", "*"))}


def paths(n, eng=None, cut=None, control=False):
    """access paths of parameters the value is computed from: {'a0.config.n_start', ...}; longest only"""
    out = set()

    def ap(x):
        if x.k == "param":
            return x.d
        if x.k == "sel":
            b = ap(x.a[0])
            return None if b is None else b + "." + x.d
        return None

    def c2(x):
        if cut and cut(x):
            return True
        return x.k == "sel" and ap(x) is not None

    for x in walk(n, eng, c2, control):
        if x.k in ("sel", "param"):
            if cut and cut(x):
                continue
            p = ap(x)
            if p and not p.startswith(("[", "*")):
                out.add(p)
    return out


def names(n, eng=None, cut=None):
    return {x.d for x in walk(n, eng, cut) if x.k == "call"} | {x.d[0] for x in walk(n, eng, cut) if x.k == "eff"}


def alts(n):
    """alternatives of a join: [(guards, value)]"""
    if n.k == "phi":
        out = []
        for g, v in zip(n.d, n.a):
            for g2, w in alts(v):
                out.append((g, w))
        return out
    return [(E.NOG, n)]


def subst(n, m, memo=None):
    """replace nodes (dict node->node) everywhere"""
    memo = {} if memo is None else memo
    r = m.get(n) or memo.get(n)
    if r is not None:
        return r
    if not n.a:
        return n
    memo[n] = n
    a = [subst(x, m, memo) for x in n.a]
    r = n if all(x is y for x, y in zip(a, n.a)) else E.rebuild(n, a)
    memo[n] = r
    return r


# ------------------------------------------------------------ polynomial normal form
def poly(n, atom=None, memo=None):
    """{monomial (sorted tuple of (atom, exponent)): coefficient}; Add/Sub/Mul/Neg/Div-by-monomial/powi are interpreted,
    everything else is an atom (after atom(node) rewriting)"""
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    if atom:
        r = atom(n)
        if r is not None and r is not n:
            p = poly(r, atom, memo)
            memo[n] = p
            return p
    p = None
    if n.k == "const" and n.d[1] == "num":
        p = {(): n.d[0]} if n.d[0] != 0 else {}
    elif n.k == "op":
        o = n.d
        if o in ("Add", "Sub", "Mul"):
            a, b = poly(n.a[0], atom, memo), poly(n.a[1], atom, memo)
            if o == "Add":
                p = padd(a, b)
            elif o == "Sub":
                p = padd(a, b, -1)
            else:
                p = pmul(a, b)
        elif o == "Neg":
            p = {m: -c for m, c in poly(n.a[0], atom, memo).items()}
        elif o == "Div":
            a, b = poly(n.a[0], atom, memo), poly(n.a[1], atom, memo)
            if len(b) == 1:
                (m, c), = b.items()
                if c != 0:
                    p = pmul(a, {tuple((x, -e) for x, e in m): 1 / c if not isinstance(c, int) or 1 % c else 1 // c})
        elif o == "powi" or o == "powf":
            k = const_of(n.a[1])
            if isinstance(k, (int, float)) and float(k).is_integer() and 0 <= k <= 6:
                a = poly(n.a[0], atom, memo)
                p = {(): 1}
                for _ in range(int(k)):
                    p = pmul(p, a)
        elif o == "recip":
            a = poly(n.a[0], atom, memo)
            if len(a) == 1:
                (m, c), = a.items()
                p = {tuple((x, -e) for x, e in m): 1 / c}
    if p is None:
        p = {((canon(n, atom, memo), 1),): 1}
    memo[n] = p
    return p


def canon(n, atom=None, memo=None):
    """atom with its own arguments put in normal form where they are arithmetic"""
    return n


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for x, e in m1 + m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda t: t[0].i))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def pshow(p):
    return " + ".join(f"{c}" + "".join(f"·{show(x, 5)}" + (f"^{e}" if e != 1 else "") for x, e in m) for m, c in p.items()) or "0"


# ------------------------------------------------------------ contents of containers
PERM = {"shuffle", "swap", "reverse", "sort", "sort_unstable", "sort_by", "sort_unstable_by", "rotate_left", "rotate_right", "invert_axis"}
ADD = {"push", "extend", "insert", "append", "push_back", "extend_from_slice", "push_row", "push_column"}
TAKE = {"swap_remove", "remove", "pop", "to_shape", "select", "index_axis", "insert_axis", "remove_axis", "into_shape_with_order", "reversed_axes", "t",
        "from_shape_vec", "from_shape_fn", "first", "last", "get", "next", "slice_axis", "broadcast", "choose", "into_shape", "part"}


def tail(d):
    return d.split("::")[-1]


def contents(n, eng):
    """values an array / vector may hold, the permutations applied on the way, and the writes: (values, perms, writes, inits)"""
    vals, perms, writes, inits = [], [], [], []
    seen = set()
    xs = set()

    def container(x):
        return x.k in ("mu", "wr", "eff", "phi") or (x.k in ("elem", "sel") and container(x.a[0])) or \
            (x.k == "call" and tail(x.d) in TAKE | {"from_elem", "zeros", "with_capacity", "map"}) or (x.k == "agg" and x.d[0] == "array")

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == "mu":
            for y in eng.mu_ops.get(x, ()):
                go(y)
            return
        if x.k == "phi":
            for y in x.a:
                go(y)
            return
        if x.k == "wr":
            writes.append(x)
            go(x.a[0])
            go(x.a[1])
            return
        if x.k == "eff":
            nm, pos = x.d
            t = tail(nm)
            if t in PERM and pos == 0:
                perms.append(x)
                go(x.a[0])
                return
            if t in ADD and pos == 0:
                go(x.a[0])
                for y in x.a[1:]:
                    go(y)
                return
            if t in TAKE and pos == 0:
                go(x.a[0])
                return
            vals.append(x)
            return
        if x.k in ("elem", "sel") and container(x.a[0]):
            go(x.a[0])
            return
        if x.k == "call":
            t = tail(x.d)
            if t in ("zeros", "with_capacity", "new", "default", "uninit") or x.d == "repeat":
                inits.append(x)
                return
            if t == "from_elem":
                go(x.a[-1])
                return
            if t == "map":
                go(x.a[-1])
                return
            if t == "from_shape_vec":
                go(x.a[-1])
                return
            if t in TAKE and x.a:
                go(x.a[0])
                return
        if x.k == "agg" and x.d[0] == "array":
            for y in x.a:
                go(y)
            return
        vals.append(x)

    go(n)
    return vals, perms, writes, inits


def peq(a, b, atom=None):
    """equal as polynomials"""
    return poly(a, atom) == poly(b, atom)


def is_range(n):
    return n.k == "call" and n.d == "range"


# ------------------------------------------------------------ canonical keys
DIMS = {"nrows", "ncols", "len", "len_of", "dim", "shape", "ndim", "nsamples", "n_clusters"}


class Keyer:
    """canonical text of a value: equal texts mean the same computation. Loops get binder numbers, arithmetic is put in
    polynomial form, `fill a zero buffer element by element` and `map` are the same thing, loop positions are anonymous."""

    def __init__(self, rw=None):
        self.rw = rw
        self.memo = {}
        self.stack = []
        self.open = 0
        self.intern = {}

    def tag(self, s):
        if len(s) < 48:
            return s
        import hashlib
        return "#" + hashlib.md5(s.encode()).hexdigest()[:16]

    def key(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        lo = len(self.stack)
        self.used = getattr(self, "used", None)
        saved, self.used = self.used, set()
        r = self.tag(self._key(n))
        u = {x for x in self.used if x < lo}
        if not u:
            self.memo[n] = r
        self.used = u if saved is None else saved | u
        return r

    def _bind(self, acc, f):
        for i in range(len(self.stack) - 1, -1, -1):
            a, g = self.stack[i]
            if a is acc and g == f:
                self.used.add(i)
                return f"µ{i}"
        return None

    def _fold(self, n, f):
        acc, init, r = n.a[0], n.a[-2], n.a[-1]
        if f is not None:
            init, r = select(init, f), select(r, f)
        self.stack.append((acc, f))
        try:
            return f"fold({self.key(init)};{self.key(r)};{self._srcs(n.a[1])})"
        finally:
            self.stack.pop()

    def _srcs(self, s):
        """what of the source of an iteration matters beyond its elements: filters, partial iterations, ranges"""
        out = []
        while s.k == "call" and s.d in ("map", "enumerate", "filter", "zip", "range", "part", "RangeInclusive::new"):
            if s.d == "filter":
                out.append(self.key(s.a[1]))
            elif s.d == "part":
                out.append(f"{s.a[1].d[0]}:{self.key(s.a[2])}")
            elif s.d == "zip":
                x = self._srcs(s.a[1])
                if x:
                    out.append(x)
            elif s.d == "RangeInclusive::new":
                out.append(f"{self.key(s.a[0])}..={self.key(s.a[1])}")
            s = s.a[0]
        if s.k == "agg" and last(s.d[0]) == "Range":
            r = self.key(E.elemof(s))
            if r != "§":
                out.append(r)
        return ",".join(out)

    def loopsrc(self, m):
        """what the loop of a loop-carried value iterates over, when it is not simply everything"""
        ss = E.LOOPS.get(m.d[:2]) or (E.LOOPS.get(m.d[0]) if m.d[1] == "clo" else None) or ()
        return ",".join(sorted(x for x in (self._srcs(s) for s in ss) if x))

    def idx(self, n):
        if n is STAR:
            return "§"
        if n.k == "call" and n.d == "index":
            return "§"
        if is_range(n) and E.is_num(n.a[0], 0):
            u = n.a[1]
            while u.k in ("elem", "sel"):
                u = u.a[0]
            if u.k == "call" and tail(u.d) in DIMS:
                return "§"
        return None

    def each(self, n):
        """n is `for every position: v`: returns v"""
        if n.k == "call" and n.d == "map":
            return None if self._srcs(n.a[0]) else n.a[-1]
        if n.k == "mu" and not self.loopsrc(n):
            ops = E.MU.get(n, ())
            if len(ops) == 2:
                w = [x for x in ops if x.k == "wr"]
                z = [x for x in ops if x.k == "call" and tail(x.d) in ("zeros", "uninit", "with_capacity", "default", "from_elem") ]
                if len(w) == 1 and len(z) == 1 and w[0].a[0] is n and all(self.idx(i) for i in w[0].a[2:]) and not any(x is n for x in walk(w[0].a[1])):
                    return w[0].a[1]
                p = [x for x in ops if x.k == "eff" and tail(x.d[0]) == "push" and x.d[1] == 0 and x.a[0] is n]
                if len(p) == 1 and z and not any(x is n for x in walk(p[0].a[1])):
                    return p[0].a[1]
        if n.k == "wr" and n.a[0].k == "call" and tail(n.a[0].d) == "zeros" and all(self.idx(i) or i is ALL for i in n.a[2:]):
            return n.a[1]
        return None

    def _key(self, n):
        if self.rw:
            for _ in range(8):
                m = self.rw(n)
                if m is None or m is n:
                    break
                n = m
        b = self._bind(n, None)
        if b:
            return b
        k = n.k
        if k == "sel":
            b = self._bind(n.a[0], n.d)
            if b:
                return b
            if n.a[0].k == "call" and n.a[0].d == "fold":
                return self._fold(n.a[0], n.d)
            return f"{self.key(n.a[0])}.{n.d}"
        i = self.idx(n)
        if i:
            return i
        if k == "elem":
            e = self.each(n.a[0])
            if e is not None and all(self.idx(x) for x in n.a[1:]):
                return self.key(e)
            return f"{self.key(n.a[0])}[{','.join(self.key(x) for x in n.a[1:])}]"
        e = self.each(n)
        if e is not None:
            return f"each({self.key(e)})"
        if k == "call" and n.d == "fold":
            return self._fold(n, None)
        if k == "mu":
            self.stack.append((n, None))
            try:
                return "loop(" + "|".join(sorted(self.key(x) for x in E.MU.get(n, ()) if x is not n)) + ";" + self.loopsrc(n) + ")"
            finally:
                self.stack.pop()
        if k == "op" and n.d in ("Add", "Sub", "Mul", "Neg", "Div", "powi", "recip", "powf"):
            p = poly(n, self.rw)
            if not (len(p) == 1 and list(p.values()) == [1] and len(next(iter(p))) == 1 and next(iter(p))[0][0] is n and next(iter(p))[0][1] == 1):
                return self.pkey(p)
            return f"{n.d}({','.join(self.key(x) for x in n.a)})"
        if k == "op":
            ks = [self.key(x) for x in n.a]
            if n.d in E.COMM:
                ks.sort()
            return f"{n.d}({','.join(ks)})"
        if k == "const":
            v = n.d[0]
            if isinstance(v, float) and v.is_integer():
                v = int(v)
            return f"={v}"
        if k == "phi":
            return "phi(" + "|".join(sorted(self.gkey(g) + "→" + self.key(v) for g, v in zip(n.d, n.a))) + ")"
        if k == "agg" and n.d[0] == "tuple" and len(n.a) == 1:
            return self.key(n.a[0])
        if k == "agg":
            return f"{last(n.d[0])}::{n.d[1]}(" + ",".join(f"{f}:{self.key(x)}" for f, x in zip(n.d[3], n.a)) + ")"
        d = n.d
        if k == "call":
            d = n.d
        return f"{k}:{d}({','.join(self.key(x) for x in n.a)})"

    def gkey(self, g):
        return "&".join(sorted("{" + "+".join(sorted(self.key(c) + str(e) for c, e in alt)) + "}" for alt in g))

    def pkey(self, p):
        t = {}
        for m, c in p.items():
            mm = {}
            for x, e in m:
                kx = self.key(x)
                mm[kx] = mm.get(kx, 0) + e
            key = "*".join(f"{a}^{e}" if e != 1 else a for a, e in sorted(mm.items()) if e)
            t[key] = t.get(key, 0) + c
        return "(" + " + ".join(f"{c}·{m}" for m, c in sorted(t.items()) if c != 0) + ")"


def last(d):
    return E.last_ident(d) if d not in ("tuple", "array") else d


def same(a, b, rw=None):
    k = Keyer(rw)
    return k.key(a) == k.key(b)


# ------------------------------------------------------------ restricting to a case
def assume(n, facts, memo=None):
    """n in the case described by facts {node: constant node}: joins keep the alternatives compatible with it"""
    memo = {} if memo is None else memo
    r = facts.get(n)
    if r is not None:
        return r
    r = memo.get(n)
    if r is not None:
        return r
    memo[n] = n
    if n.k == "phi":
        alts_ = []
        for g, v in zip(n.d, n.a):
            g2 = assume_guard(g, facts, memo)
            if g2:
                alts_.append((g2, assume(v, facts, memo)))
        r = E.phi(alts_)
    elif n.a:
        a = [assume(x, facts, memo) for x in n.a]
        r = n if all(x is y for x, y in zip(a, n.a)) else decide(E.rebuild(n, a))
    else:
        r = n
    memo[n] = r
    return r


def decide(n):
    """the value of a comparison or discriminant of constants"""
    if n.k == "call" and len(n.a) == 2 and tail(n.d) in ("cmp", "partial_cmp", "total_cmp"):
        x, y = (const_of(a) for a in n.a)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            o = num(1 if x > y else 0 if x == y else 255)
            return E.some(o) if tail(n.d) == "partial_cmp" else o
    if n.k == "sel" and n.d == "!" and E.is_num(n.a[0]):
        return n.a[0]
    if n.k == "op" and n.d in ("Eq", "Ne") and any(a.k == "agg" and "Ordering" in str(a.d[0]) for a in n.a):
        o = [{"Less": 255, "Equal": 0, "Greater": 1}.get(a.d[1]) if a.k == "agg" else const_of(a) for a in n.a]
        if None not in o:
            return E.boolc((int(o[0]) % 256 == int(o[1]) % 256) == (n.d == "Eq"))
    if n.k == "discr":
        if n.a[0].k == "agg":
            return num(n.a[0].d[2])
        if E.is_num(n.a[0]):
            return n.a[0]
    return n


def lit(c, e):
    """truth of (condition, edge) when the condition is a constant; None otherwise"""
    v = const_of(c)
    if v is None and c.k == "agg":
        v = c.d[2]
    if v is None or isinstance(v, str):
        return None
    v = str(int(v)) if not isinstance(v, float) or float(v).is_integer() else str(v)
    return (v in e[1:]) == (e[0] == "in")


def assume_guard(g, facts, memo=None):
    out = set()
    for alt in g:
        keep = set()
        ok = True
        for c, e in alt:
            c2 = assume(c, facts, memo)
            t = lit(c2, e)
            if t is False:
                ok = False
                break
            if t is None:
                keep.add((c2, e))
        if ok:
            out.add(frozenset(keep))
    if frozenset() in out:
        return E.NOG
    return frozenset(out)


TRUE, FALSE = E.boolc(True), E.boolc(False)


def pointwise(n):
    """an array whose elements are each rewritten in place once, as the value of an arbitrary element"""
    if n.k != "mu":
        return n
    ops = [x for x in E.MU.get(n, ()) if x is not n]
    if n in E.BACK:
        back = E.phi(list(E.BACK[n]))
        ops = [x for x in ops if all(x is not v for _, v in E.BACK[n])] + [back]
    body = [x for x in ops if x.k in ("wr", "phi") and any(y is n for y in walk(x))]
    init = [x for x in ops if x not in body]
    if len(body) != 1 or len(init) != 1:
        return n
    body, init = body[0], init[0]
    sub = {E.elem(n, STAR): init}

    def cell(v):
        if v is n:
            return init
        if v.k == "wr" and v.a[0] is n and all(x is STAR for x in v.a[2:]):
            return subst(v.a[1], sub)
        return None
    if body.k == "wr":
        return cell(body) or n
    alts = []
    for g, v in zip(body.d, body.a):
        c = cell(v)
        if c is None:
            return n
        alts.append((frozenset(frozenset((subst(x, sub), e) for x, e in alt) for alt in g), c))
    return E.phi(alts)
