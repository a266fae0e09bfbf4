"""Loads the MIR facts the `mirfacts` driver wrote and indexes them: functions by hash, impls, ADTs,
control flow (successors, dominators, loops, control dependence)."""
import glob, json, os, re

SKIP_BINS = {"stub_gen.bin.json"}


def _segments(path):
    """split a rustc path on '::' at depth 0 of <>, () and []"""
    out, cur, d, i = [], "", 0, 0
    while i < len(path):
        ch = path[i]
        if ch == "-" and path[i:i + 2] == "->":
            cur += "->"
            i += 2
            continue
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if d == 0 and path[i:i + 2] == "::":
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    out.append(cur)
    return out


def last_ident(ty):
    """`std::option::Option<T>` -> Option; `&mut a::B<C>` -> B"""
    ty = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", "", ty.strip())
    ty = re.sub(r"^dyn\s+", "dyn ", ty)
    dyn = ty.startswith("dyn ")
    if dyn:
        ty = ty[4:]
    if ty.startswith("["):
        return "slice"
    segs = [s for s in _segments(ty) if not s.startswith("<")]
    if not segs:
        return ty
    s = re.sub(r"<.*$", "", segs[-1])
    return s.strip()


_short = {}


def short_path(path):
    """Type::method / module::function for a non-trait path."""
    r = _short.get(path)
    if r is not None:
        return r
    segs = _segments(path)
    res = []
    for s in segs:
        if s.startswith("<impl "):
            inner = s[6:-1]
            if " for " in inner:
                inner = inner.split(" for ", 1)[1]
            res.append(last_ident(inner))
        elif s.startswith("<"):
            inner = s[1:-1]
            if " as " in inner:
                inner = inner.split(" as ", 1)[0]
                res.append(last_ident(inner))
            elif not res:
                res.append(last_ident(inner))
            # else generic args `Foo::<T>`: dropped
        else:
            res.append(re.sub(r"<.*$", "", s))
    r = "::".join(res[-2:])
    _short[path] = r
    return r


def callee_name(fn):
    """canonical short name of a callee"""
    n = fn.get("_n")
    if n is None:
        if fn.get("trait"):
            n = last_ident(fn["trait"]) + "::" + (fn.get("name") or _segments(fn["path"])[-1])
        else:
            n = short_path(fn["path"])
        fn["_n"] = n
    return n


class Fn:
    __slots__ = ("j", "h", "path", "crate", "kind", "name", "short", "cfg", "span", "argc", "locals", "blocks",
                 "selfh", "trait", "file", "_types")

    def __init__(self, j, crate):
        self.j, self.crate = j, crate
        self.h, self.path, self.kind, self.span = j["h"], j["path"], j["kind"], j["span"]
        self.name = j.get("name") or ""
        self.argc, self.locals, self.blocks = j["argc"], j["locals"], j["blocks"]
        self.selfh = j.get("selfh")
        self.trait = last_ident(j["trait"]) if j.get("trait") else None
        self.short = short_path(j["path"])
        self.file = self.span.rsplit(":", 1)[0]
        self.cfg = None

    def __repr__(self):
        return f"<Fn {self.crate}::{self.path}>"

    def generated(self):
        return "::_::" in self.path or self.path.split("::")[-1] == "_"

    def graph(self):
        if self.cfg is None:
            self.cfg = Cfg(self.blocks)
        return self.cfg


class Cfg:
    """normal-flow control flow graph (unwind edges and cleanup blocks left out)"""

    def __init__(self, blocks):
        n = len(blocks)
        self.n = n
        dead = {i for i, b in enumerate(blocks) if b["t"]["k"] == "unreachable"}
        self.succ = [[x for x in dict.fromkeys(b["t"]["t"]) if x not in dead or len(b["t"]["t"]) == 1] if not b["c"] else [] for b in blocks]
        # rpo
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.num = {b: i for i, b in enumerate(order)}
        self.pred = [[] for _ in range(n)]
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators (as bitsets)
        full = 0
        for b in order:
            full |= 1 << b
        dom = {b: full for b in order}
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = full
                for p in self.pred[b]:
                    d &= dom[p]
                d |= 1 << b
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom[b] >> s & 1:
                    body = self.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(self.pred[x])
        # post dominators; every block with no successor exits
        self.exits = [b for b in order if not self.succ[b]]
        pd = {b: full for b in order}
        for e in self.exits:
            pd[e] = 1 << e
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if not self.succ[b]:
                    continue
                d = full
                for s in self.succ[b]:
                    d &= pd[s]
                d |= 1 << b
                if d != pd[b]:
                    pd[b] = d
                    ch = True
        self.pdom = pd
        # control dependence: block -> [(branch block, successor)]
        self.cdep = {b: [] for b in order}
        for a in order:
            if len(self.succ[a]) < 2:
                continue
            for s in self.succ[a]:
                # blocks postdominating s but not strictly postdominating a
                m = pd[s] & ~(pd[a] & ~(1 << a))
                for b in order:
                    if m >> b & 1:
                        self.cdep[b].append((a, s))
        self._tc = {}
        self._dnf = {}
        self._reach = {}
        self._between = {}

    MAXDNF = 24

    def dnf(self, b):
        """condition under which b is reached: a disjunction of sets of (branch block, successor); {} is never, {{}} always.
        Least solution: a loop's dependence on its own test is absorbed"""
        if self._dnf:
            return self._dnf[b]
        D = {x: frozenset([frozenset()]) if self.postdominates(x, 0) else frozenset() for x in self.rpo}
        for _ in range(12):
            ch = False
            for x in self.rpo:
                if self.postdominates(x, 0) or len(self.cdep[x]) == 0:
                    continue
                out = set(D[x])
                for a, s in self.cdep[x]:
                    for t in D[a]:
                        if not any(e[0] == a and e[1] != s for e in t):
                            out.add(t | {(a, s)})
                r = self.simplify(out)
                if r != D[x]:
                    D[x] = r
                    ch = True
            if not ch:
                break
        self._dnf = {x: d or frozenset([frozenset()]) for x, d in D.items()}
        return self._dnf[b]

    def idom(self, b):
        best = None
        m = self.dom[b] & ~(1 << b)
        for x in self.rpo:
            if m >> x & 1 and (best is None or self.dom[best] & ~self.dom[x] == 0):
                best = x
        return best

    def reaches(self, b):
        """blocks from which b can be reached"""
        r = self._reach.get(b)
        if r is None:
            r = {b}
            wl = [b]
            while wl:
                for p in self.pred[wl.pop()]:
                    if p not in r:
                        r.add(p)
                        wl.append(p)
            self._reach[b] = r
        return r

    def between(self, d, b):
        """for the blocks dominated by d, the condition under which they are reached from d, given that b is reached"""
        D = self._between.get((d, b))
        if D is not None:
            return D
        to = self.reaches(b)
        inside = [x for x in self.rpo if self.dominates(d, x) and x in to]
        D = {x: frozenset([frozenset()]) if self.postdominates(x, d) else frozenset() for x in inside}
        cd = {x: [(a, s) for a, s in self.cdep[x] if a in D] for x in inside}
        for _ in range(12):
            ch = False
            for x in inside:
                if self.postdominates(x, d) or not cd[x]:
                    continue
                out = set(D[x])
                for a, s in cd[x]:
                    free = all(o == s or o not in to for o in self.succ[a])
                    for t in D[a]:
                        if free:
                            out.add(t)
                        elif not any(e[0] == a and e[1] != s for e in t):
                            out.add(t | {(a, s)})
                r = self.simplify(out)
                if r != D[x]:
                    D[x] = r
                    ch = True
            if not ch:
                break
        D = {x: v or frozenset([frozenset()]) for x, v in D.items()}
        self._between[(d, b)] = D
        return D

    def simplify(self, terms):
        terms = set(terms)
        ch = True
        while ch:
            ch = False
            terms = {t for t in terms if not any(u < t for u in terms)}
            for t in list(terms):
                for a, s in t:
                    rest = t - {(a, s)}
                    if all((rest | {(a, x)}) in terms for x in self.succ[a]):
                        terms -= {rest | {(a, x)} for x in self.succ[a]}
                        terms.add(rest)
                        ch = True
                        break
                if ch:
                    break
        if len(terms) > self.MAXDNF:
            terms = {frozenset.intersection(*terms)}
        return frozenset(terms)

    def tcdep(self, b):
        """transitive control dependences of block b: set of (branch block, successor)"""
        r = self._tc.get(b)
        if r is None:
            r = set()
            wl = list(self.cdep[b])
            while wl:
                e = wl.pop()
                if e in r:
                    continue
                r.add(e)
                wl.extend(self.cdep[e[0]])
            self._tc[b] = r
        return r

    def dominates(self, a, b):
        return b in self.dom and bool(self.dom[b] >> a & 1)

    def postdominates(self, a, b):
        return b in self.pdom and bool(self.pdom[b] >> a & 1)


class Program:
    def __init__(self, facts_dir):
        self.fns, self.by_path, self.impls, self.adts, self.traits = {}, {}, [], {}, {}
        self.crates = []
        for f in sorted(glob.glob(os.path.join(facts_dir, "*.json"))):
            if os.path.basename(f) in SKIP_BINS:
                continue
            with open(f) as fh:
                d = json.load(fh)
            cr = d["crate"]
            self.crates.append(cr)
            for j in d["fns"]:
                fn = Fn(j, cr)
                self.fns[fn.h] = fn
                self.by_path.setdefault((cr, fn.path), fn)
            for im in d["impls"]:
                im["crate"] = cr
                self.impls.append(im)
            for a in d["adts"]:
                a["crate"] = cr
                self.adts[(cr, a["path"])] = a
            for t in d["traits"]:
                self.traits[(cr, t["path"])] = t
        self.closures_of = {}
        for fn in self.fns.values():
            if fn.kind == "Closure":
                self.closures_of.setdefault(fn.j["rooth"], []).append(fn)
        # trait method hash -> impl fns ; default body if any
        self.impl_methods = {}
        for fn in self.fns.values():
            t = fn.j.get("traitmh")
            if t:
                self.impl_methods.setdefault(t, []).append(fn)

    def find(self, crate=None, short=None, name=None, trait=None, selfty=None, path=None, kind=None):
        out = []
        for fn in self.fns.values():
            if crate and fn.crate != crate:
                continue
            if name is not None and fn.name != name:
                continue
            if short is not None and fn.short != short:
                continue
            if trait is not None and (fn.trait or "") != trait:
                continue
            if selfty is not None and (fn.selfh is None or last_ident(fn.selfh) != selfty):
                continue
            if path is not None and fn.path != path:
                continue
            if kind is not None and fn.kind != kind:
                continue
            out.append(fn)
        return out

    def adt(self, name, crate=None):
        r = [a for (c, p), a in self.adts.items() if last_ident(p) == name and "::_::" not in p and (crate is None or c == crate)]
        return r

    def body(self, callee):
        """the function a resolved callee runs, if it is in the workspace"""
        fn = self.fns.get(callee["h"])
        return fn

    def closures_deep(self, fn):
        return self.closures_of.get(fn.h, [])


def calls(fn, cleanup=False):
    """(block index, terminator, callee json or None) of every call in a function"""
    for i, b in enumerate(fn.blocks):
        if b["c"] and not cleanup:
            continue
        t = b["t"]
        if t["k"] == "call":
            f = t["f"]
            yield i, t, (f["fn"] if f["k"] == "fn" else None)
