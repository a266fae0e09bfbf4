"""Conservative call graph over the MIR facts: direct calls, every implementation of an unresolved trait method,
closures built in a body and function items it mentions."""
from vp.facts import calls


def mentioned(o, out):
    """hashes of functions and closures appearing in a MIR json fragment"""
    if isinstance(o, dict):
        for k in ("h", "oh"):
            v = o.get(k)
            if isinstance(v, str):
                out.add(v)
        for v in o.values():
            if isinstance(v, (dict, list)):
                mentioned(v, out)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                mentioned(v, out)


class Graph:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def succ(self, f):
        if f.h in self.memo:
            return self.memo[f.h]
        hs = set()
        for b in f.blocks:
            if b["c"]:
                continue
            mentioned(b["st"], hs)
            mentioned(b["t"], hs)
        out = set()
        for h in hs:
            if h in self.prog.fns:
                out.add(h)
            for g in self.prog.impl_methods.get(h, ()):
                out.add(g.h)
        for g in self.prog.closures_of.get(f.h, ()):
            out.add(g.h)
        out.discard(f.h)
        self.memo[f.h] = out
        return out

    def reach(self, roots, through=lambda f: True):
        """functions reachable from the roots -> {hash: hash of the caller it was first reached from}"""
        seen, wl = {r.h: None for r in roots}, [r.h for r in roots]
        while wl:
            h = wl.pop()
            f = self.prog.fns[h]
            if not through(f):
                continue
            for s in self.succ(f):
                if s not in seen:
                    seen[s] = h
                    wl.append(s)
        return seen

    def path(self, seen, h):
        p = []
        while h is not None:
            p.append(self.prog.fns[h].short)
            h = seen[h]
        return " <- ".join(p)


def sites(prog, seen):
    """every call site of the reachable functions"""
    for h in seen:
        f = prog.fns[h]
        for bi, t, c in calls(f):
            yield f, bi, t, c
