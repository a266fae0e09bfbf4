"""C12: a file-system or codec failure comes back as an error value."""
import re
from vp.facts import calls, callee_name, last_ident

ASSUMPTIONS = ["only failures reported as values by the I/O and codec libraries are tracked; memory exhaustion and panics inside these libraries are not",
               "the command line programs (main) and the textual representation of python objects are not saving or loading"]
ERR = re.compile(r"\b(?:io::Error|io::error::Error|serde_json::Error|serde_json::error::Error|bincode::error::\w+|ReadNpyError|WriteNpyError|argmin::core::Error|anyhow::Error)\b")
IO = re.compile(r"\b(?:io::Error|io::error::Error|serde_json::Error|serde_json::error::Error|bincode::error::\w+|ReadNpyError|WriteNpyError)\b")
BAD = {"unwrap", "expect", "unwrap_unchecked", "expect_err", "unwrap_err", "into_ok"}
SWALLOW = {"ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "is_ok_and"}
RES = ("std::result::Result<", "std::ops::ControlFlow<", "core::result::Result<")


LOST = "the failure is not reported to the caller"


def pl(o):
    return o.get("pl") if isinstance(o, dict) and o.get("k") in ("cp", "mv") else None


def okside(p):
    """the place looks into the success side"""
    return any(isinstance(x, dict) and x.get("n") in ("Ok", "Continue") for x in p)


class Flow:
    """what becomes, inside one function, of the results that may carry a failure"""

    def __init__(self, fn):
        self.fn = fn
        self.B = fn.blocks
        self.uses = {}
        self.closure_of = {}
        self.sw = []
        for bi, b in enumerate(self.B):
            if b["c"]:
                continue
            for st in b["st"]:
                r, d = st.get("r") or {}, st.get("d")
                if d is None:
                    continue
                ops = list(r.get("o") or [])
                if r.get("k") in ("ref", "discr", "rawptr") and "pl" in r:
                    ops = [{"k": "cp", "pl": r["pl"]}]
                if r.get("k") == "agg" and r.get("ak") == "closure":
                    self.closure_of[d["l"]] = r.get("h") or (r.get("fn") or {}).get("h")
                for o in ops:
                    p = pl(o)
                    if p:
                        self.uses.setdefault(p["l"], []).append((bi, "st", p["p"], d, r))
            t = b["t"]
            if t["k"] == "call":
                for i, o in enumerate(t["a"]):
                    p = pl(o)
                    if p:
                        self.uses.setdefault(p["l"], []).append((bi, "call", p["p"], t["d"], t))
            elif t["k"] == "switch":
                p = pl(t["o"])
                if p:
                    self.uses.setdefault(p["l"], []).append((bi, "switch", p["p"], None, t))
        # locals moved as a whole into the returned place
        self.to_ret = {0}
        ch = True
        while ch:
            ch = False
            for l, us in self.uses.items():
                if l not in self.to_ret and any(k == "st" and r.get("k") == "use" and not p and d["l"] in self.to_ret and not d["p"] for _, k, p, d, r in us):
                    self.to_ret.add(l)
                    ch = True

    def errblock(self, bi, car):
        b = self.B[bi]
        for st in b["st"]:
            d, r = st.get("d"), st.get("r") or {}
            if d and d["l"] in self.to_ret and not d["p"]:
                if r.get("k") == "agg" and r.get("var") in ("Err", "Break"):
                    return True
                if r.get("k") == "use" and pl(r["o"][0]) and pl(r["o"][0])["l"] in car:
                    return True
        t = b["t"]
        if t["k"] == "call" and t["d"]["l"] in self.to_ret:
            c = t["f"].get("fn") if t["f"]["k"] == "fn" else None
            if c and c.get("name") in ("from_residual", "Err", "from_error", "from_output"):
                return c.get("name") != "from_output"
            if any(pl(o) and pl(o)["l"] in car for o in t["a"]):
                return True
        return False

    def arm(self, start, car):
        """None when every way from the error arm to the caller carries an error, else what happens"""
        seen, wl, reaches = set(), [start], False
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.errblock(x, car):
                reaches = True
                continue
            t = self.B[x]["t"]
            if t["k"] == "return":
                return LOST
            if t["k"] == "unreachable":
                continue
            s = [y for y in t["t"] if not self.B[y]["c"]]
            if not s:
                return "the failure ends in a panic"
            wl += s
        return None if reaches else "the failure ends in a panic"

    def fate(self, dest):
        car, wl, bools = set(), [dest], set()
        probs, returned = [], False
        inspected = []
        car.add(dest)
        while wl:
            l = wl.pop()
            if l in self.to_ret:
                returned = True
                if l == 0:
                    continue
            for bi, k, p, d, x in self.uses.get(l, []):
                if okside(p):
                    continue
                if k == "switch":
                    continue
                if k == "st":
                    if x.get("k") == "discr":
                        ty = self.fn.locals[l][0]
                        if ty.startswith(RES) or ty.startswith("&") and "Result<" in ty:
                            inspected.append((d["l"], "1"))
                        continue
                    n = d["l"]
                elif k == "call":
                    c = x["f"].get("fn") if x["f"]["k"] == "fn" else None
                    nm = c.get("name") or "" if c else ""
                    if nm in BAD and ("Result" in (c.get("path") or "")):
                        probs.append((bi, f"the result is taken with `{nm}`"))
                        continue
                    if nm in SWALLOW and "Result" in (c.get("path") or ""):
                        probs.append((bi, f"the failure is discarded with `{nm}`"))
                        continue
                    if nm in ("is_ok", "is_err") and "Result" in (c.get("path") or ""):
                        inspected.append((d["l"], "0" if nm == "is_ok" else "1"))
                        continue
                    n = d["l"]
                if n not in car:
                    car.add(n)
                    wl.append(n)
        ok = returned
        for l, ev in inspected:
            # the boolean may be negated first
            todo = [(l, ev)]
            while todo:
                l, ev = todo.pop()
                if l in self.to_ret:
                    ok = True  # told to the caller as a boolean
                for bi, k, p, d, x in self.uses.get(l, []):
                    if k == "st" and x.get("k") == "un" and x.get("op") == "Not":
                        todo.append((d["l"], "1" if ev == "0" else "0"))
                    elif k == "st" and x.get("k") == "use":
                        todo.append((d["l"], ev))
                    elif k == "switch":
                        vals = x["vals"]
                        tgt = x["t"][vals.index(ev)] if ev in vals else x["t"][len(vals)]
                        r = self.arm(tgt, car)
                        if r:
                            probs.append((bi, r))
                        else:
                            ok = True
        if not ok and not probs:
            probs.append((None, "the result is dropped"))
        return probs, ok


def run(ctx):
    ctx.rule = ("Every call whose result may carry a file-system or codec failure (directly, or through a workspace function that returns one) must hand that failure to its own caller: no unwrap, no discard, "
                "no error arm that panics or falls through; and functions that do such I/O themselves must not contain another panicking construct on what they read.")
    prog = ctx.prog
    fns = [f for f in prog.fns.values() if f.blocks and not f.generated() and f.name != "main" and not f.crate.startswith("stub_gen") and f.crate in ("egobox", "egobox_gp", "egobox_moe", "egobox_doe", "egobox_ego")]
    flows = {}
    fl = lambda f: flows.setdefault(f.h, Flow(f)) if f.h not in flows else flows[f.h]
    may = set()
    why = {}

    def targets(c):
        out = []
        if c["h"] in prog.fns:
            out.append(c["h"])
        for h in (c["h"], c.get("oh")):
            out += [g.h for g in prog.impl_methods.get(h, [])] if h and not c.get("res", True) else []
        return out

    def sources(f):
        for bi, t, c in calls(f):
            if c is None or "name" not in c:
                continue
            ty = f.locals[t["d"]["l"]][0]
            if c["h"] not in prog.fns and not c.get("local") and ty.startswith("std::result::Result<") and c["name"] not in ("map_err", "map", "and_then", "branch", "from_residual"):
                m = IO.search(split2(ty)) or (c["name"] == "run" and ERR.search(split2(ty)))
                if m:
                    yield bi, t, c, "io"
                    continue
            if any(h in may for h in targets(c)) and "Result<" in ty:
                yield bi, t, c, "ws"
                continue
            for o in t["a"]:
                p = pl(o)
                if p and not p["p"] and fl(f).closure_of.get(p["l"]) in may and callee_name(c) not in ():
                    yield bi, t, c, "closure"
                    break
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.h in may:
                continue
            for bi, t, c, k in sources(f):
                probs, ok = fl(f).fate(t["d"]["l"])
                if ok:
                    may.add(f.h)
                    ch = True
                    break
    callers = {}
    for f in fns:
        for bi, t, c in calls(f):
            if c is not None and c["h"] in prog.fns:
                callers.setdefault(c["h"], []).append((f, bi))

    def optional(f, bi, depth=0):
        """only executed when an environment variable asks for the optional recorders"""
        g = f.graph()
        envs = set()
        for b2, t, c in calls(f):
            if c is not None and callee_name(c) in ("env::var", "env::var_os"):
                envs |= reach_locals(fl(f), t["d"]["l"])
        for a, s in g.tcdep(bi) if bi in g.num else ():
            p = pl(f.blocks[a]["t"].get("o"))
            if p and p["l"] in envs:
                return True
        cs = callers.get(f.h, [])
        return depth < 3 and bool(cs) and all(optional(h, b2, depth + 1) for h, b2 in cs)
    n = {"io": 0, "ws": 0, "closure": 0}
    io_fns = set()
    for f in fns:
        for bi, t, c, k in sources(f):
            n[k] += 1
            ctx.ncalls += 1
            ctx.fns.add(f.h)
            if k == "io":
                io_fns.add(f.h)
            if f.name == "__repr__":
                continue
            probs, ok = fl(f).fate(t["d"]["l"])
            if probs and all(p == LOST for _, p in probs) and optional(f, bi):
                ctx.count("failures of the optional recorders, reported in the log")
                probs = []
            ctx.ob(not probs, f"{f.short}:{callee_name(c)}", f"{f.short}: failure of {callee_name(c)}: " + "; ".join(dict.fromkeys(p for _, p in probs)), t.get("s") or f.span)
    ctx.floor("I/O and codec call sites", n["io"], 60)
    ctx.floor("calls of functions that may fail for I/O reasons", n["ws"], 6)
    ctx.count("closures that may fail", n["closure"])
    ctx.count("functions returning such failures", len(may))
    for f in fns:
        for bi, t, c in calls(f):
            if c is None:
                continue
            if re.match(r"(std::io::)?(BufWriter|LineWriter)<", f.locals[t["d"]["l"]][0].replace("std::io::buffered::", "")) and c["h"] not in prog.fns and c.get("name") in ("new", "with_capacity"):
                F = fl(f)
                ctx.count("buffered writers")
                ctx.ob(flushed(F, bi, t), f"{f.short}:{callee_name(c)}:flush", f"{f.short}: what is written through the buffer of {callee_name(c)} is only flushed when it is dropped on some path, where its failure is lost", t.get("s") or f.span)
            if c.get("name") == "write" and last_ident(c.get("trait") or "") == "Write":
                ctx.ob(False, f"{f.short}:{callee_name(c)}:partial", f"{f.short}: `write` may write only a part of the buffer", t.get("s") or f.span)
    k = 0
    for f in fns:
        root = prog.fns.get(f.j.get("rooth")) if f.kind == "Closure" else f
        if root is None or not re.match("save|load", root.name) or not (root.h in may or root.h in io_fns or f.h in io_fns):
            continue
        k += 1
        bad = []
        for bi, t, c in calls(f):
            nm = (c or {}).get("name") or ""
            if nm in ("unwrap", "expect", "unwrap_unchecked") or not [x for x in t["t"] if not f.blocks[x]["c"]] or nm in ("index", "index_mut"):
                bad.append((callee_name(c) if c else "call", t.get("s")))
        for b in f.blocks:
            if b["t"]["k"] == "assert" and not b["c"]:
                bad.append(("assertion", b["t"].get("s")))
        ctx.ob(not bad, f"panics:{f.short}", f"{f.short} can panic on what it saves or loads: {bad[:3]}", bad[0][1] if bad else f.span)
    ctx.floor("save and load functions", k, 20)
    return io_fns, may


def flushed(F, bi, t):
    """every way from the creation of the buffered writer to a successful return flushes it (or hands it over)"""
    car = reach_locals(F, t["d"]["l"])
    if car & F.to_ret and not any(F.fn.locals[0][0].startswith(r) for r in RES):
        return True
    seen, wl = set(), [x for x in t["t"] if not F.B[x]["c"]]
    while wl:
        x = wl.pop()
        if x in seen:
            continue
        seen.add(x)
        if F.errblock(x, set()):
            continue
        u = F.B[x]["t"]
        if u["k"] == "return":
            return False
        c = u["f"].get("fn") if u["k"] == "call" and u["f"]["k"] == "fn" else None
        if c and c.get("name") in ("flush", "into_inner") and any(pl(o) and pl(o)["l"] in car for o in u["a"]):
            continue
        wl += [y for y in u["t"] if not F.B[y]["c"]] if "t" in u else []
    return True


def reach_locals(fl, start):
    car, wl = {start}, [start]
    while wl:
        l = wl.pop()
        for bi, k, p, d, x in fl.uses.get(l, []):
            if d is not None and d["l"] not in car:
                car.add(d["l"])
                wl.append(d["l"])
    return car


def split2(ty):
    """the error type of Result<T, E>"""
    s = ty[ty.index("<") + 1:-1]
    d = 0
    for i, ch in enumerate(s):
        if ch in "<([{":
            d += 1
        elif ch in ">)]}" and s[i - 1:i] != "-":
            d -= 1
        elif ch == "," and d == 0:
            return s[i + 1:].strip()
    return ""
