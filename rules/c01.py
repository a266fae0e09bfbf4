"""C01: every random choice of a seeded computation derives from its seed."""
import re
from vp import engine as E, q
from vp.engine import mk, select, num
from vp.facts import last_ident, calls, callee_name

ASSUMPTIONS = ["third-party algorithms (linfa, cobyla, argmin, rayon) are deterministic for given inputs and generator", "rayon keeps the order of indexed collects and the operand order of reductions"]
CRATES = ("egobox_doe", "egobox_gp", "egobox_moe", "egobox_ego", "egobox")
A = [mk("param", f"a{i}") for i in range(24)]
ENTROPY = {"from_entropy", "from_os_rng", "try_from_os_rng", "from_rng_os", "thread_rng", "getrandom", "from_thread_rng"}
CLOCK = {"Instant::now", "Instant::elapsed", "SystemTime::now", "SystemTime::elapsed", "Utc::now", "Local::now", "thread::current", "process::id", "RandomState::new", "RandomState::build_hasher"}
HASHED = re.compile(r"\b(HashMap|HashSet)\b")
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if", "difference", "intersection", "union", "symmetric_difference"}
PAR_OK = {"map", "enumerate", "zip", "collect", "collect_into_vec", "unzip", "for_each", "filter", "filter_map", "flat_map", "flat_map_iter", "cloned", "copied", "count", "any", "all", "rev", "chunks",
          "with_min_len", "with_max_len", "inspect", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "map_with", "map_init", "update", "chain", "take", "skip", "step_by",
          "into_par_iter", "par_iter", "par_iter_mut", "par_for_each", "par_map_collect", "find_first", "find_last", "position_first", "position_last", "clone", "par_chunks", "opt_len", "len", "par_sort", "install", "join"}
PAR_FOLD = {"reduce", "reduce_with", "sum", "product"}
SEEDED = {"fit", "train", "train_on_clusters", "init", "next_iter", "suggest", "run", "minimize", "normalized_sample", "sample", "find_best_number_of_clusters", "cv", "cross_validate", "optimize"}
LOCK = re.compile(r"\b(RwLock|Mutex|RefCell|Cell|UnsafeCell|Atomic\w+|ReentrantLock|mpsc)\b")


def nm_(c):
    return c.get("name") or ""


def source(c):
    """kind of nondeterminism a call introduces, if any"""
    if c is None or "name" not in c:
        return None
    n = callee_name(c)
    if c.get("local") and "seed" not in n:
        return None
    if nm_(c) in ENTROPY or (nm_(c) == "random" and ("ndarray_rand" in c["path"] or c["krate"].startswith("rand") or "RandomExt" in c["path"])) or "OsRng" in str(c.get("self")) or "ThreadRng" in str(c.get("self")):
        return "entropy"
    if n in CLOCK:
        return "clock"
    return None


def is_source(x):
    if x.k != "call":
        return False
    t = q.tail(x.d)
    return t in ENTROPY or any(str(x.d).endswith(c) for c in CLOCK) or str(x.d) in ("RandomExt::random", "random::random", "rand::random") or "OsRng" in str(x.d) or "ThreadRng" in str(x.d)


def holders(prog):
    """types that hold a random generator"""
    H = {"Xoshiro256Plus", "Xoshiro256PlusPlus", "StdRng", "SmallRng", "ChaCha8Rng"}
    gen = set()
    ch = True
    while ch:
        ch = False
        for (c, p), a in prog.adts.items():
            n = last_ident(p)
            if n in gen or "::_::" in p:
                continue
            for v in a["vs"]:
                for nm, ty in v["fs"]:
                    if nm == "rng" or any(re.search(r"\b%s\b" % h, ty) for h in H | gen):
                        gen.add(n)
                        ch = True
    return H, gen


def seeded_args(fn, gens):
    """does the function receive a seed or a generator"""
    for i in range(fn.argc):
        ty = fn.locals[i + 1][0]
        if re.search(r"\bu64\b|Rng\b|Xoshiro|\bR2?\b", ty) or any(re.search(r"\b%s\b" % g, ty) for g in gens):
            return True
    return False


def leaves(prog, ty, base, gens, depth=0):
    """places of a value of that type that are generators"""
    n = last_ident(ty)
    if n.startswith("Xoshiro"):
        return [base]
    if depth > 5 or n not in gens:
        return []
    out = []
    for a in prog.adt(n):
        if a["kind"] != "struct" and len(a["vs"]) != 1:
            continue
        for nm, t in a["vs"][0]["fs"]:
            out += leaves(prog, t, select(base, nm), gens, depth + 1)
    return out


def run(ctx):
    ctx.rule = ("Every use of operating-system entropy or a clock in the workspace is enumerated. Entropy may only be drawn where the path condition says that no seed was given, or in a constructor without seed argument, "
                "whose generator must be replaced before the value is used by any workspace function; no clock reading and no unguarded entropy may reach a result or an argument of another computation. "
                "Generators survive in no state after initialisation of a seeded run, sub-trainings are always seeded, no hash-ordered iteration and no order-sensitive or lock-sharing parallel reduction takes part in a computation.")
    prog = ctx.prog
    H, gens = holders(prog)
    fns = [f for f in prog.fns.values() if f.crate in CRATES and not f.generated() and f.blocks]
    root = lambda f: prog.fns.get(f.j.get("rooth"), f) if f.kind == "Closure" else f

    # ---- which functions may produce an unseeded generator
    def rtype(f):
        return last_ident(f.locals[0][0]) if not f.locals[0][0].startswith("(") else ""
    direct = {}
    nsrc = 0
    for f, i, t, c in ctx.scan(fns):
        s = source(c)
        if s:
            nsrc += 1
            direct.setdefault(f.h, []).append((i, t, c, s))
    cons = set()

    def holds(ty):
        m = re.match(r"^(?:std::result::)?Result<(.*)$", ty)
        return any(re.search(r"\b%s\b" % g, ty) for g in gens) or ty in ("Self", "SB")

    def builder(fn):
        if len(fn.blocks or ()) <= 3 and fn.crate in CRATES and fn.kind == "AssocFn":
            return True  # getters
        return len(fn.blocks or ()) <= 16 and fn.kind == "AssocFn" and holds(fn.locals[0][0]) and fn.name not in ("fit", "train", "train_on_clusters") and fn.crate in CRATES

    # a constructor takes no seed, and returns something holding the generator it drew
    for h, l in direct.items():
        f = prog.fns[h]
        if all(s == "entropy" for *_, s in l) and holds(f.locals[0][0]) and not seeded_args(f, gens):
            cons.add(h)
    work = True
    tmeth = {}
    while work:
        work = False
        for f in fns:
            if f.h in cons or f.kind == "Closure" or not holds(f.locals[0][0]) or seeded_args(f, gens):
                continue
            for i, t, c in calls(f):
                if c and (c["h"] in cons or (nm_(c) == "default" and holds(f.locals[0][0]) and False)):
                    # still unseeded when returned?
                    r = ctx.eval(f, opaque=lambda c, fn: fn.h not in cons and not builder(fn))
                    if q.uses(r.val(), is_source, r.eng):
                        cons.add(f.h)
                        work = True
                    break
    for h in cons:
        f = prog.fns[h]
        if f.trait and f.j.get("traitmh") and any(last_ident(p) == f.trait for _, p in prog.traits):
            for g in fns:
                for i, t, c in calls(g):
                    if c and nm_(c) == f.name and last_ident(c.get("trait") or "") == f.trait and not c.get("res"):
                        tmeth.setdefault(f.name, f.trait)

    with_seed = {last_ident(p) for (c, p), a in prog.adts.items() for v in a["vs"] for nm, ty in v["fs"] if nm == "seed"}
    ch = True
    while ch:  # types that hold a seed, directly or not
        ch = False
        for (c, p), a in prog.adts.items():
            if last_ident(p) not in with_seed and any(re.search(r"\b%s\b" % w, ty) for v in a["vs"] for _, ty in v["fs"] for w in with_seed):
                with_seed.add(last_ident(p))
                ch = True
    ctx.count("entropy and clock call sites", nsrc)
    ctx.floor("constructors that draw an unseeded generator", len(cons), 5)
    # ---- every other function that draws entropy or calls such a constructor
    users = {}
    for f in fns:
        if f.h in cons:
            continue
        for i, t, c in calls(f):
            if c and (source(c) or c["h"] in cons or (nm_(c) in tmeth and last_ident(c.get("trait") or "") == tmeth[nm_(c)])):
                g = root(f)
                if g.h not in cons:
                    users.setdefault(g.h, set()).add(t["s"])
    setters = {f.name for f in fns if f.trait and f.name == "set_rng"}

    def hot(x):
        return is_source(x) or (x.k == "call" and q.tail(x.d) in tmeth and str(x.d).split("::")[-2:-1] == [tmeth[q.tail(x.d)]])

    def cut(x):
        # a value whose generator was replaced
        return x.k == "eff" and q.tail(x.d[0]) in setters

    def seedlit(f):
        def ok(n):
            if n.k == "sel" and n.d == "seed":
                return True
            if n.k == "param":
                k = int(n.d[1:]) if isinstance(n.d, str) and n.d[1:].isdigit() else -1
                return 0 <= k < f.argc and re.search(r"Option<u64>", f.locals[k + 1][0]) is not None
            return False
        return ok

    def given(f, roots):
        """facts: the seed option of f is present"""
        ok = seedlit(f)
        fs = {}
        for x in q.walk(roots, control=True):
            if x.k == "discr" and ok(x.a[0]):
                fs[x] = num(1)
            if x.k == "call" and q.tail(x.d) == "is_some" and len(x.a) == 1 and ok(x.a[0]):
                fs[x] = q.TRUE
            if x.k == "call" and q.tail(x.d) == "is_none" and len(x.a) == 1 and ok(x.a[0]):
                fs[x] = q.FALSE
        return fs

    FMT = ("new_debug", "new_display", "new_lower_exp", "new_v1", "log", "fmt", "as_secs", "as_secs_f64", "as_millis")
    n = 0
    # functions that draw at random and are given no seed at all: no seeded computation may use them
    draws = {h for h in direct if h not in cons and prog.fns[h].kind != "Closure" and not seeded_args(prog.fns[h], gens) and not any(re.search(r"\b%s\b" % t, ty) for t in with_seed for ty, *_ in prog.fns[h].locals[1:prog.fns[h].argc + 1])
             and all(s == "entropy" for *_, s in direct[h])}
    callers = {}
    for f in fns:
        for i, t, c in calls(f):
            if c:
                for k in {c["h"]} | {g.h for g in prog.impl_methods.get(c.get("oh") or c["h"], ())}:
                    callers.setdefault(k, set()).add(root(f).h)
    for h in sorted(draws, key=lambda h: prog.fns[h].short):
        seen, stk = {h: None}, [h]
        hit = None
        while stk:
            k = stk.pop()
            g = prog.fns[k]
            if g.name in SEEDED and (g.name != "sample" or g.trait == "SamplingMethod"):
                hit = hit or k
            for p in callers.get(k, ()):
                if p not in seen:
                    seen[p] = k
                    stk.append(p)
        path, k = [], hit
        while k:
            path.append(prog.fns[k].short)
            k = seen[k]
        ctx.ob(hit is None, f"draws:{prog.fns[h].crate}:{prog.fns[h].short}", f"{prog.fns[h].short} draws from operating-system entropy and takes part in a seeded computation: {' -> '.join(path)}", prog.fns[h].span)
    for h in draws:
        users.pop(h, None)
    for h in sorted(users, key=lambda h: prog.fns[h].short):
        f = prog.fns[h]
        r = ctx.eval(f, opaque=lambda c, fn: fn.h not in cons and not builder(fn) and root(fn).h != f.h)
        n += 1
        bad = None

        def dirty(v, fs):
            v = q.assume(v, fs) if fs else v
            xs = set()
            for x in walk_cut(v, r.eng, cut):
                if hot(x):
                    return x
            return None
        outs = [("its result", r.val())]
        for i in range(f.argc):
            if f.locals[i + 1][0].startswith("&mut"):
                outs.append((f"argument {i}", r.arg_final(i)))
        sites = []
        for e in r.events():
            if e.inlined or root(e.frame.fn).h != f.h or q.tail(e.name) in FMT or "Argument" in e.name or "log::" in e.name:
                continue
            sites.append(e)
        roots = [v for _, v in outs] + [a for e in sites for a in e.args] + [c for e in sites for c, _ in e.guards()]
        fs = given(f, roots)
        for what, v in outs:
            x = dirty(v, fs)
            if x is not None:
                bad = (what, x, f.span)
        for e in sites:
            # not reached when a seed is given
            if any(q.lit(q.assume(c, fs), ed) is False for c, ed in e.guards()):
                continue
            if hot_event(e, tmeth) or q.tail(e.name) in setters:
                continue  # the draw itself or its replacement; what matters is where its value goes
            for a in e.args:
                x = dirty(a, fs)
                if x is not None and not benign(e, x):
                    bad = bad or (f"a call of {e.name}", x, e.span)
            for c, ed in e.guards():
                x = dirty(c, fs)
                if x is not None:
                    bad = bad or (f"the condition of a call of {e.name}", x, e.span)
        ctx.ob(bad is None, f"origin:{f.crate}:{f.short}", bad and f"{f.short}: {bad[0]} depends on {E.show(bad[1], 4)} although a seed is given (or none can be)", bad[2] if bad else f.span)
    ctx.floor("functions whose use of entropy, clocks or unseeded constructors was followed", n, 8)

    # ---- a seeded run: the state and the surrogates get seeded generators
    f = ctx.fn("EgorSolver::init", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, fn: fn.h not in cons and not builder(fn) and root(fn).h != f.h)
    v = r.val()
    st = select(select(v, "!"), "0")
    rng = q.assume(select(st, "rng"), given(f, [v]))
    old = [x for x in q.walk(rng, r.eng) if (x.k == "sel" and x.d == "rng" and x.a[0].k == "param") or hot(x)]
    sd = [x for x in q.walk(rng, r.eng) if x.k == "call" and q.tail(x.d) == "seed_from_u64"]
    ctx.ob(not old and sd and all(from_seed(x.a[-1]) for x in sd), "state", f"the generator of the initial state is {E.show(rng, 6)}", f.span)
    f = ctx.fn("EgorSolver::new", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, fn: fn.h not in cons and not builder(fn) and root(fn).h != f.h)
    sb = q.assume(select(r.val(), "surrogate_builder"), given(f, [r.val()]))
    sets = [x for x in q.walk(sb, r.eng) if x.k == "eff" and q.tail(x.d[0]) in setters]
    ctx.ob(sets and all(from_seed(y.a[-1]) for x in sets for y in q.uses(x.a[1:], lambda y: y.k == "call" and q.tail(y.d) == "seed_from_u64")) and
           all(q.uses(x.a[1:], lambda y: y.k == "call" and q.tail(y.d) == "seed_from_u64") for x in sets), "surrogates",
           f"the surrogate builder of a seeded run is {E.show(sb, 6)}", f.span)
    # generator setters of the surrogate builders replace every generator of the builder
    n = 0
    bld = {(im.get("crate"), im.get("selfh") or im.get("self")) for im in prog.impls if last_ident(im.get("trait") or "") == "SurrogateBuilder"}
    news = [g for g in fns if g.trait == "SurrogateBuilder" and g.name == "new_with_xtypes" and g.h in cons]
    for g in news:
        ty = last_ident(g.selfh or "")
        m = [s for s in fns if s.trait == "SurrogateBuilder" and s.name in setters and last_ident(s.selfh or "") == ty]
        n += 1
        if not ctx.ob(len(m) == 1, f"setter:{ty}", f"{ty} draws an unseeded generator at creation and has no setter for it", g.span):
            continue
        rr = ctx.eval(m[0], opaque=lambda c, fn: not builder(fn))
        fin = rr.arg_final(0)
        ls = leaves(prog, g.selfh, fin, gens)
        ctx.ob(ls and all(q.same(x, A[1]) for x in ls), f"setter:{ty}:rng", f"{m[0].short} leaves the generators {[E.show(x, 5) for x in ls]}", m[0].span)
    ctx.floor("surrogate builders whose generator setter was checked", n, 2)

    # ---- sparse experts are always seeded from the generator of the mixture
    f = ctx.fn("GpMixtureValidParams::find_best_expert", "egobox_moe")
    r = ctx.eval(f, opaque=lambda c, fn: fn.trait in ("SgpSurrogateParams", "GpSurrogateParams") or last_ident(fn.selfh or "") in ("SparseGaussianProcess", "GaussianProcess") or fn.name == "train")
    tr = [e for e in r.events() if q.tail(e.name) == "train" and any(q.uses(a, lambda x: x.k == "call" and ("Sgp" in str(x.d) or "Sparse" in str(x.d))) for a in e.args[:1])]
    se = [e for e in r.events() if q.tail(e.name) == "seed" and "Sgp" in e.name]
    ctx.floor("trainings of sparse experts", len(tr), 1)
    for e in tr:
        ok = [s for s in se if set(s.guards()) <= set(e.guards()) and s.args[1].k == "agg" and s.args[1].d[1] == "Some" and
              all(q.tail(x.d) == "gen" for x in s.args[1].a if x.k == "call") and q.uses(s.args[1], lambda x: x.k == "sel" and x.d == "rng" or x.k == "call" and q.tail(x.d) == "rng")]
        ctx.ob(ok, "sparse:seed", f"the sparse expert is trained without always getting a seed drawn from the generator of the mixture: {[E.show(s.args[1], 5) for s in se]}", e.span)
    n = 0
    for g in fns:
        if g.trait == "SgpSurrogateParams" and g.name == "seed":
            n += 1
            rr = ctx.eval(g, opaque=lambda c, fn: False)
            w = q.uses(rr.arg_final(0), lambda x: x is A[1], rr.eng)
            ctx.ob(w, f"sparse:{last_ident(g.selfh)}", f"{g.short} does not keep the seed", g.span)
    ctx.floor("seed setters of sparse experts", n, 4)
    # the generator handed to trainings of the mixture
    f = ctx.fn("GpMixtureParams::with_rng", "egobox_moe")
    rr = ctx.eval(f)
    ls = leaves(prog, f.locals[0][0], rr.val(), gens)
    ctx.ob(ls and all(x is A[1] for x in ls), "with_rng", f"with_rng leaves {[E.show(x, 4) for x in ls]}", f.span)

    # ---- seeds drawn as options may be absent
    n = 0
    for f, i, t, c in ctx.scan(fns):
        if c and nm_(c) in ("gen", "r#gen", "random") and not c.get("local") and t.get("d"):
            n += 1
            ty = f.locals[t["d"]["l"]][0] if not t["d"]["p"] else ""
            ctx.ob(not ty.startswith("std::option::Option") and not ty.startswith("core::option::Option"), f"draw:{f.short}:{ty}", f"{f.short} draws a value of type {ty}: half of the draws are None", t["s"])
    ctx.floor("direct draws", n, 4)

    # ---- hash-ordered iteration
    n = 0
    for f in fns:
        its = []
        others = set()
        for i, t, c in calls(f):
            if c is None:
                continue
            ty = str(c.get("self") or "") + " " + c["path"]
            a0 = ""
            if t["a"] and t["a"][0].get("pl") and not t["a"][0]["pl"]["p"]:
                a0 = f.locals[t["a"][0]["pl"]["l"]][0]
            if nm_(c) in ITER and (re.match(r"^&?(?:mut |'\w+ )*(?:std::collections::)?(?:hash_map::)?(HashMap|HashSet)\b", a0) or re.search(r"collections::Hash(Map|Set)", c["path"]) or re.match(r"^&?(mut )?std::collections::Hash", str(c.get("self")))):
                its.append((t["s"], nm_(c)))
            elif "rayon" not in c["path"]:
                others.add(nm_(c))
        if its:
            n += 1
            ok = others <= {"entry", "or_insert", "or_insert_with", "or_default", "to_string", "to_owned", "clone", "next", "into_iter", "get", "contains_key", "insert", "get_mut", "remove", "len", "deref", "is_empty"}
            ctx.ob(ok, f"hash:{f.short}", f"{f.short} iterates a hash container ({its[0][1]}): the order differs from run to run", its[0][0])
    ctx.count("hash-ordered iterations", n)

    # ---- parallel sections
    locky = set()
    ch = True
    while ch:
        ch = False
        for (c, p), a in prog.adts.items():
            nm = last_ident(p)
            if nm not in locky and any(LOCK.search(ty) or any(re.search(r"\b%s\b" % l, ty) for l in locky) for v in a["vs"] for _, ty in v["fs"]):
                locky.add(nm)
                ch = True
    n = 0
    for f, i, t, c in ctx.scan(fns):
        if c is None or not (c["path"].startswith(("rayon::", "<rayon")) or "rayon::" in str(c.get("trait")) or "rayon::" in str(c.get("opath")) or nm_(c).startswith("par_")) or c.get("local"):
            continue
        n += 1
        nm = nm_(c)
        if nm in PAR_FOLD:
            ty = f.locals[t["d"]["l"]][0] if t.get("d") and not t["d"]["p"] else ""
            if nm in ("sum", "product"):
                ctx.ob(re.match(r"^[iu](8|16|32|64|128|size)$", ty), f"par:{f.short}:{nm}", f"{f.short} accumulates floating-point numbers in an order the scheduler decides", t["s"])
            else:
                cls = [prog.fns[h] for h in c.get("closures") or () if h in prog.fns and prog.fns[h].argc == 3]
                ok = len(cls) == 1
                for cl in cls:
                    v = whole(ctx.eval(cl).val(), A[1], A[2])
                    al = q.alts(v)
                    conds = set(guards_of(v))
                    ok = ok and all(x is A[1] or x is A[2] for _, x in al) and len(conds) == 1 and all(pick(x) for x in conds)
                ctx.ob(ok, f"par:{f.short}:{nm}", f"{f.short} reduces with an operation that is not the selection of one operand", t["s"])
        else:
            ctx.ob(nm in PAR_OK or c["path"].startswith(("rayon::iter::plumbing",)), f"par:{f.short}:{nm}", f"{f.short} uses the parallel operation {nm}, whose result may depend on the schedule", t["s"])
        for ch_ in c.get("closures") or ():
            for b in f.blocks:
                for s in b["st"]:
                    rv = s.get("r") or {}
                    if rv.get("k") == "agg" and rv.get("ak") == "closure" and rv.get("h") == ch_:
                        for o in rv["o"]:
                            if o.get("pl") and not o["pl"]["p"]:
                                ty = f.locals[o["pl"]["l"]][0]
                                bad = LOCK.search(ty) or any(re.search(r"\b%s\b" % l, ty) for l in locky)
                                ctx.ob(not bad, f"share:{f.short}:{ty[:60]}", f"a parallel section of {f.short} shares {ty}, whose content changes in schedule order", t["s"])
    ctx.floor("parallel operations", n, 12)
    # mutable statics and thread locals
    for f, i, t, c in ctx.scan(fns):
        if c and "thread::LocalKey" in c["path"]:
            ctx.ob(False, f"tls:{f.short}", f"{f.short} uses thread-local state", t["s"])


def from_seed(v):
    return (v.k == "sel" and v.d == "!" and v.a[0].k == "sel" and v.a[0].d == "seed") or (v.k == "sel" and v.d == "!" and v.a[0].k == "call" and len(v.a[0].a) == 1 and from_seed(select(v.a[0].a[0], "!"))) or \
        (v.k == "phi" and all(from_seed(x) for x in v.a)) or (v.k == "call" and len(v.a) == 1 and q.tail(v.d) in ("clone", "into", "deref", "to_owned") and from_seed(v.a[0]))


def whole(v, *ps):
    """a tuple rebuilt from all the components of one operand is that operand"""
    if v.k == "phi":
        return E.phi([(g, whole(x, *ps)) for g, x in zip(v.d, v.a)])
    if v.k == "agg" and v.a:
        for p in ps:
            if all(x.k == "sel" and x.a[0] is p for x in v.a):
                return p
    return v


def guards_of(v):
    """the conditions of a join"""
    if v.k != "phi":
        return []
    out = []
    for g, x in zip(v.d, v.a):
        for cj in g:
            for lit in cj:
                out.append(lit[0])
        out += guards_of(x)
    return out


def pick(x):
    """an order between one component of the first operand and the same one of the second"""
    if x.k == "op" and x.d in ("Lt", "Le", "Gt", "Ge", "lt", "le", "gt", "ge", "<", "<=", ">", ">=") and len(x.a) == 2:
        l, r = x.a
        f = lambda y, p: q.subst(y, {p: A[0]})
        us = [bool(q.uses(l, lambda y: y is A[k])) + 2 * bool(q.uses(r, lambda y: y is A[k])) for k in (1, 2)]
        return sorted(us) == [1, 2] and f(f(l, A[1]), A[2]) is f(f(r, A[1]), A[2])
    if x.k == "call" and len(x.a) == 2 and q.tail(x.d) in ("partial_cmp", "total_cmp", "cmp", "lt", "le", "gt", "ge"):
        return pick(mk("op", "Lt", x.a))
    if x.k in ("discr", "sel", "ref") or (x.k == "call" and q.tail(x.d) in ("is_lt", "is_le", "is_gt", "is_ge", "unwrap", "unwrap_or", "expect", "is_some")):
        return pick(x.a[0]) and not any(q.uses(y, lambda z: z is A[1] or z is A[2]) for y in x.a[1:])
    if x.k == "op" and x.d in ("Eq", "Ne", "Not"):
        xs = [y for y in x.a if q.uses(y, lambda z: z is A[1] or z is A[2])]
        return len(xs) == 1 and pick(xs[0])
    return False


def hot_event(e, tmeth):
    return q.tail(e.name) in ENTROPY or any(e.name.endswith(c) for c in CLOCK) or q.tail(e.name) in tmeth


def benign(e, x):
    return False


def walk_cut(v, eng, cut):
    """nodes below v; where a generator was replaced only the replacement counts"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        for y in q.walk(x, eng, cut=cut, control=True):
            if y in seen:
                continue
            seen.add(y)
            yield y
            if cut(y):
                st.extend(y.a[1:])
