"""C19: experts are of a requested kind and carry the requested options."""
from vp import engine as E, q
from vp.engine import mk, select, const_of
from rules.c06 import flat, is_call
from rules.c07 import ALLMU
from rules.c08 import one
from rules.c32 import plain

ASSUMPTIONS = ["slice::contains, min_by and format! behave as documented", "the error of a kind is not a NaN"]
A = [mk("param", f"a{i}") for i in range(6)]
MEANS = ["Constant", "Linear", "Quadratic"]
CORRS = ["SquaredExponential", "AbsoluteExponential", "Matern32", "Matern52"]
OPTS = ("n_start", "max_eval", "kpls_dim", "theta_tuning", "sparse_method", "seed", "nugget")


def snake(n):
    out = ""
    for i, ch in enumerate(n):
        out += ("_" if i and (ch.isupper() or ch.isdigit() and not n[i - 1].isdigit()) else "") + ch.upper()
    return out.replace("_32", "32").replace("_52", "52")


def bits(ctx, spec):
    out = {}
    for fn in ctx.prog.fns.values():
        if fn.crate == "egobox_moe" and fn.kind == "AssocConst" and (fn.path or "").rsplit("::", 2)[-2:-1] == [spec] or fn.kind == "AssocConst" and fn.short.startswith(spec + "::"):
            if not fn.blocks:
                continue
            v = ctx.eval(fn).val()
            cs = {const_of(x) for x in q.walk(v) if x.k == "const" and isinstance(const_of(x), int) and not isinstance(const_of(x), bool)}
            if len(cs) == 1:
                out[fn.name.replace("_", "")] = cs.pop()
    return out


def holds(edge):
    return (edge[0] == "in") == ("0" not in [str(k) for k in edge[1:]])


def word(v):
    c = const_of(v)
    return c if isinstance(c, str) else None


def pushed(v):
    """words put in a list"""
    return {w for x in q.walk(v, ALLMU) if x.k == "eff" and q.tail(x.d[0]) == "push" for w in [word(plain(x.a[1]))] if w}


def within(v):
    """nodes of the value but for the data folded over"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "mu":
            todo += E.MU.get(x, ())
            todo += [y for y in E.LOOPS.get(x.d[:2], ()) if isinstance(y, E.Node)]
        elif x.k == "eff" and q.tail(x.d[0]) == "iter_fold":
            pass
        elif x.k == "call" and q.tail(x.d) == "iter_fold":
            todo += x.a[1:]
        elif x.k == "call" and q.tail(x.d) == "fit":
            todo.append(x.a[0])
        else:
            todo += x.a


def kind_of(v):
    """names of the models built within the value"""
    ms = {x.d[1][:-4] for x in within(v) if x.k == "agg" and x.d[1].endswith("Mean") and x.d[1][:-4] in MEANS}
    cs = {x.d[1][:-4] for x in within(v) if x.k == "agg" and x.d[1].endswith("Corr") and x.d[1][:-4] in CORRS}
    return ms, cs


def allowed(ctx, f, r):
    for opt, spec, names in (("regression_spec", "RegressionSpec", MEANS), ("correlation_spec", "CorrelationSpec", CORRS)):
        table = bits(ctx, spec)
        ctx.floor(f"kinds of {spec}", len(table), len(names))
        seen = set()
        for e in r.events(pred=lambda e: q.tail(e.name or "") == "push"):
            w = word(plain(e.args[1]))
            if w not in names:
                continue
            seen.add(w)
            g = [(c, ed) for c, ed in e.guards() if is_call(c, "contains") and plain(c.a[0]) is select(A[0], opt)]
            ok = len(g) == 1 and holds(g[0][1]) and {str(const_of(x)) for x in q.walk(g[0][0].a[1]) if x.k == "const"} == {str(table.get(w.upper()))} and len(e.guards()) == 1
            ctx.ob(ok, f"allowed:{w}", f"{f.short} allows {w} when {[(E.show(c, 3)[:160], ed) for c, ed in e.guards()]}, not when {opt} contains it", e.span)
        for w in names:
            ctx.ob(w in seen, f"allowed:{w}", f"{f.short} never allows {w}", f.span)


def chosen(ctx, f, r):
    """each scored pair is one allowed, scored with the kind of that name"""
    seen = {}
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "push"):
        t = plain(e.args[1])
        if not (t.k == "agg" and t.d[0] == "tuple" and len(t.a) == 2):
            continue
        ws = {word(x) for x in q.walk(t.a[0], ALLMU) if x.k == "const" and word(x)}
        ws = {w for w in ws if w.count("_") == 1 and w.split("_")[0] in MEANS}
        if len(ws) != 1:
            ctx.ob(False, "scored", f"{f.short} scores a kind named {sorted(ws)}, not read", e.span)
            continue
        w = ws.pop()
        m, k = w.split("_")
        seen[w] = e
        ms, cs = kind_of(t.a[1])
        ctx.ob(ms <= {m} and cs == {k} and ms, f"scored:{w}", f"{f.short} scores {w} with the models {sorted(ms)} and {sorted(cs)}", e.span)
        have = set()
        for c, ed in e.guards():
            if is_call(c, "contains") and holds(ed):
                lst, x = pushed(c.a[0]), word(plain(c.a[1]))
                have.add((x, "m" if lst and lst <= set(MEANS) else "c" if lst and lst <= set(CORRS) else "?"))
        ctx.ob(have == {(m, "m"), (k, "c")}, f"scored:{w}", f"{f.short} scores {w} under {sorted((str(a), b) for a, b in have)}, not when both of its models are allowed", e.span)
        for p in [x for x in within(t.a[1]) if x.k == "agg" and x.d[1] == "GpValidParams"]:
            kd = dict(zip(p.d[3], p.a)).get("kpls_dim")
            ctx.ob(plain(kd) is select(A[0], "kpls_dim"), f"scored:kpls_dim:{w}", f"{f.short} scores {w} with the reduced dimension {E.show(kd, 3)[:120]}", e.span)
    for m in MEANS:
        for k in CORRS:
            ctx.ob(f"{m}_{k}" in seen, f"scored:{m}_{k}", f"{f.short} never scores {m}_{k}", f.span)
    # comparator
    es = r.events(pred=lambda e: q.tail(e.name or "") in ("min_by", "max_by", "min_by_key", "argmin", "argmax", "min", "reduce") and q.tail(e.name) in ("min_by", "argmin"))
    ctx.floor("selections of the smallest error", len([e for e in es if e.inlined is None or True]), 1)
    for e in es:
        if q.tail(e.name) != "min_by" or e.raw[1].k != "clo":
            continue
        k = mk("clo", e.raw[1].d, tuple(mk("param", f"c{i}") for i in range(len(e.raw[1].a))))
        v = ctx.eval(ctx.prog.fns[e.raw[1].d], args={0: k}).val()
        cs = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) in ("cmp", "partial_cmp", "total_cmp")]
        if not cs:
            continue
        side = lambda x: [n for n in (1, 2) if A[n] in set(within(x))]
        ok = all(side(x.a[0]) == [1] and side(x.a[1]) == [2] for x in cs)
        ok = ok and (bool(k.a) or all(is_second(x.a[0]) and is_second(x.a[1]) for x in cs))
        rev = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "reverse"]
        ctx.ob(ok and not rev, "best", f"{f.short} does not keep the kind with the smallest error: it compares {E.show(v, 5)[:200]}", e.span)


def is_second(v):
    v = plain(v)
    return v.k == "sel" and v.d == "1"


def best_name(ctx, f, b, span, state):
    """the name compared: the single allowed pair or the best scored one"""
    if b in state:
        return
    state.add(b)
    n = 0
    for gs, v in flat(b):
        v = plain(v)
        n += 1
        if is_call(v, "format"):
            shown = [x for x in q.walk(v, ALLMU) if x.k == "call" and q.tail(x.d) == "new_display"]
            tup = [x for x in q.walk(v) if x.k == "agg" and x.a and all(is_call(y, "new_display") for y in x.a)]
            if tup:
                shown = list(tup[0].a)
            ls = [pushed(x) for x in shown]
            ok = len(ls) == 2 and ls[0] == set(MEANS) and ls[1] == set(CORRS)
            ctx.ob(ok, "best:single", f"{f.short} names the single kind from {[sorted(x) for x in ls]}", span)
            lens = None
            for conj in paths(gs):
                here = set()
                for c, ed in conj:
                    if c.k == "op" and c.d == "Eq" and holds(ed) and 1 in (const_of(c.a[0]), const_of(c.a[1])):
                        o = c.a[0] if const_of(c.a[1]) == 1 else c.a[1]
                        if is_call(plain(o), "len"):
                            p = pushed(o)
                            here.add("m" if p == set(MEANS) else "c" if p == set(CORRS) else "?")
                lens = here if lens is None else lens & here
            lens = lens or set()
            ctx.ob(lens >= {"m", "c"}, "best:single", f"{f.short} takes the first allowed kind though several are allowed", span)
        else:
            ok = v.k == "sel" and v.d == "0" and any(x.k == "call" and q.tail(x.d) in ("min_by", "argmin") for x in q.walk(v, ALLMU))
            ctx.ob(ok, "best:scored", f"{f.short} selects the kind {E.show(v, 4)[:200]}, not the one of smallest error", span)
    ctx.floor("names of the selected kind", n, 2)


def built(ctx, f, r):
    es = [e for e in r.events(pred=lambda e: q.tail(e.name or "") == "train" and e.args and pools(e.args[0]))]
    ctx.floor("trainings of experts", len(es), 2)
    state = set()
    nfull = nsp = 0
    for e in es:
        seen = set()
        for gs, v in grown(e.args[0]):
            if v in seen:
                continue
            seen.add(v)
            name = v.d[1] if v.k == "agg" else None
            if not name or not name.endswith("SurrogateParams"):
                ctx.ob(False, "expert", f"{f.short} trains {E.show(v, 3)[:160]}, not read", e.span)
                continue
            sparse = name.startswith("Sgp")
            core = name[3 if sparse else 2:-len("SurrogateParams")]
            core = ("Constant" if sparse else "") + core
            mean = next(m for m in MEANS if core.startswith(m))
            corr = core[len(mean):]
            nsp, nfull = nsp + sparse, nfull + (not sparse)
            lit, no = set(), set()
            for d in gs:
                for alt in d:
                    for c, ed in alt:
                        if c.k == "op" and c.d == "Eq" and not holds(ed):
                            no |= {word(x) for x in c.a if word(x)}
                        if c.k == "op" and c.d == "Eq" and holds(ed):
                            ws = [word(x) for x in c.a]
                            if any(w and w.count("_") == 1 for w in ws):
                                lit.add(next(w for w in ws if w))
                                best_name(ctx, f, next(x for x, w in zip(c.a, ws) if not w), e.span, state)
            if not lit:
                # the last kind: the path for none of the kinds returns an error
                rest = {f"{m}_{k}" for m in (MEANS if not sparse else MEANS[:1]) for k in CORRS} - no
                lit = rest & positives(r, e.res)
            ctx.ob(lit == {f"{mean}_{corr}"}, f"expert:{mean}_{corr}", f"{f.short} trains {name} for the selected kind {sorted(lit)}", e.span)
            ms, cs = kind_of(v)
            ctx.ob(cs == {corr} and ms == {mean}, f"expert:{mean}_{corr}", f"{f.short} gives {name} the models {sorted(ms)} and {sorted(cs)}", e.span)
            if sparse:
                z = [x for x in q.walk(v, ALLMU) if x.k == "agg" and x.d[1] == "SgpValidParams"]
                want = select(select(A[0], "gp_type"), "SparseGp")
                for x in z:
                    zz = plain(dict(zip(x.d[3], x.a))["z"])
                    ok = bool(zz.k == "sel" and zz.d.split(".")[-1] == "inducings") and any(w is select(A[0], "gp_type") for w in within(zz))
                    ctx.ob(ok, "inducings", f"{f.short} gives {name} the inducing points {E.show(zz, 4)[:160]}", e.span)
        side = [(c, ed) for c, ed in e.guards() if c.k == "discr" and c.a[0] is select(A[0], "gp_type")]
        sp = "Sgp" in E.show(e.args[0], 3)
        vs = {x["n"]: str(x["d"]) for x in ctx.prog.adt("GpType", "egobox_moe")[0]["vs"]}
        want = vs["SparseGp" if sp else "FullGp"]
        got = [ed for c, ed in side]
        ok = any(ed[0] == "in" and [str(k) for k in ed[1:]] == [want] or ed[0] == "notin" and want not in [str(k) for k in ed[1:]] for ed in got)
        ctx.ob(ok, "expert:type", f"{f.short} trains {'sparse' if sp else 'full'} experts when the model type is {got}", e.span)
        want = ["RangeTo", "RangeFrom"]
        for i, (wr, what) in enumerate(zip(want, ("inputs", "outputs"))):
            x = plain(e.args[1 + i])
            cut = [y for y in q.walk(x) if y.k == "sel" and y.d == str(i) and is_call(plain(y.a[0]), "split_at")]
            if cut:
                y = plain(cut[0].a[0])
                ok = plain(y.a[0]) is A[3] and y.a[2] is A[2] and const_of(y.a[1].a[0]) == 1
                ctx.ob(ok, f"expert:{what}", f"{f.short} trains experts on the {what} {E.show(x, 4)[:160]}", e.span)
                continue
            ok = q.uses(x, lambda y: y is A[3]) and [y.d[1] for y in q.walk(x) if y.k == "agg" and y.d[1].startswith("Range") and q.uses(y, lambda z: z is A[2])] == [wr]
            ctx.ob(ok, f"expert:{what}", f"{f.short} trains experts on the {what} {E.show(x, 4)[:160]}", e.span)
        options(ctx, f, r, e, sp)
    ctx.floor("full experts", nfull, 12)
    ctx.floor("sparse experts", nsp, 4)


def positives(r, res):
    """kinds compared positively on the paths which return res"""
    out = set()
    for gs, v in flat(r.val()):
        if plain(v) is plain(res):
            for d in gs:
                for alt in d:
                    out |= {word(x) for c, ed in alt if c.k == "op" and c.d == "Eq" and holds(ed) for x in c.a if word(x)}
    return out


def pools(v):
    return any(x.k == "agg" and x.d[1].endswith("SurrogateParams") for x in q.walk(v))


def options(ctx, f, r, train, sp):
    """options given on this branch before the training: each exactly those configured"""
    here = train.args[0]
    base = set(train.guards())
    for o in ("n_start", "max_eval", "kpls_dim", "theta_tuning") + (("sparse_method", "seed") if sp else ()):
        es = r.events(pred=lambda e: q.tail(e.name or "") == o and e.args and len(e.args) == 2 and root_is(e.args[0], here))
        ctx.ob(bool(es), f"option:{o}", f"{f.short} trains {'sparse' if sp else 'full'} experts without the option {o}", train.span)
        covered = []
        for e in es:
            v = plain(e.args[1])
            extra = [g for g in e.guards() if g not in base]
            ok, cover = True, not extra
            if o == "sparse_method":
                ok = v.k == "sel" and v.d.split(".")[-1] == "sparse_method" and any(y is select(A[0], "gp_type") for y in within(v))
            elif o == "seed":
                ok = q.uses(v, lambda y: y is select(A[0], "rng")) or any(is_call(x, "rng") for x in q.walk(v))
            elif o == "theta_tuning":
                for g2, w in flat(v):
                    w = plain(w)
                    ok &= w.k == "elem" and plain(w.a[0]) is select(A[0], "theta_tunings")
                    for g3, i in flat(w.a[1]) if ok else ():
                        if i is A[1]:
                            continue
                        for conj in paths(list(g2) + list(g3)):
                            ok &= const_of(i) == 0 and any(shared(c, ed) for c, ed in list(e.guards()) + list(conj))
                cover = None
            else:
                ok = v is select(A[0], o)
            ctx.ob(ok, f"option:{o}", f"{f.short} gives {'sparse' if sp else 'full'} experts {E.show(v, 4)[:200]} for the option {o}", e.span)
            covered.append((cover, extra))
        if o == "theta_tuning":
            ctx.ob(full_cover(covered), "option:theta_tuning", f"{f.short} trains {'sparse' if sp else 'full'} experts without hyperparameter tuning on some path", train.span)
        else:
            ctx.ob(any(c for c, x in covered), f"option:{o}", f"{f.short} gives the option {o} on some paths only", train.span)


def shared(c, ed):
    """one tuning for all: the number of tunings is 1"""
    if c.k == "op" and c.d == "Eq" and holds(ed):
        for a, b in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            if const_of(a) == 1 and is_call(plain(b), "len") and plain(plain(b).a[0]) is select(A[0], "theta_tunings"):
                return True
    return c.k == "op" and c.d == "Eq" and holds(ed) and (const_of(c.a[0]) == 0 and c.a[1] is A[1] or const_of(c.a[1]) == 0 and c.a[0] is A[1]) or \
        c.k == "op" and c.d == "Lt" and const_of(c.a[0]) == 0 and c.a[1] is A[1] and not holds(ed)


def full_cover(cov):
    """the paths given cover all: an assignment of conditions to none of them does not exist"""
    conds = {c for _, x in cov for c, ed in x}
    if len(conds) > 6:
        return False
    conds = list(conds)
    for n in range(2 ** len(conds)):
        val = {c: bool(n >> i & 1) for i, c in enumerate(conds)}
        if not any(all(holds(ed) == val[c] for c, ed in x) for _, x in cov):
            # events on an else branch with a disjunction of guards carry no common guard
            return False
    return True


def paths(gs, most=256):
    """the conjunctions of conditions under which all the guards hold"""
    out = [frozenset()]
    for d in gs:
        out = [c | alt for c in out for alt in d][:most]
    return out


def grown(v, gs=()):
    """(guards, object) before the options it received"""
    v = plain(v)
    if v.k == "phi":
        for g, x in zip(v.d, v.a):
            yield from grown(x, gs + (g,))
    elif v.k == "eff" and q.tail(v.d[0]) in OPTS:
        yield from grown(v.a[v.d[1]], gs)
    else:
        yield gs, v


def root_is(v, here, seen=None):
    if {x for _, x in grown(v)} == {x for _, x in grown(here)}:
        return True
    v = plain(v)
    if v is here or plain(here) is v:
        return True
    if v.k == "eff":
        return root_is(v.a[v.d[1]], here)
    h = plain(here)
    while h.k == "eff":
        h = plain(h.a[h.d[1]])
        if h is v:
            return True
    return False


def setters(ctx):
    n = 0
    for fn in ctx.prog.fns.values():
        if fn.crate != "egobox_moe" or q.tail(fn.trait or "") not in ("GpSurrogateParams", "SgpSurrogateParams") or not fn.blocks or fn.name not in OPTS + ("train",):
            continue
        n += 1
        if fn.name == "train":
            r = ctx.eval(fn, opaque=lambda c, g: g.name == "fit" or c.get("name") == "fit" if isinstance(c, dict) else False)
            es = r.events(pred=lambda e: q.tail(e.name or "") == "fit")
            ok = bool(es) and all(root_is(e.args[0], select(A[0], "0")) for e in es)
            ctx.ob(ok, f"train:{fn.short}", f"{fn.short} does not train with the parameters it received", fn.span)
            continue
        v = ctx.eval(fn, opaque=lambda c, g: g.name == fn.name).arg_final(0)
        w = [x for x in q.walk(v, ALLMU) if x.k == "call" and q.tail(x.d) == fn.name]
        ok = len(w) == 1 and plain(w[0].a[0]) is select(A[0], "0") and plain(w[0].a[1]) is A[1] and v.k in ("upd", "wr", "agg")
        if not ok:
            v2 = plain(v)
            leaves = [x for x in q.walk(v) if x is A[1]]
            upds = [x for x in q.walk(v) if x.k == "upd"]
            ok = bool(leaves) and bool(upds) and all(str(x.d[-1] if isinstance(x.d, tuple) else x.d).endswith(fn.name) for x in upds if x.a[-1] is A[1])
        ok = ok and all(q.uses(x, lambda y: y is A[1]) for _, x in flat(v))
        ok = ok and not any(x.k == "phi" and not all(A[1] in set(within(y)) for y in x.a) for x in within(v) if A[1] in set(within(x)))
        ctx.ob(ok, f"setter:{fn.name}", f"{fn.short} does not set the option {fn.name} to the value given: {E.show(v, 5)[:200]}", fn.span)
    ctx.floor("option setters of experts", n, 16 * 5)


def clusters(ctx):
    f = one(ctx, "train_on_clusters", "egobox_moe")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("find_best_expert", "optimize_heaviside_factor", "train", "sort_by_cluster"))
    es = r.events(pred=lambda e: q.tail(e.name or "") == "find_best_expert")
    ctx.floor("selections of experts", len(es), 1)
    for e in es:
        self_, nc, nx, data = (plain(x) for x in e.args[:4])
        ok = self_ is A[0] and is_call(nx, "ncols") and plain(nx.a[0]) is A[1]
        ctx.ob(ok, "cluster", f"{f.short} selects experts with {E.show(self_, 2)[:80]} and {E.show(nx, 3)[:80]} inputs", e.span)
        ok = data.k == "elem" and any(is_call(x, "sort_by_cluster") for x in q.walk(data)) and nc.k in ("call", "sel", "elem") and const_of(nc) is None
        ctx.ob(ok, "cluster", f"{f.short} selects the expert {E.show(nc, 3)[:100]} on the data {E.show(data, 3)[:120]}", e.span)


def run(ctx):
    ctx.rule = ("tables of kinds: a kind is allowed under the flag of its name, scored under both of its names with the models of these names, selected by smallest error, "
                "and built by the constructor of that name; each option of the mixture reaches the parameters of the expert trained, on each path; each setter forwards its option")
    f = one(ctx, "find_best_expert", "egobox_moe")
    r = ctx.eval(f, opaque=lambda c, g: False)
    allowed(ctx, f, r)
    chosen(ctx, f, r)
    built(ctx, f, r)
    setters(ctx)
    clusters(ctx)
