"""C21: each configured option reaches the computation it controls."""
from vp import engine as E, q
from vp.engine import mk, select, const_of, STAR
from vp.deriv import elem_
from rules.c06 import flat, is_call
from rules.c07 import ALLMU
from rules.c08 import one
from rules.c32 import plain, origins

ASSUMPTIONS = ["the options of a table are those the setters of a configuration write (C20)", "argmin's executor and the clustering libraries follow the parameters they are given"]
A = [mk("param", f"a{i}") for i in range(18)]
CFG = select(A[0], "config")
GP = select(CFG, "gp")


def opt(*path, root=CFG):
    for p in path:
        root = select(root, p)
    return root


def always(v, pred, seen=None):
    """on each path the object has received an effect satisfying pred"""
    seen = set() if seen is None else seen
    if v in seen:
        return True
    seen.add(v)
    if v.k == "eff":
        return pred(v) or always(v.a[v.d[1]] if v.d[1] < len(v.a) else v.a[0], pred, seen)
    if v.k == "phi":
        return all(always(x, pred, seen) for x in v.a)
    if v.k == "mu":
        ops = [x for x in E.MU.get(v, ()) if x is not v]
        return bool(ops) and always(ops[0], pred, seen)
    b = plain(v)
    return b is not v and always(b, pred, seen)


def received(v, name, seen=None):
    """effects of that name in the history of the object"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.k == "eff":
        out = {v} if q.tail(v.d[0]) == name else set()
        return out | received(v.a[v.d[1]] if v.d[1] < len(v.a) else v.a[0], name, seen)
    if v.k in ("phi", "mu"):
        return set().union(set(), *[received(x, name, seen) for x in (v.a if v.k == "phi" else E.MU.get(v, ()))])
    b = plain(v)
    return received(b, name, seen) if b is not v else set()


def guards_on(g, v):
    """edges of the conditions over v in guards (a disjunction of conjunctions each)"""
    return [[e for c, e in alt if c.k == "discr" and c.a[0] is v or c is v] for d in g for alt in d]


def yes(edge):
    return (edge[0] == "in") == ("0" not in [str(k) for k in edge[1:]])


def variants(ctx, name, crate):
    a = ctx.prog.adt(name, crate)
    return {x["n"]: str(x["d"]) for x in a[0]["vs"]}


# ---------------------------------------------------------------- surrogates
BUILDER = {"set_kpls_dim": ("kpls_dim",), "set_regression_spec": ("regression_spec",), "set_correlation_spec": ("correlation_spec",), "set_n_clusters": ("n_clusters",),
           "set_recombination": ("recombination",), "set_optim_params": ("n_start", "max_eval")}


def surrogates(ctx):
    f = one(ctx, "make_clustered_surrogate", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("train", "train_on_clusters", "theta_bounds", "strip", "set_partial_theta_tuning"))
    es = r.events(pred=lambda e: q.tail(e.name or "") in ("train", "train_on_clusters"))
    ctx.floor("trainings of surrogates", len(es), 2)
    tuning = select(GP, "theta_tuning")
    for e in es:
        b = e.args[0]
        for s, fs in BUILDER.items():
            want = [select(GP, x) for x in fs]
            hit = lambda v: q.tail(v.d[0]) == s and v.d[1] == 0 and all(plain(x) is w for x, w in zip(v.a[1:], want))
            ctx.ob(always(b, hit), f"surrogate:{'+'.join(fs)}", f"{f.short} trains surrogates which do not receive the option {' and '.join(fs)}", e.span)
            for x in received(b, s):
                ctx.ob(hit(x), f"surrogate:{'+'.join(fs)}", f"{f.short} gives {[E.show(y, 4)[:150] for y in x.a[1:]]} for the option {' and '.join(fs)}", e.span)
        ctx.ob(all(o is select(A[0], "surrogate_builder") for o in roots(b)), "surrogate:builder", f"{f.short} does not train with the builder of the solver", e.span)
        ctx.ob(always(b, lambda v: q.tail(v.d[0]) == "set_theta_tunings"), "surrogate:theta_tuning", f"{f.short} trains surrogates without their hyperparameter tuning", e.span)
    # tunings
    fixed = variants(ctx, "ThetaTuning", "egobox_gp").get("Fixed")
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "set_theta_tunings"):
        for g, t in tunings(e.args[1]):
            n += 1
            if t is tuning:
                ctx.ob(True, "tuning", "", e.span)
                continue
            if t.k != "agg" or t.d[1] not in ("Fixed", "Full", "Partial"):
                ctx.ob(False, "tuning", f"{f.short} trains surrogates with the tuning {E.show(t, 5)[:300]}, not read", e.span)
                continue
            d = dict(zip(t.d[3], t.a))
            ini = d.get("init", d.get("0"))
            ok = any(is_start(o, tuning, A[7]) for o in deep(ini)) and all(is_start(o, tuning, A[7]) for o in deep(ini))
            ctx.ob(ok, "tuning:init", f"{f.short} starts hyperparameters from {[E.show(o, 5)[:200] for o in deep(ini)]}, neither the configured ones nor previous ones", e.span)
            if t.d[1] != "Fixed":
                ctx.ob(never_fixed(g, tuning, fixed), "tuning:fixed", f"{f.short} optimizes hyperparameters the user fixed: {E.show(t, 4)[:200]}", e.span)
                b = plain(d["bounds"])
                ok = is_call(b, "theta_bounds") and b.a[0] is tuning and b.a[2] is select(GP, "correlation_spec")
                ctx.ob(ok, "tuning:bounds", f"{f.short} bounds hyperparameters by {E.show(b, 5)[:200]}, not by the configured bounds", e.span)
    ctx.floor("hyperparameter tunings", n, 3)
    # bounds
    f = one(ctx, "theta_bounds", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name == "special_bounds")
    n = 0
    for g, v in flat(r.val()):
        v = plain(v)
        given = [x for x in q.walk(v, ALLMU) if x.k == "sel" and "bounds" in str(x.d) and q.uses(x, lambda y: y is A[0])]
        special = [x for x in q.walk(v, ALLMU) if is_call(x, "special_bounds")]
        if special:
            # only when the user gave none, or the default ones
            conds = [c for d in g for alt in d for c, ed in alt]
            inner = [c for x in q.walk(v, ALLMU) if x.k == "phi" for d in x.d for alt in d for c, ed in alt]
            ok = not given and none_given(conds, A[0]) or (conds or inner) and any(default_cmp(c) for c in conds + inner)
            ctx.ob(ok, "bounds:default", f"{f.short} replaces configured bounds", f.span)
        else:
            ctx.ob(bool(given), "bounds:given", f"{f.short} bounds by {E.show(v, 5)[:200]}, not by the configured bounds", f.span)
            n += 1
    ctx.floor("uses of configured bounds", n, 1)


def none_given(conds, t):
    return any(c.k == "discr" for c in conds)


def default_cmp(c):
    return c.k in ("op", "call") and (q.uses(c, lambda y: y.k == "const" and "DEFAULT_BOUNDS" in str(y.d[0])) or any(x.k == "agg" and x.d[0] in ("", None, "tuple") for x in c.a)) or c.k == "op" and c.d in ("Eq", "Ne")


def roots(v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.k == "eff":
        return roots(v.a[v.d[1]] if v.d[1] < len(v.a) else v.a[0], seen)
    if v.k in ("phi", "mu"):
        return set().union(set(), *[roots(x, seen) for x in (v.a if v.k == "phi" else E.MU.get(v, ()))])
    b = plain(v)
    return roots(b, seen) if b is not v else {v}


def tunings(v, g=(), seen=None):
    """[(guards, tuning)] held by a list of tunings"""
    seen = set() if seen is None else seen
    if (g, v) in seen:
        return []
    seen.add((g, v))
    if v.k == "phi":
        return [z for d, w in zip(v.d, v.a) for z in tunings(w, g + (d,), seen)]
    if is_call(v, "map", "filter_map"):
        return tunings(v.a[-1], g, seen)
    if is_call(v, "from_ref", "from_elem", "collect", "from_fn") or v.k == "call" and q.tail(v.d) in ("repeat", "repeat_n"):
        return tunings(v.a[0], g, seen)
    if v.k == "eff" and q.tail(v.d[0]) == "set_partial_theta_tuning":
        return tunings(v.a[-1], g, seen)  # C32 decides the partial tunings
    if v.k == "eff" and q.tail(v.d[0]) == "push":
        return tunings(v.a[0], g, seen) + tunings(v.a[1], g, seen)
    if v.k == "mu":
        return [z for x in E.MU.get(v, ()) if x is not v for z in tunings(x, g, seen)]
    if is_call(v, "new", "with_capacity") and "Vec" in str(v.d):
        return []
    if v.k == "agg" and v.d[1] not in ("Fixed", "Full", "Partial"):
        return [z for x in v.a for z in tunings(x, g, seen)]
    b = plain(v)
    return tunings(b, g, seen) if b is not v else [(g, v)]


def deep(v):
    """origins through rows of tables"""
    out = set()
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        for o in origins(x):
            if o in seen:
                continue
            seen.add(o)
            o2 = elem_(o)
            if o2.k == "elem":
                todo.append(o2.a[0])
            elif o2.k == "wr":
                todo += [o2.a[1]] + ([o2.a[0]] if not is_call(plain(o2.a[0]), "zeros", "default", "uninit") else [])
            elif o2.k == "mu" or o2.k == "phi":
                todo.append(o2)
            elif is_call(o2, "zeros"):
                pass
            elif is_call(o2, "from_shape_vec"):
                todo.append(o2.a[1])
            elif is_call(o2, "map", "flat_map", "flatten", "broadcast"):
                todo.append(o2.a[-1] if not is_call(o2, "broadcast") else o2.a[0])
            else:
                out.add(o2)
    return out


def is_start(o, tuning, given):
    o = plain(o)
    if o.k == "sel" and str(o.d).endswith(".init") or o.k == "sel" and str(o.d) in ("init", "0"):
        return q.uses(o, lambda y: y is tuning)
    if is_call(o, "init") or is_call(o, "theta"):
        return True
    return q.uses(o, lambda y: y is tuning or y is given) or any(is_call(y, "theta", "experts") for y in q.walk(o))


def never_fixed(g, tuning, fixed):
    """the guards exclude a fixed tuning"""
    for d in g:
        if all(any(excludes(c, e, tuning, fixed) for c, e in alt) for alt in d):
            return True
    return False


def excludes(c, e, tuning, fixed, depth=0):
    if c.k == "discr" and c.a[0].k == "phi" and all(w.k == "agg" and w.d[1] in ("None", "Some") for w in c.a[0].a):
        # an optional part of the tuning
        alts = [d for d, w in zip(c.a[0].d, c.a[0].a) if (w.d[1] == "Some") == yes(e)]
        return bool(alts) and all(any(excludes(c2, e2, tuning, fixed, depth + 1) for c2, e2 in alt) for d in alts for alt in d)
    if c.k == "discr":
        return c.a[0] is tuning and (e[0] == "notin" and fixed in [str(k) for k in e[1:]] or e[0] == "in" and fixed not in [str(k) for k in e[1:]])
    if c.k == "op" and c.d in ("Eq", "Ne") and c.a[0].k == "discr" and const_of(c.a[1]) is not None:
        return excludes(c.a[0], ("in" if (c.d == "Eq") == yes(e) else "notin", str(const_of(c.a[1]))), tuning, fixed, depth)
    if c.k == "op" and c.d == "Not":
        return excludes(c.a[0], ("in", "0") if yes(e) else ("notin", "0"), tuning, fixed)
    if c.k == "phi" and depth < 4:
        # alternatives which may give that value of the condition
        t = yes(e)
        alts = [(d, w) for d, w in zip(c.d, c.a) if const_of(w) is None or bool(const_of(w)) == t]
        return bool(alts) and all(all(any(excludes(c2, e2, tuning, fixed, depth + 1) for c2, e2 in alt) for alt in d) or const_of(w) is None and excludes(w, e, tuning, fixed, depth + 1) for d, w in alts)
    return False


# ---------------------------------------------------------------- solver
def start(ctx):
    f = one(ctx, "init", "egobox_ego", "EgorSolver")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("eval_obj", "eval_problem_fcstrs", "find_best_result_index"))
    st = select(select(r.val(), "!"), "0")
    bare = lambda v: v.a[0] if v.k == "op" and v.d in ("cast", "trunc") or v.k == "call" and q.tail(v.d) in ("from", "into", "try_into") else v
    ctx.ob(bare(plain(select(st, "max_iters"))) is opt("max_iters"), "start:max_iters", f"{f.short} bounds the number of iterations by {E.show(select(st, 'max_iters'), 5)[:200]}", f.span)
    ctx.ob(plain(select(st, "target_cost")) is opt("target"), "start:target", f"{f.short} stops at {E.show(select(st, 'target_cost'), 5)[:200]}", f.span)
    # initial plan
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "sample"):
        v = e.args[1]
        for g, x in flat(v):
            n += 1
            ok = plain(x) is opt("n_doe") or guards_zero(g, opt("n_doe"))
            ctx.ob(ok, "start:n_doe", f"{f.short} draws {E.show(x, 4)[:200]} points although a number is configured", e.span)
        ctx.ob(q.uses(v, lambda y: y is opt("n_doe")), "start:n_doe", f"{f.short} does not draw the configured number of points", e.span)
        ctx.ob(any(guards_none(c, e2, opt("doe")) for c, e2 in e.guards()), "start:doe", f"{f.short} draws points although some are configured", e.span)
    ctx.floor("initial plans", n, 1)
    # configured points are used unless a file replaces them
    xs = select(select(select(st, "data"), "!"), "0")
    ctx.ob(any(q.uses(x, lambda y: y is opt("doe")) for _, x in flat(xs)), "start:doe", f"{f.short} does not use the configured points", f.span)
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "read_npy"):
        gs = [c for c, ed in e.guards() if yes(ed)]
        ctx.ob(any(reads(c, opt("warm_start")) for c in gs), "start:warm_start", f"{f.short} reads saved points when no warm start is configured", e.span)
    act = select(st, "activity")
    for g, x in flat(act):
        some = x.k == "agg" and x.d[1] == "Some"
        ok = any(any(c is opt("coego", "activated") and yes(ed) == some for c, ed in alt) for d in g for alt in d)
        ctx.ob(ok, "start:coego", f"{f.short} makes groups of components against the configuration", f.span)


def reads(c, o):
    return c is o or q.uses(c, lambda y: y is o) or any(y is o for y in q.walk(c, control=True))


def guards_zero(g, o):
    """the guards say the option is zero"""
    def zero(c, ed):
        if c is o:
            return not yes(ed)
        if c.k != "op" or len(c.a) != 2 or not any(y is o for y in c.a):
            return False
        k, left = const_of(c.a[1] if c.a[0] is o else c.a[0]), c.a[0] is o
        t = yes(ed)
        return (c.d, k, left, t) in {("Eq", 0, True, True), ("Eq", 0, False, True), ("Ne", 0, True, False), ("Ne", 0, False, False), ("Lt", 1, True, True), ("Le", 0, True, True),
                                     ("Lt", 0, False, False), ("Le", 1, False, False), ("Gt", 0, True, False), ("Ge", 1, True, False)}
    return any(all(any(zero(c, ed) for c, ed in alt) for alt in d) for d in g)


def guards_none(c, ed, o):
    return c.k == "discr" and any(y is o for y in q.walk(c, control=True)) and not yes(ed) or c.k in ("call", "op") and any(y is o for y in q.walk(c, control=True))


def steps_(ctx):
    f = one(ctx, "next_iter", "egobox_ego", "EgorSolver")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("trego_iteration", "ego_iteration", "get_random_activity"))
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") in ("trego_iteration", "ego_iteration", "get_random_activity")):
        n += 1
        t = q.tail(e.name)
        o = opt("coego", "activated") if t == "get_random_activity" else opt("trego", "activated")
        want = t != "ego_iteration"
        same = lambda c: c.k == "sel" and c.d == "activated" and c.a[0].k == "sel" and c.a[0].d == o.a[0].d
        ok = any(yes(ed) == want and all(same(x) for x in (c.a if c.k == "phi" else (c,))) for c, ed in e.guards())
        ctx.ob(ok, f"step:{t}", f"{f.short} calls {t} against the configuration", e.span)
    ctx.floor("kinds of iterations", n, 3)
    f = one(ctx, "trego_iteration", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("trego_step", "ego_iteration", "refresh_surrogates", "refresh_infill_data"))
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") in ("trego_step", "ego_iteration")):
        n += 1
        ok = any(y is opt("trego", "n_local_steps") for c, _ in e.guards() for y in q.walk(c, control=True))
        ctx.ob(ok, "step:n_local_steps", f"{f.short} alternates global and local steps without the configured number", e.span)
    ctx.floor("global and local steps", n, 2)
    # number of models and of points
    f = one(ctx, "select_next_points", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("make_clustered_surrogate", "compute_virtual_point", "optimize_infill_criterion", "full_activity", "compute_scaling"))
    es = r.events(pred=lambda e: q.tail(e.name or "") == "make_clustered_surrogate")
    ctx.floor("trained models", len(es), 1)
    for e in es:
        o = e.args[5]
        mods = [x for x in q.walk(o, ALLMU, control=True) if (is_call(x, "is_multiple_of") or x.k == "op" and x.d == "Rem") and x.a[1] is opt("q_optmod")]
        ctx.ob(bool(mods), "points:q_optmod", f"{f.short} optimizes hyperparameters whatever the configured period", e.span)
        for m in mods:
            nc = lambda v: v.a[0] if v.k == "op" and v.d in ("cast", "trunc") or v.k == "call" and q.tail(v.d) in ("from", "into", "try_into") else v
            ok = any(x.k == "op" and x.d == "Mul" and {nc(y) for y in x.a} == {A[2], opt("q_points")} for x in q.walk(m.a[0]))
            ctx.ob(ok, "points:q_optmod", f"{f.short} counts {E.show(m.a[0], 5)[:200]} for the period of the optimization of hyperparameters, not the points added so far", e.span)
        k = [x for x in q.walk(e.args[3], ALLMU) if is_call(x, "range", "index") and (q.uses(x, lambda y: y is opt("n_cstr")) or is_call(x, "index"))]
        ctx.ob(bool(k), "points:n_cstr", f"{f.short} does not train one model for the objective and each of the configured constraints", e.span)
    # virtual points
    f = one(ctx, "compute_virtual_point", "egobox_ego")
    r = ctx.eval(f)
    names = {str(d): n for n, d in variants(ctx, "QEiStrategy", "egobox_ego").items()}
    COEF = {"KrigingBeliever": 0.0, "KrigingBelieverLowerBound": -3.0, "KrigingBelieverUpperBound": 3.0}
    qd = [x for x in q.walk(r.val(), ALLMU, control=True) if x.k == "discr" and x.a[0] is opt("q_ei")]
    ctx.ob(bool(qd), "points:q_ei", f"{f.short} does not depend on the configured strategy", f.span)
    n = 0
    for d, nm in names.items():
        eqs = {}
        for x in q.walk(r.val(), ALLMU, control=True):
            if x.k == "discr" and x.a[0] is opt("q_ei"):
                eqs[x] = mk("const", (d, "isize"))
            elif x.k == "call" and q.tail(x.d) in ("eq", "ne") and x.a[0] is opt("q_ei") and x.a[1].k == "agg":
                eqs[x] = mk("const", ((x.a[1].d[1] == nm) == (q.tail(x.d) == "eq"), "bool"))
            elif x.k == "op" and x.d in ("Eq", "Ne") and any(y is opt("q_ei") for y in x.a) and any(y.k == "agg" for y in x.a):
                eqs[x] = mk("const", ((next(y for y in x.a if y.k == "agg").d[1] == nm) == (x.d == "Eq"), "bool"))
        got = coefficient(r, eqs, d, nm)
        n += 1
        if nm == "ConstantLiarMinimum":
            continue
        ctx.ob(got == COEF.get(nm), f"points:q_ei:{nm}", f"{f.short} shifts the believed value by {got} standard deviations for {nm}", f.span)
    ctx.floor("strategies of parallel points", n, 4)


def coefficient(r, eqs, d, nm):
    """number of standard deviations added to the prediction"""
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "push"):
        v = e.args[1]
        p = [x for x in q.walk(v) if is_call(x, "sqrt", "predict_var") or x.k == "op" and x.d == "sqrt"]
        if not p:
            continue
        for x in q.walk(v):
            if x.k == "phi" and any(c.k == "discr" and c.a[0] is opt("q_ei") for dd in x.d for alt in dd for c, _ in alt):
                for dd, w in zip(x.d, x.a):
                    for alt in dd:
                        ok = all((ed[0] == "in") == (d in [str(k) for k in ed[1:]]) for c, ed in alt if c.k == "discr" and c.a[0] is opt("q_ei"))
                        if ok:
                            return const_of(w)
        return "no"
    return None


def infill(ctx):
    f = one(ctx, "optimize_infill_criterion", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("set_active_x", "get_active_x", "eval_infill_obj", "is_objective_improved", "minimize", "multistart"))
    es = r.events(pred=lambda e: (e.name or "").endswith("Optimizer::new"))
    ctx.floor("inner optimizers", len(es), 1)
    names = {str(d): n for n, d in variants(ctx, "InfillOptimizer", "egobox_ego").items()}
    for e in es:
        seen = set()
        for g, x in flat(e.args[0]):
            for d, nm in names.items():
                may = any(all((ed[0] == "in") == (d in [str(k) for k in ed[1:]]) for c, ed in alt if c.k == "discr" and c.a[0] is opt("infill_optimizer")) and any(c.k == "discr" and c.a[0] is opt("infill_optimizer") for c, ed in alt) for dd in g for alt in dd)
                if may:
                    seen.add(nm)
                    ctx.ob(x.k == "agg" and x.d[1] == nm, f"infill:optimizer:{nm}", f"{f.short} optimizes with {E.show(x, 3)} when {nm} is configured", e.span)
        ctx.ob(seen == set(names.values()), "infill:optimizer", f"{f.short} does not choose the optimizer with the configured option", e.span)
    es = r.events(pred=lambda e: q.tail(e.name or "") == "multistart")
    ctx.floor("draws of starting points", len(es), 1)
    for e in es:
        ctx.ob(plain(e.args[1]) is opt("n_start"), "infill:n_start", f"{f.short} draws {E.show(e.args[1], 4)[:200]} starting points, not the configured number", e.span)
    # constraints
    n = 0
    todo, seen = [], set()
    for e in r.events():
        for a in e.args:
            todo += [x for x in q.walk(a, ALLMU) if x.k == "clo"]
    while todo:
        x = todo.pop()
        g = ctx.prog.fns.get(x.d)
        if g is None or x.d in seen:
            continue
        seen.add(x.d)
        r2 = ctx.eval(g, args={0: x}, opaque=lambda c, h: h.name in ("set_active_x", "get_active_x", "mean_cstr", "upper_trust_bound_cstr", "eval_infill_obj", "eval_infill_obj_with_cstrs", "eval_grad_infill_obj", "eval_grad_infill_obj_with_cstrs"))
        for y in q.walk(r2.val(), ALLMU):
            if y.k == "clo":
                todo.append(y)
        for e in r2.events(pred=lambda e: q.tail(e.name or "") in ("mean_cstr", "upper_trust_bound_cstr")):
            n += 1
            want = q.tail(e.name) == "mean_cstr"
            ok = any(strategy(c, ed) == ("MeanConstraint" if want else "UpperTrustBound") for c, ed in e.guards())
            ctx.ob(ok, f"infill:{q.tail(e.name)}", f"{f.short} uses {q.tail(e.name)} against the configured strategy", e.span)
    ctx.floor("constraint strategies", n, 2)


def strategy(c, ed):
    """strategy the condition selects"""
    o = "cstr_strategy"
    if c.k in ("call", "op") and (c.k == "op" and c.d in ("Eq", "Ne") or q.tail(c.d) in ("eq", "ne")) and len(c.a) == 2:
        for x, y in (c.a, c.a[::-1]):
            if x.k == "sel" and x.d == o and y.k == "agg":
                t = ("eq" in str(c.d).lower().split("::")[-1]) == yes(ed)
                other = {"MeanConstraint": "UpperTrustBound", "UpperTrustBound": "MeanConstraint"}
                return y.d[1] if t else other.get(y.d[1])
            if x.k == "discr" and x.a[0].k == "sel" and x.a[0].d == o:
                v = const_of(y) if const_of(y) is not None else (const_of(y.a[0]) if y.a else None)
                nm = {0: "MeanConstraint", 1: "UpperTrustBound"}.get(int(v)) if v is not None else None
                t = (c.d in ("Eq",) or q.tail(str(c.d)) == "eq") == yes(ed)
                return nm if t else {"MeanConstraint": "UpperTrustBound", "UpperTrustBound": "MeanConstraint"}.get(nm)
    if c.k == "phi" and all(const_of(w) is not None for w in c.a):
        got = {strategy(c2, e2) for d, w in zip(c.d, c.a) if bool(const_of(w)) == yes(ed) for alt in d for c2, e2 in alt}
        return got.pop() if len(got) == 1 else None
    if c.k == "discr" and c.a[0].k == "sel" and c.a[0].d == o:
        ks = [str(k) for k in ed[1:]]
        if ed[0] == "in" and len(ks) == 1:
            return {"0": "MeanConstraint", "1": "UpperTrustBound"}.get(ks[0])
        if ed[0] == "notin" and len(ks) == 1:
            return {"1": "MeanConstraint", "0": "UpperTrustBound"}.get(ks[0])
    return None


# ---------------------------------------------------------------- Gaussian processes
def training(ctx):
    for has, root in (("GpValidParams", A[0]), ("SgpValidParams", select(A[0], "gp_params"))):
        f = one(ctx, "fit", "egobox_gp", has)
        r = ctx.eval(f, opaque=lambda c, g: g.name in ("prepare_multistart", "optimize_params", "reduced_likelihood", "value"))
        n = {"prepare_multistart": 0, "optimize_params": 0, "reduced_likelihood": 0, "params": 0}
        for e in r.events():
            t = q.tail(e.name or "")
            if t not in n or t == "params" and "Pls" not in (e.name or ""):
                continue
            n[t] += 1
            if t == "prepare_multistart":
                ctx.ob(e.args[0] is select(root, "n_start"), f"gp:n_start:{has}", f"{f.short} makes {E.show(e.args[0], 4)} starts, not the configured number", e.span)
            elif t == "optimize_params":
                me = [select(a, "maxeval") for a in e.args if a.k == "agg" and "maxeval" in a.d[3]]
                ok = len(me) == 1 and below(me[0], select(root, "max_eval"))
                ctx.ob(ok, f"gp:max_eval:{has}", f"{f.short} bounds the likelihood evaluations by {[E.show(x, 5)[:200] for x in me]}, not by the configured number", e.span)
            elif t == "reduced_likelihood":
                ctx.ob(e.args[-1] is select(root, "nugget"), f"gp:nugget:{has}", f"{f.short} adds the nugget {E.show(e.args[-1], 4)[:200]}, not the configured one", e.span)
            else:
                ctx.ob(plain(e.args[0]) is select(root, "kpls_dim") and plain(e.args[0]) is not e.args[0], f"gp:kpls_dim:{has}", f"{f.short} reduces the inputs to {E.show(e.args[0], 4)[:200]} components, not to the configured number", e.span)
                ctx.ob(any(c.k == "discr" and c.a[0] is select(root, "kpls_dim") and yes(ed) for c, ed in e.guards()), f"gp:kpls_dim:{has}", f"{f.short} reduces the inputs when it is not configured", e.span)
        ctx.floor(f"sinks of the options of {has}", sum(1 for v in n.values() if v), 4)
        # a fixed tuning is what the model is left with
        fixed = variants(ctx, "ThetaTuning", "egobox_gp").get("Fixed")
        tun = select(root, "theta_tuning")
        th = [select(x, "theta") for x in q.walk(r.val()) if x.k == "agg" and x.d[3] and "theta" in x.d[3] and "likelihood" in x.d[3]]
        ctx.ob(bool(th), f"gp:theta:{has}", f"{f.short}: the trained model is not read", f.span)
        for v in th:
            for g, x in flat(v):
                if any(is_call(y, "optimize_params", "reduce") for y in q.walk(x, ALLMU)):
                    ctx.ob(never_fixed(g, tun, fixed), f"gp:fixed:{has}", f"{f.short} gives optimized hyperparameters to a model with fixed ones", f.span)
        if has == "SgpValidParams":
            aggs = [x for x in q.walk(r.val()) if x.k == "agg" and x.d[3] and "sigma2" in x.d[3] and "noise" in x.d[3]]
            opt_ = variants(ctx, "ParamTuning", "egobox_gp")
            for a in aggs:
                d = dict(zip(a.d[3], a.a))
                ctx.ob(plain(d["method"]) is select(A[0], "method"), "sgp:method", f"{f.short} does not keep the configured method", f.span)
                for g, x in flat(d["noise"]):
                    if any(is_call(y, "optimize_params", "reduce") for y in q.walk(x, ALLMU)):
                        ctx.ob(never_fixed(g, select(A[0], "noise"), opt_.get("Fixed")), "sgp:noise", f"{f.short} estimates a noise variance the user fixed", f.span)
                zs = {z for z in origins(d["inducings"])}
                ctx.ob(any(z.k == "sel" and q.uses(z, lambda y: y is select(A[0], "z")) for z in zs), "sgp:inducings", f"{f.short} does not keep the configured inducing points: {[E.show(z, 5)[:150] for z in zs]}", f.span)
            ctx.floor("sparse models", len(aggs), 1)


def below(v, o):
    """v is at most o (or o at least some constant)"""
    if v is o:
        return True
    if v.k in ("call", "op"):
        t = q.tail(str(v.d)).lower()
        if t == "clamp":
            return v.a[2] is o
        if t == "min":
            return any(below(x, o) for x in v.a)
    return False


def run(ctx):
    ctx.rule = ("Definition-to-use dataflow over the value graph: at each sink (surrogate builder, trainer, sampler, inner optimizer, state of the run, likelihood, reduction, kinds of steps) the value handed is the configured option, "
                "on every path, and choices between alternatives are made by the option which names them; fixed hyperparameters exclude every optimized alternative.")
    surrogates(ctx)
    start(ctx)
    steps_(ctx)
    infill(ctx)
    training(ctx)
