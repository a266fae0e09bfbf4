"""C22: the Python interface hands its arguments to the Rust engine faithfully."""
from vp import engine as E, q
from vp.engine import mk, select, num
from vp.facts import last_ident

ASSUMPTIONS = ["the code generated by pyo3 passes each Python argument to the Rust parameter of the same name", "numpy conversions are exact"]
A = [mk("param", f"a{i}") for i in range(24)]
S = A[0]
RENAMED = {"corr_spec": "correlation_spec", "value": "val", "tolerance": "tol"}
CONV = {"to_owned_array", "as_array", "to_owned", "into", "clone", "to_vec"}


def bare(v, deep=8):
    """the value without exact conversions and Option wrapping"""
    for _ in range(deep):
        if v.k == "agg" and v.d[1] in ("Some",) and len(v.a) == 1:
            v = v.a[0]
        elif v.k == "agg" and v.d[1] == "CorrelationSpec" or v.k == "agg" and len(v.a) == 1 and last_ident(v.d[0]) in ("CorrelationSpec", "RegressionSpec"):
            v = v.a[0]
        elif v.k == "sel" and v.d == "!":
            v = v.a[0]
        elif v.k == "call" and len(v.a) >= 1 and q.tail(v.d) in CONV:
            v = v.a[0]
        elif v.k == "phi":
            # an optional value handed over when there is one
            w = [x for x in v.a if not (x.k == "agg" and x.d[1] == "None")]
            if len(w) != 1:
                return v
            v = w[0]
        else:
            return v
    return v


def at(v, node, variant, i):
    """v when the enum-valued node is the given variant"""
    return q.assume(v, {node: mk("agg", ("case", variant, i, ()), ())})


def head(v):
    """name of the selected variant or criterion"""
    if v.k == "agg":
        return v.d[1] or last_ident(v.d[0])
    if v.k == "const":
        s = str(v.d[0])
        return last_ident(s[4:]) if s.startswith("def:") else last_ident(str(v.d[1]))
    return E.show(v, 4)


INFILL = {"Ei": ("ExpectedImprovement", "EI"), "LogEi": ("LogExpectedImprovement", "LOG_EI"), "Wb2": ("WB2",), "Wb2s": ("WB2S",)}
TABLES = {
    "cstr_strategy": ("ConstraintStrategy", "cstr_strategy", {"Mc": ("MeanConstraint",), "Utb": ("UpperTrustBound",)}),
    "q_ei": ("QInfillStrategy", "q_infill_strategy", {"Kb": ("KrigingBeliever",), "Kblb": ("KrigingBelieverLowerBound",), "Kbub": ("KrigingBelieverUpperBound",), "Clmin": ("ConstantLiarMinimum",)}),
    "infill_optimizer": ("InfillOptimizer", "infill_optimizer", {"Cobyla": ("Cobyla",), "Slsqp": ("Slsqp",)}),
    "infill_criterion": ("InfillStrategy", "infill_strategy", INFILL),
}


def run(ctx):
    ctx.rule = ("For every Python class of the bindings: the constructor stores each argument under its own name; each stored argument reaches the engine's option of the same meaning (a table of option and argument pairs "
                "confirmed by reading, each pair derived from the source); each value of a Python enumeration selects the Rust variant of that name, for all of them; results are returned under their own names.")
    prog = ctx.prog
    var = lambda n: [(v["n"], v["d"]) for v in prog.adt(n, "egobox")[0]["vs"]]

    def table(key, v, node, enum, want, span):
        vs = var(enum)
        ctx.ob({n for n, _ in vs} == set(want), key + ":values", f"{enum} has the values {sorted(n for n, _ in vs)}, {sorted(want)} confirmed by reading", span)
        for n, d in vs:
            h = head(at(v, node, n, d))
            ctx.ob(h in want.get(n, ()), f"{key}:{n}", f"{enum}::{n} selects {h} instead of {want.get(n, ('?',))[0]}", span)

    # ---- constructors
    n = 0
    for cls, argn in (("Egor", 21), ("GpMix", 10), ("SparseGpMix", 9), ("GpConfig", 9), ("XSpec", 3), ("ExpectedOptimum", 2), ("RunInfo", 2), ("Gpx::builder", 10), ("SparseGpx::builder", 9)):
        f = ctx.fn(cls if "::" in cls else cls + "::new", "egobox")
        names = {p["l"] - 1: nm for nm, p in reversed(f.j["names"]) if not p["p"] and 1 <= p["l"] <= f.argc}
        v = ctx.eval(f).val()
        k = 0
        for i, nm in sorted(names.items()):
            if nm.lstrip("_") == "py":
                continue
            k += 1
            want = RENAMED.get(nm, nm)
            got = [(p, x) for p, x in flat(v) if bare(x) is A[i] or x is A[i]]
            ctx.ob([p for p, _ in got] == [want] or [p for p, _ in got] == [nm], f"new:{cls}:{nm}", f"{cls}: the argument {nm} is stored in {[p for p, _ in got]}", f.span)
            n += 1
        ctx.ob(k >= argn, f"new:{cls}", f"{cls} takes {k} arguments, {argn} confirmed by reading", f.span)
        if cls in ("Egor", "GpMix", "SparseGpMix", "GpConfig", "XSpec", "RunInfo", "ExpectedOptimum"):
            # nothing else is stored
            for p, x in flat(v):
                ctx.ob(q.params(x) and len(q.params(x)) == 1, f"new:{cls}:field:{p}", f"{cls}.{p} is {E.show(x, 4)}", f.span)
    ctx.floor("constructor arguments", n, 73)

    # ---- Egor configuration
    f = ctx.fn("Egor::apply_config", "egobox")
    r = ctx.eval(f)
    cfg = select(r.val(), "0")
    old = select(A[1], "0")
    g = lambda *p: path(cfg, p)
    for o in ("n_start", "n_doe", "n_cstr", "q_optmod", "q_points", "target", "warm_start", "cstr_infill", "hot_start"):
        v = g(o)
        ctx.ob(v is select(S, o) or q_call(v, "into", select(S, o)), f"egor:{o}", f"Egor.{o}: the engine gets {E.show(v, 5)}", f.span)
    for o, src in (("outdir", "outdir"), ("seed", "seed")):
        opt(ctx, f"egor:{o}", g(o), select(S, src), select(old, o), f.span)
    opt(ctx, "egor:doe", g("doe"), A[4], select(old, "doe"), f.span)
    v = g("max_iters")
    ctx.ob(q.assume(v, {mk("discr", None, (A[2],)): num(1)}) is select(A[2], "!"), "egor:max_iters", f"max_iters becomes {E.show(v, 5)}", f.span)
    v = g("trego", "activated")
    ctx.ob(v is select(S, "trego"), "egor:trego", f"trego becomes {E.show(v, 5)}", f.span)
    for x, want in ((3, True), (0, False)):
        w = q.assume(g("coego"), {select(S, "coego_n_coop"): num(x)})
        ok = E.const_of(select(w, "activated")) in (want, int(want)) and (not want or E.is_num(select(w, "n_coop"), 3))
        ctx.ob(ok, f"egor:coego_n_coop:{x}", f"coego_n_coop={x} configures {E.show(w, 5)}", f.span)
    v = g("cstr_tol")
    d = mk("discr", None, (select(S, "cstr_tol"),))
    given = q.assume(v, {d: num(1)})
    ctx.ob(bare(given) is select(S, "cstr_tol"), "egor:cstr_tol", f"the given tolerances become {E.show(given, 6)}", f.span)
    dflt = bare(q.assume(v, {d: num(0)}))
    if not (dflt.k == "agg" and dflt.d[1] == "None" or dflt is select(old, "cstr_tol")):
        ok = dflt.k == "call" and q.tail(dflt.d) == "from_elem" and q.poly(dflt.a[1]) == q.poly(E.op("Add", A[3], select(S, "n_cstr")))
        ctx.ob(ok, "egor:cstr_tol:default", f"the default tolerances are {E.show(dflt, 6)}", f.span)
    for o, (enum, src, want) in TABLES.items():
        table(f"egor:{o}", g(o), select(S, src), enum, want, f.span)
    gp = select(S, "gp_config")
    gp_options(ctx, prog, "egor", lambda o: g("gp", o), gp, f.span, table)
    v = g("gp", "n_start")
    ctx.ob(E.is_num(q.assume(v, {select(gp, "n_start"): num(7)}), 7), "egor:gp:n_start", f"n_start becomes {E.show(v, 5)}", f.span)
    th = g("gp", "theta_tuning")
    theta(ctx, "egor", th, gp, f.span)
    fixed(ctx, "egor", th, gp, f.span)
    v = g("gp", "max_eval")
    ctx.ob(v is select(gp, "max_eval"), "egor:gp:max_eval", f"max_eval becomes {E.show(v, 5)}", f.span)
    # hot start mode
    fs = [x for x in prog.fns.values() if x.crate == "egobox_ego" and x.name == "from" and last_ident(x.selfh or "") == "HotStartMode"]
    ctx.ob(len(fs) == 1, "hot_start", "the conversion of hot_start was not found")
    for h in fs:
        v = ctx.eval(h, selfty=h.selfh).val()
        d = mk("discr", None, (A[0],))
        for nm, fa, want in (("None", {d: num(0)}, "Disabled"), ("0", {d: num(1), select(A[0], "!"): num(0)}, "Enabled"), ("5", {d: num(1), select(A[0], "!"): num(5)}, "ExtendedIters")):
            w = q.assume(v, fa)
            ok = w.k == "agg" and w.d[1] == want and (want != "ExtendedIters" or E.is_num(w.a[0], 5))
            ctx.ob(ok, f"hot_start:{nm}", f"hot_start={nm} selects {E.show(w, 4)}", h.span)

    # ---- Egor operations
    OP = {"apply_config", "run", "suggest", "parse", "min_within_mixint_space", "find_best_result_index"}
    stop = lambda c, fn: fn.name in OP
    f = ctx.fn("Egor::minimize", "egobox")
    v = ctx.eval(f, opaque=stop).val()
    calls = {}
    for x in q.walk(v):
        if x.k == "call":
            calls.setdefault(q.tail(x.d), []).append(x)
    one = lambda t: calls[t][0] if len(calls.get(t, ())) == 1 else None
    ac, run_, mw, ps = one("apply_config"), one("run"), one("min_within_mixint_space"), one("parse")
    if ctx.ob(all((ac, run_, mw, ps)), "minimize", f"minimize: the configuration, domain or run was not found once: { {k: len(x) for k, x in calls.items()} }", f.span):
        ctx.ob(ac.a[0] is S, "minimize:config", f"minimize configures {E.show(ac.a[0], 4)}", f.span)
        ctx.ob(bare(ac.a[2]) is A[4], "minimize:max_iters", f"minimize: max_iters becomes {E.show(ac.a[2], 5)}", f.span)
        ctx.ob(ac.a[3].k == "call" and q.tail(ac.a[3].d) == "len" and q.params(ac.a[3]) == {"a3"}, "minimize:n_fcstr", f"minimize: the number of function constraints becomes {E.show(ac.a[3], 5)}", f.span)
        ctx.ob(bare(ac.a[4]) is select(S, "doe"), "minimize:doe", f"minimize: the initial doe becomes {E.show(ac.a[4], 5)}", f.span)
        ctx.ob(mw.a[1] is ps and any(x is ac for x in q.walk(mw.a[0])), "minimize:domain", f"minimize: the domain becomes {E.show(mw.a[1], 5)}", f.span)
        ctx.ob(any(x is select(S, "xspecs") for x in q.walk(ps)), "minimize:xspecs", f"minimize: the domain is read from {E.show(ps, 5)}", f.span)
        fac = mw.a[0]
        fo, fc = select(fac, "fobj"), select(fac, "fcstrs")
        ctx.ob("a2" in q.params(fo), "minimize:fun", f"minimize: the objective becomes {E.show(fo, 5)}", f.span)
        ctx.ob("a3" in q.params(fc), "minimize:fcstrs", f"minimize: the constraints become {E.show(fc, 5)}", f.span)
        ctx.ob(any(x is mw for x in q.walk(run_.a[0])), "minimize:run", "minimize runs something else than what it configured", f.span)
        ri = [x for x in q.walk(run_.a[0]) if x.k == "agg" and last_ident(str(x.d[0])) == "RunInfo"]
        for x in ri:
            for p in ("fname", "num"):
                ctx.ob(select(x, p).k == "sel" and select(x, p).d == p and "a5" in q.params(select(x, p)), f"minimize:run_info:{p}", f"minimize: run_info.{p} becomes {E.show(select(x, p), 5)}", f.span)
        ctx.ob(bool(ri), "minimize:run_info", "minimize: run_info is not used", f.span)
        oks = [x for _, x in q.alts(v) if x.k == "agg" and x.d[1] == "Ok"]
        ctx.ob(len(oks) == 1, "minimize:result", f"minimize returns {E.show(v, 4)}", f.span)
        for o in oks:
            for p in ("x_opt", "y_opt", "x_doe", "y_doe"):
                x = select(o.a[0], p)
                src = [y for y in q.walk(x) if y.k == "sel" and y.d in ("x_opt", "y_opt", "x_doe", "y_doe", "state")]
                ctx.ob({y.d for y in src} == {p} and any(y is run_ for y in q.walk(x)), f"minimize:result:{p}", f"minimize returns {E.show(x, 6)} as {p}", f.span)
    # objective and constraints closures hand x over and return what the function returned
    f = ctx.fn("Egor::suggest", "egobox")
    v = ctx.eval(f, opaque=stop).val()
    sg = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "suggest"]
    ac = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "apply_config"]
    if ctx.ob(len(sg) == 1 and len(ac) == 1, "suggest", f"suggest returns {E.show(v, 5)}", f.span):
        ok = bare(sg[0].a[1]) is A[2] and bare(sg[0].a[2]) is A[3] and any(x is ac[0] for x in q.walk(sg[0].a[0]))
        ctx.ob(ok, "suggest:data", f"suggest gives {[E.show(x, 5) for x in sg[0].a[1:]]}", f.span)
        ctx.ob(ac[0].a[0] is S and E.is_num(ac[0].a[3], 0), "suggest:config", "suggest configures another optimizer", f.span)
        ps = [x for x in q.walk(sg[0].a[0]) if x.k == "call" and q.tail(x.d) == "parse"]
        ctx.ob(len(ps) == 1 and any(x is select(S, "xspecs") for x in q.walk(ps[0])), "suggest:xspecs", "suggest: the domain is not the configured one", f.span)
    for m, xi, yi in (("get_result_index", None, 1), ("get_result", 2, 3)):
        f = ctx.fn("Egor::" + m, "egobox")
        v = ctx.eval(f, opaque=stop).val()
        fb = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "find_best_result_index"]
        if not ctx.ob(len(fb) == 1, m, f"{m} returns {E.show(v, 5)}", f.span):
            continue
        fb = fb[0]
        ctx.ob(bare(fb.a[0]) is A[yi], m + ":y", f"{m} searches the best of {E.show(fb.a[0], 5)}", f.span)
        c = fb.a[1]
        ok = c.k == "call" and q.tail(c.d) == "zeros" and c.a[0].k == "agg" and E.is_num(c.a[0].a[1], 0) and rows(c.a[0].a[0], A[yi])
        ctx.ob(ok, m + ":c", f"{m}: the function constraints are {E.show(c, 6)}, expected no column and one row by evaluation", f.span)
        t = fb.a[2]
        ds = {x: num(1) for x in q.walk(t, control=True) if x.k == "discr"}
        ctx.ob(bare(q.assume(t, ds)) is select(S, "cstr_tol"), m + ":tol", f"{m} uses the tolerances {E.show(t, 5)}", f.span)
        if m == "get_result":
            for p, i, whole in (("x_opt", xi, 0), ("y_opt", yi, 0), ("x_doe", xi, 1), ("y_doe", yi, 1)):
                x = select(v, p)
                x = x.a[0] if x.k == "call" and q.tail(x.d) in ("to_pyarray", "into_pyarray") else x
                ok = bare(x) is A[i] if whole else x.k == "elem" and bare(x.a[0]) is A[i] and x.a[1] is fb
                ctx.ob(ok, f"{m}:{p}", f"{m} returns {E.show(x, 5)} as {p}", f.span)

    # ---- GpMix and SparseGpMix
    for cls in ("GpMix", "SparseGpMix"):
        f = ctx.fn(cls + "::fit", "egobox")
        v = ctx.eval(f, opaque=lambda c, fn: fn.name == "fit" and fn.crate != "egobox").val()
        fit = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "fit"]
        if not ctx.ob(len(fit) == 1, cls + ":fit", f"{cls}.fit returns {E.show(v, 4)}", f.span):
            continue
        ds = fit[0].a[1]
        pr = [q.params(x) for x in (ds.a if ds.a else [ds])]
        if ds.k == "agg":
            pr = [q.params(select(ds, "records")), q.params(select(ds, "targets"))]
        ctx.ob(pr[:2] == [{"a2"}, {"a3"}], cls + ":data", f"{cls}.fit trains on {E.show(ds, 5)}", f.span)
        pv = select(fit[0].a[0], "0")
        g = lambda o: select(pv, o)
        src = select(S, "gp_config") if cls == "GpMix" else S
        # the generator is seeded with the seed when there is one
        sd = select(S, "seed")
        w = q.assume(g("rng"), {mk("discr", None, (sd,)): num(1)})
        ctx.ob(w.k == "call" and q.tail(w.d) == "seed_from_u64" and w.a[0] is select(sd, "!"), cls + ":seed", f"{cls}: with a seed the generator is {E.show(w, 4)}", f.span)
        theta(ctx, cls, g("theta_tunings"), src, f.span)
        ctx.ob(g("kpls_dim") is select(src, "kpls_dim"), cls + ":kpls_dim", f"{cls}: kpls_dim becomes {E.show(g('kpls_dim'), 4)}", f.span)
        if cls == "GpMix":
            gp_options(ctx, prog, cls, g, src, f.span, table)
            ctx.ob(E.show(g("gp_type"), 3).startswith("GpType::FullGp"), cls + ":gp_type", f"{cls} trains {E.show(g('gp_type'), 3)}", f.span)
            w = g("n_start")
            ns = q.assume(w, {select(src, "n_start"): num(7)})
            ns = ns.a[0] if ns.k == "sel" and ns.d == "!" else ns
            ctx.ob(E.is_num(ns, 7) or ns.k == "call" and q.tail(ns.d) == "try_into" and E.is_num(ns.a[0], 7), cls + ":n_start", f"{cls}: n_start becomes {E.show(w, 5)}", f.span)
            fixed(ctx, cls, g("theta_tunings"), src, f.span)
            ctx.ob(g("max_eval") is select(src, "max_eval"), cls + ":max_eval", f"{cls}: max_eval becomes {E.show(g('max_eval'), 4)}", f.span)
        else:
            ctx.ob(g("n_start") is select(src, "n_start"), cls + ":n_start", f"{cls}: n_start becomes {E.show(g('n_start'), 4)}", f.span)
            ctx.ob(spec(g("correlation_spec"), path(S, ("correlation_spec", "0"))), cls + ":corr_spec", f"{cls}: corr_spec becomes {E.show(g('correlation_spec'), 5)}", f.span)
            gt = g("gp_type")
            ok = gt.k == "agg" and gt.d[1] == "SparseGp"
            ctx.ob(ok, cls + ":gp_type", f"{cls} trains {E.show(gt, 4)}", f.span)
            if ok:
                table(cls + ":method", select(gt, "SparseGp.sparse_method") if False else field(gt, "sparse_method"), select(S, "method"), "SparseMethod", {"Fitc": ("Fitc",), "Vfe": ("Vfe",)}, f.span)
                ind = field(gt, "inducings")
                z, nz = select(S, "z"), select(S, "nz")
                w = q.assume(ind, {mk("discr", None, (z,)): num(1)})
                ctx.ob(w.k == "agg" and w.d[1] == "Located" and bare(w.a[0]) is z, cls + ":z", f"{cls}: z becomes {E.show(w, 5)}", f.span)
                w = q.assume(ind, {mk("discr", None, (z,)): num(0), mk("discr", None, (nz,)): num(1)})
                ctx.ob(w.k == "agg" and w.d[1] == "Randomized" and bare(w.a[0]) is nz, cls + ":nz", f"{cls}: nz becomes {E.show(w, 5)}", f.span)

    # ---- trained models: each Python method answers with the engine's method of the same name
    n = 0
    for cls in ("Gpx", "SparseGpx"):
        for m in ("predict", "predict_var", "predict_gradients", "predict_var_gradients", "sample"):
            f = ctx.fn(f"{cls}::{m}", "egobox")
            v = ctx.eval(f, opaque=lambda c, fn: fn.crate != "egobox").val()
            cs = [x for x in q.walk(v) if x.k == "call" and x.a and x.a[0] is select(S, "0")]
            n += 1
            ok = len(cs) == 1 and q.tail(cs[0].d) == m and bare(cs[0].a[1]) is A[2] and (m != "sample" or cs[0].a[2] is A[3])
            ok = ok and v.k == "call" and q.tail(v.d) in ("into_pyarray", "to_pyarray") and bare(v.a[0]) is cs[0]
            ctx.ob(ok, f"{cls}:{m}", f"{cls}.{m} answers {E.show(v, 6)}", f.span)
        for m, acc in (("thetas", "theta"), ("variances", "variance"), ("likelihoods", "likelihood")):
            f = ctx.fn(f"{cls}::{m}", "egobox")
            r = ctx.eval(f, opaque=lambda c, fn: fn.crate != "egobox")
            n += 1
            names = {q.tail(e.name) for e in r.eng.events if e.args and "experts" in E.show(e.args[0], 8) and q.tail(e.name) in ("theta", "variance", "likelihood")}
            ctx.ob(names == {acc}, f"{cls}:{m}", f"{cls}.{m} reads {sorted(names)} of the experts", f.span)
        for m in ("save", "load"):
            f = ctx.fn(f"{cls}::{m}", "egobox")
            r = ctx.eval(f, opaque=lambda c, fn: fn.crate != "egobox")
            cs = [e for e in r.eng.events if q.tail(e.name) == m and e.callee and e.callee["krate"] != "egobox"]
            i = 1 if m == "save" else 0
            n += 1
            if ctx.ob(len(cs) == 1 and cs[0].args[i] is A[i], f"{cls}:{m}", f"{cls}.{m}: the file is {[E.show(e.args[i], 4) for e in cs]}", f.span):
                fmt = cs[0].args[i + 1]
                res = {h: E.show(w, 3) for h, w in formats(fmt).items()}
                ctx.ob(res.get(True, "").startswith("GpFileFormat::Json") and res.get(False, "").startswith("GpFileFormat::Binary"), f"{cls}:{m}:format", f"{cls}.{m}: format of a .json file and of others: {res}", f.span)
    ctx.floor("operations of trained models", n, 20)

    # ---- sampling
    f = ctx.fn("sampling::sampling", "egobox")
    r = ctx.eval(f, opaque=lambda c, fn: fn.name in ("parse", "sample"))
    v = r.val()
    sm = [x for x in q.walk(v) if x.k == "call" and q.tail(x.d) == "sample"]
    KIND = {"Lhs": ("Lhs", "Optimized"), "LhsClassic": ("Lhs", "Classic"), "LhsCentered": ("Lhs", "Centered"), "LhsMaximin": ("Lhs", "Maximin"), "LhsCenteredMaximin": ("Lhs", "CenteredMaximin"),
            "FullFactorial": ("FullFactorial", None), "Random": ("Random", None)}
    if ctx.ob(len(sm) == 1 and sm[0].a[1] is A[3], "sampling", f"sampling returns {E.show(v, 5)}", f.span):
        vs = var("Sampling")
        ctx.ob({x for x, _ in vs} == set(KIND), "sampling:values", f"Sampling has the values {[x for x, _ in vs]}", f.span)
        for nm, d in vs:
            w = at(sm[0].a[0], A[1], nm, d)
            me = [x for x in q.walk(w) if x.k == "agg" and last_ident(str(x.d[0])) in ("Lhs", "FullFactorial", "Random")]
            got = {(last_ident(str(x.d[0])), select(x, "kind").d[1] if last_ident(str(x.d[0])) == "Lhs" and select(x, "kind").k == "agg" else None) for x in me}
            ctx.ob(got == {KIND.get(nm)}, f"sampling:{nm}", f"sampling {nm} builds {sorted(map(str, got))}", f.span)
            if nm != "FullFactorial":
                sd = [x for x in q.walk(w, control=True) if x.k == "call" and q.tail(x.d) == "seed_from_u64"]
                ctx.ob(len(sd) == 1 and bare(sd[0].a[0]) is A[4], f"sampling:{nm}:seed", f"sampling {nm} is seeded with {[E.show(x.a[0], 4) for x in sd]}", f.span)
    f = ctx.fn("sampling::lhs", "egobox")
    v = ctx.eval(f, opaque=lambda c, fn: fn.name == "sampling").val()
    ok = v.k == "call" and q.tail(v.d) == "sampling" and E.show(v.a[1], 3).startswith("Sampling::Lhs(") and list(v.a[2:5]) == [A[1], A[2], A[3]]
    ctx.ob(ok, "sampling:lhs", f"lhs returns {E.show(v, 5)}", f.span)

    # ---- domains
    f = ctx.fn("domain::parse", "egobox")
    v = ctx.eval(f).val()
    dn = [x for x in q.walk(v, control=True) if x.k == "discr"]
    n = 0
    for x in q.walk(v):
        if x.k == "agg" and last_ident(str(x.d[0])) == "XType":
            n += 1
            k = x.d[1]
            ctx.ob(domain_ok(x), f"domain:{k}:{kind_of(x)}", f"a domain specification becomes {E.show(x, 8)}", f.span)
    ctx.floor("variable types built from domains", n, 6)
    spec_ty = [x for x in dn if "xtype" in E.show(x.a[0], 12)]
    if ctx.ob(len(set(spec_ty)) == 1, "domain:xtype", f"the type of a variable is decided on {[E.show(x, 6) for x in spec_ty]}", f.span):
        for nm, d in var("XType"):
            w = q.assume(v, {spec_ty[0]: num(d)})
            ks = {x.d[1] for x in q.walk(w) if x.k == "agg" and last_ident(str(x.d[0])) == "XType" and "Xspecs" in E.show(x, 14)}
            ctx.ob(ks == {nm}, f"domain:xtype:{nm}", f"a variable specified as {nm} becomes {sorted(ks)}", f.span)

    # ---- specification flags
    for cls, names in (("RegressionSpec", {"ALL": 7, "CONSTANT": 1, "LINEAR": 2, "QUADRATIC": 4}),
                       ("CorrelationSpec", {"ALL": 15, "SQUARED_EXPONENTIAL": 1, "ABSOLUTE_EXPONENTIAL": 2, "MATERN32": 4, "MATERN52": 8})):
        for nm, bits in names.items():
            fs = [x for x in prog.fns.values() if x.crate == "egobox" and x.name == f"__pymethod_{nm}__" and last_ident(x.selfh or "") == cls]
            if ctx.ob(len(fs) == 1, f"flag:{cls}:{nm}", f"{cls}.{nm} not found"):
                v = ctx.eval(fs[0]).val()
                ctx.ob(v.k == "call" and v.a and E.is_num(v.a[0], bits), f"flag:{cls}:{nm}", f"{cls}.{nm} is {E.show(v, 4)}, documented as {bits}", fs[0].span)


# ------------------------------------------------------------------------------------------------
def flat(v, pre=()):
    """fields of nested configuration records: [(name, value)]"""
    out = []
    if v.k == "agg" and v.d[3] and not v.d[3][0].isdigit() and v.d[1] not in ("Some",):
        for f, x in zip(v.d[3], v.a):
            if x.k == "agg" and last_ident(str(x.d[0])) in ("GpConfig", "GpMix", "SparseGpMix") and x.d[3]:
                out += flat(x)
            else:
                out.append((f, x))
    return out


def path(v, p):
    for f in p:
        v = select(v, f)
    return v


def field(v, f):
    for n, x in zip(v.d[3], v.a):
        if n == f:
            return x
    return select(v, f)


def q_call(v, t, a):
    return v.k == "call" and q.tail(v.d) == t and v.a[0] is a


def opt(ctx, key, v, src, old, span):
    """Some(src) when src is given, else what the configuration held"""
    d = mk("discr", None, (src,))
    on, off = q.assume(v, {d: num(1)}), q.assume(v, {d: num(0)})
    ctx.ob(bare(on) is src, key, f"{key.split(':')[1]} when given becomes {E.show(on, 5)}", span)
    ok = off is old or bare(off) is src or off.k == "agg" and off.d[1] == "None"
    ctx.ob(ok, key + ":unset", f"{key.split(':')[1]} when not given becomes {E.show(off, 5)}", span)


def spec(v, bits):
    """the flags with the given bits"""
    v = v.a[0] if v.k == "sel" and v.d == "!" else v
    if v.k == "call" and q.tail(v.d) in ("from_bits", "from_bits_truncate", "from_bits_retain"):
        v = v.a[0]
    while v.k == "agg" and len(v.a) == 1:
        v = v.a[0]
    return v is bits


def gp_options(ctx, prog, who, g, gp, span, table):
    for o, s in (("regression_spec", "regr_spec"), ("correlation_spec", "corr_spec")):
        ctx.ob(spec(g(o), select(gp, s)), f"{who}:gp:{s}", f"{who}: {s} becomes {E.show(g(o), 5)}", span)
    ctx.ob(g("kpls_dim") is select(gp, "kpls_dim"), f"{who}:gp:kpls_dim", f"{who}: kpls_dim becomes {E.show(g('kpls_dim'), 5)}", span)
    table(f"{who}:gp:recombination", g("recombination"), select(gp, "recombination"), "Recombination", {"Hard": ("Hard",), "Smooth": ("Smooth",)}, span)
    v = g("n_clusters")
    nc = select(gp, "n_clusters")
    for x, want in ((3, "NbClusters::Fixed{nb:3}"), (1, "NbClusters::Fixed{nb:1}"), (0, "NbClusters::Auto{max:Option::None()}"), (-4, "NbClusters::Auto{max:Option::Some(4)}")):
        w = E.show(q.assume(v, {nc: num(x)}), 6)
        ctx.ob(w == want, f"{who}:gp:n_clusters:{x}", f"{who}: n_clusters={x} becomes {w} instead of {want}", span)


def theta(ctx, who, v, src, span):
    """initial hyperparameters and bounds come from the arguments of that name, paired"""
    ti, tb = select(src, "theta_init"), select(src, "theta_bounds")
    facts = {mk("discr", None, (ti,)): num(1), mk("discr", None, (tb,)): num(1)}
    for x in q.walk(v, control=True):
        if x.k == "op" and x.d in ("Lt", "Le") and select(src, "n_start") in x.a:
            facts[x] = E.boolc(x.a[0] is not select(src, "n_start"))
    w = q.assume(v, facts)
    fs = [x for x in q.walk(w) if x.k == "agg" and x.d[1] == "Full"]
    fs = [x for x in fs if bare(field(x, "init")) is ti and any(y is tb for y in q.walk(field(x, "bounds")))]
    if not ctx.ob(len(fs) == 1, f"{who}:theta", f"{who}: with theta_init and theta_bounds the tuning is {E.show(w, 7)}", span):
        return
    b = field(fs[0], "bounds")
    t = [x for x in q.walk(b) if x.k == "agg" and x.d[0] == "tuple" and len(x.a) == 2]
    ok = len(t) == 1 and all(x.k == "elem" and E.is_num(x.a[-1], i) for i, x in enumerate(t[0].a)) and t[0].a[0].a[0] is t[0].a[1].a[0]
    ctx.ob(ok, f"{who}:theta_bounds", f"{who}: the bounds are {E.show(b, 6)}", span)


def fixed(ctx, who, v, src, span):
    """a negative n_start disables the optimization of the hyperparameters"""
    ti, ns = select(src, "theta_init"), select(src, "n_start")
    w = q.assume(v, {mk("discr", None, (ti,)): num(1), ns: num(-1)})
    fx = [x for x in q.walk(w) if x.k == "agg" and x.d[1] in ("Fixed", "Full", "Partial") and last_ident(str(x.d[0])) == "ThetaTuning"]
    tops = w if w.k != "call" else None
    used = [x for x in (q.alts(w) if w.k == "phi" else [(None, w)])]
    ok = bool(fx)
    for _, x in used:
        y = x
        while y.k in ("call", "agg") and y.a and not (y.k == "agg" and last_ident(str(y.d[0])) == "ThetaTuning"):
            y = y.a[0]
        ok = ok and y.k == "agg" and y.d[1] == "Fixed" and all(bare(z) is ti or z.k == "sel" for _, z in q.alts(y.a[0]))
    ctx.ob(ok, f"{who}:n_start:negative", f"{who}: with a negative n_start the tuning is {E.show(w, 6)}", span)


def rows(v, y):
    """number of rows of y"""
    if v.k == "call" and q.tail(v.d) in ("nrows",):
        return bare(v.a[0]) is y
    if v.k == "call" and q.tail(v.d) == "len_of":
        return bare(v.a[0]) is y and "0" in E.show(v.a[1], 3)
    if v.k in ("elem", "sel"):
        b = v.a[0]
        i = v.d if v.k == "sel" else (int(v.a[1].d[0]) if E.is_num(v.a[1]) else None)
        return b.k == "call" and q.tail(b.d) in ("shape", "dim", "raw_dim") and bare(b.a[0]) is y and str(i) == "0"
    return False


def formats(v):
    """{is the file name's extension json?: format}"""
    out = {}
    for val in (True, False):
        facts = {}
        for x in q.walk(v, control=True):
            if x.k == "discr":
                facts[x] = num(1)
            if x.k == "op" and x.d in ("Eq", "Ne") and any(E.const_of(y) == "json" for y in x.a):
                facts[x] = E.boolc(val == (x.d == "Eq"))
            if x.k == "call" and q.tail(x.d) in ("eq", "ne") and any(E.const_of(y) == "json" for y in x.a):
                facts[x] = E.boolc(val == (q.tail(x.d) == "eq"))
        out[val] = q.assume(v, facts)
    return out


def kind_of(x):
    s = E.show(x, 14)
    return "Xspecs" if "Xspecs" in s else "Xrows" if "Xrows" in s else "Xlists"


def domain_ok(x):
    k = x.d[1]
    a = x.a

    def idx(v, i):
        while v.k == "op" and v.d in ("trunc", "cast") or v.k == "call" and q.tail(v.d) in CONV:
            v = v.a[0]
        return v.a[0] if v.k == "elem" and E.is_num(v.a[-1], i) else None
    if k in ("Float", "Int"):
        lo, hi = idx(a[0], 0), idx(a[1], 1)
        return lo is not None and lo is hi
    if k == "Ord":
        return "xlimits" in E.show(a[0], 4)
    if k == "Enum":
        d = [n for n in q.walk(a[0], control=True) if n.k in ("op", "call") and "tags" in E.show(n, 4) and ("is_empty" in str(n.d) or n.k == "op")]
        vals = [w for _, w in q.alts(a[0])]
        kinds = {"len" if v.k == "call" and q.tail(v.d) == "len" and "tags" in E.show(v, 4) else "xlimits" if idx(v, 0) is not None else "?" for v in vals}
        return kinds == {"len", "xlimits"}
    return False
