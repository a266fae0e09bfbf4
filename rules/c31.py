"""C31: a run stops exactly when its iterations are spent or when a feasible best objective reaches the target."""
import itertools
from vp import engine as E, q
from vp.engine import mk, num, select, const_of
from vp.facts import last_ident, calls
from rules.c16 import payload

ASSUMPTIONS = ["argmin's Executor asks `terminate_internal` before every iteration, calls `increment_iter` once and `update` once after every iteration, and stops for no reason of its own "
               "(interruption by the user excepted)", "no comparison involves NaN"]
A = [mk("param", f"a{i}") for i in range(4)]
STATE = "EgorState"
# methods of the executor which add no reason to stop
STEP = lambda c, fn: fn.name in ("select_next_points", "update_data", "eval_obj", "have_to_recluster", "find_best_result_index_from", "is_feasible")
EXEC_OK = {"new", "timer", "checkpointing", "add_observer", "run", "ctrlc"}


def egor(ctx, name, owner):
    return [f for f in ctx.prog.fns.values() if f.crate == "egobox_ego" and f.name == name and f.blocks and not f.generated() and last_ident((f.selfh or f.short).split("<")[0]) == owner]


def one(ctx, name, owner):
    r = egor(ctx, name, owner)
    if len(r) != 1:
        raise LookupError(f"{owner}::{name} matches {len(r)} functions")
    return r[0]


def strip(v):
    while v.k == "op" and v.d in ("cast", "trunc") or v.k == "call" and q.tail(v.d) in ("cast", "from", "into", "as_", "clone"):
        v = v.a[0]
    return v


def outcome(v):
    """NotTerminated | the reason"""
    if v.k == "agg" and v.d[1] == "NotTerminated":
        return "go on"
    if v.k == "agg" and v.d[1] == "Terminated" and v.a[0].k == "agg":
        return v.a[0].d[1]
    return "? " + E.show(v, 5)


ORD = {"lt": {"Lt", "Le", "Ne"}, "eq": {"Eq", "Le", "Ge"}, "gt": {"Gt", "Ge", "Ne"}}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq"}
CALLCMP = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}


def decisions(v, st):
    """comparisons of the decision: {node: (kind, op, flipped)}"""
    out = {}
    it, mx, tg = select(st, "iter"), select(st, "max_iters"), select(st, "target_cost")
    for x in q.walk(v, control=True):
        op = x.d if x.k == "op" else CALLCMP.get(q.tail(x.d)) if x.k == "call" and len(x.a) == 2 else None
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and len(x.a) == 2:
            a, b = x.a
            for l, r, fl in ((a, b, False), (b, a, True)):
                if l is it and r is mx:
                    out[x] = ("iter", op, fl)
                elif r is tg and best_cost(l, st):
                    out[x] = ("cost", op, fl)
        elif x.k == "call" and q.tail(x.d) == "is_feasible":
            out[x] = ("feasible", None, None)
        elif x.k == "discr" and x.a:
            out[x] = ("some", None, None)
        elif x.k == "call" and q.tail(x.d) == "terminated" and x.a[0].k == "agg":
            out[x] = ("status", None, x.a[0].d[1] == "Terminated")
    return out


def best_cost(v, st):
    """objective of the best cost vector (when there is one)"""
    v = q.assume(v, {x: num(1) for x in q.walk(v, control=True) if x.k == "discr"})
    vs = [w for _, w in q.alts(v)]
    ok = False
    for w in vs:
        w = payload(w)
        if w.k == "sel" and w.d == "!":
            w = w.a[0]
        if w.k in ("call", "elem") and len(w.a) >= 2 and E.is_num(w.a[1], 0) and (w.k == "elem" or q.tail(w.d) in ("get", "index")):
            b = w.a[0]
            ok = ok or b is select(select(st, "best_cost"), "!")
        elif w.k == "call" and q.tail(w.d) == "first":
            ok = ok or w.a[0] is select(select(st, "best_cost"), "!")
        elif not (w.k == "const" or w.k == "call" and q.tail(w.d) == "infinity"):
            return False
    return ok


def run(ctx):
    ctx.rule = ("The stopping decision of the solver is derived as a decision table over the order of (iterations done, iterations allowed), the order of (best objective, target) and the feasibility of the best point: the table must stop exactly when "
                "the iterations are spent or a feasible best objective is at or below the target. The state's counters and accessors are derived field by field, every write of a field the decision reads and every construction of a termination status are enumerated.")
    prog = ctx.prog
    # ---- 1. decision table
    fs = egor(ctx, "terminate_internal", "EgorSolver")
    if ctx.ob(len(fs) == 1, "decision:own", "the solver leaves the stopping decision to argmin's default, which compares the best objective to the target whether or not the best point is feasible",
              one(ctx, "terminate", "EgorSolver").span):
        f = fs[0]
        st = A[1]
        v = ctx.eval(f, opaque=lambda c, fn: fn.name == "is_feasible").val()
        ds = decisions(v, st)
        kinds = {k for k, _, _ in ds.values()}
        ctx.floor("comparisons of the stopping decision", len([1 for k, _, _ in ds.values() if k in ("iter", "cost", "feasible")]), 3)
        data, bi = select(select(st, "data"), "!"), select(select(st, "best_index"), "!")
        for x, (k, _, _) in ds.items():
            if k == "feasible":
                y, cc = (row_of(a) for a in x.a[:2])
                ok = y == (select(data, "1"), bi) and cc == (select(data, "2"), bi) and x.a[2] is select(st, "cstr_tol")
                ctx.ob(ok, "decision:feasible:point", f"the feasibility tested by {f.short} is that of {E.show(x, 8)}, not that of the recorded best point with the tolerances of the run", f.span)
        n = 0
        for io, co, fe in itertools.product(ORD, ORD, (True, False)):
            facts = {}
            for x, (k, op, fl) in ds.items():
                if k in ("iter", "cost"):
                    o = io if k == "iter" else co
                    facts[x] = E.boolc(op in ORD[FLIP[o] if fl else o])
                elif k == "feasible":
                    facts[x] = E.boolc(fe)
                elif k == "some":
                    facts[x] = num(1)
                else:
                    facts[x] = E.boolc(fl)
            got = outcome(q.assume(v, facts))
            spent, reached = io != "lt", fe and co != "gt"
            exp = ({"MaxItersReached"} if spent else set()) | ({"TargetCostReached"} if reached else set()) or {"go on"}
            n += 1
            ctx.ob(got in exp, f"decision:iter {io} max:best {co} target:{'feasible' if fe else 'infeasible'}",
                   f"with iter {io} max_iters, best cost {co} target and a best point {'feasible' if fe else 'infeasible'}, {f.short} answers `{got}` instead of `{' or '.join(sorted(exp))}`", f.span)
        ctx.count("cases of the decision table", n)
        # without a best point yet nothing is reached
        facts = {x: (num(0) if k == "some" else E.boolc("Lt" == op) if k == "iter" and not fl else E.boolc(op in ("Gt", "Ne")) if k == "iter" else E.boolc(bool(fl)) if k == "status" else E.boolc(False))
                 for x, (k, op, fl) in ds.items()}
        facts.update({x: E.boolc(op in ("Lt", "Le", "Ne") if not fl else op in ("Gt", "Ge", "Ne")) for x, (k, op, fl) in ds.items() if k == "iter"})
        ctx.ob(outcome(q.assume(v, facts)) == "go on", "decision:no best", f"{f.short} stops a run which has no data", f.span)

    # ---- 2. accessors and counters
    def same(key, got, exp, msg, span):
        ctx.ob(got is exp or q.same(got, exp), key, f"{msg}: {E.show(got, 6)}", span)
    S = A[0]
    for nm, fld in (("get_iter", "iter"), ("get_max_iters", "max_iters"), ("get_target_cost", "target_cost"), ("get_termination_status", "termination_status")):
        f = one(ctx, nm, STATE)
        same(f"accessor:{nm}", ctx.eval(f).val(), select(S, fld), f"{f.short} does not answer the field {fld}", f.span)
    f = one(ctx, "get_best_cost", STATE)
    ctx.ob(best_cost(ctx.eval(f).val(), S), "accessor:get_best_cost", f"{f.short} does not answer the objective of the best point", f.span)
    for nm, upd in (("increment_iter", {"iter"}), ("extend_max_iters", {"max_iters"})):
        f = one(ctx, nm, STATE)
        fin = ctx.eval(f).arg_final(0)
        for fld in fields(prog):
            got = select(fin, fld)
            if fld in upd:
                ok = q.poly(got) == q.padd(q.poly(select(S, fld)), q.poly(num(1) if nm == "increment_iter" else A[1]))
                ctx.ob(ok, f"counter:{nm}", f"{f.short} sets {fld} to {E.show(got, 5)}", f.span)
            else:
                ctx.ob(got is select(S, fld), f"counter:{nm}:{fld}", f"{f.short} also changes {fld}", f.span)
    f = one(ctx, "terminate_with", STATE)
    fin = ctx.eval(f).val()
    ts = select(fin, "termination_status")
    ctx.ob(ts.k == "agg" and ts.d[1] == "Terminated" and ts.a[0] is A[1], "status:terminate_with", f"{f.short} stores {E.show(ts, 4)}", f.span)

    # best cost and best parameter are those of the best index
    f = one(ctx, "update", STATE)
    fin = ctx.eval(f, opaque=lambda c, fn: fn.name == "find_best_result_index").arg_final(0)
    facts = {x: num(1) for x in q.walk(fin, control=True) if x.k == "discr" and x.a[0] in (select(S, "data"), select(S, "best_index"))}
    fin = q.assume(fin, facts) if facts else fin
    data, bi = select(select(S, "data"), "!"), select(select(S, "best_index"), "!")
    for fld, part in (("best_cost", "1"), ("best_param", "0")):
        got = payload(q.assume(select(fin, fld), facts))
        ctx.ob(row_of(got) == (select(data, part), bi), f"update:{fld}", f"after {f.short} the {fld} is {E.show(got, 7)}, not the row of the best index", f.span)
    # the iteration reported as the one of the last improvement is that of an added point
    got = q.assume(select(fin, "last_best_iter"), facts)
    new, old, doe = bi, select(S, "prev_best_index"), select(S, "doe_size")
    kept, cur = select(S, "last_best_iter"), mk("op", "Add", (num(1), select(S, "iter")))
    for name, n, d, o, want in (("start", 3, 5, 1, kept), ("first", 5, 5, 1, cur), ("added", 7, 5, 5, cur), ("same", 7, 5, 7, kept), ("same first", 5, 5, 5, kept), ("none", 7, 5, None, kept)):
        env = {new: num(n), doe: num(d), **{x: num(0 if o is None else 1) for x in q.walk(got, control=True) if x.k == "discr" and x.a[0] is old}, select(old, "!"): num(0 if o is None else o)}
        w = q.assume(got, env)
        ok = w is want or q.same(w, want)
        ctx.ob(ok, f"last_best_iter:{name}", f"with {d} starting points, when the best row goes from {o} to {n}, {f.short} sets the iteration of the last improvement to {E.show(w, 5)} instead of {E.show(want, 3)}", f.span)
    # budget and target come from the configuration
    f = one(ctx, "init", "EgorSolver")
    st = payload(ctx.eval(f, opaque=lambda c, fn: fn.name in ("find_best_result_index", "is_feasible", "eval_obj", "eval_problem_fcstrs", "sample")).val())
    st = select(st, "0")
    for fld, opt in (("max_iters", "max_iters"), ("target_cost", "target")):
        got = strip(select(st, fld))
        ctx.ob(all(strip(w) is select(select(A[0], "config"), opt) for _, w in q.alts(got)), f"init:{fld}", f"{f.short} sets {fld} to {E.show(got, 5)} instead of the configured {opt}", f.span)
    got = select(st, "iter")
    ctx.ob(got is select(A[2], "iter"), "init:iter", f"{f.short} changes the iteration counter to {E.show(got, 4)}", f.span)
    retries = select(st, "no_point_added_retries")
    ctx.ob(E.is_num(retries) and float(retries.d[0]) >= 1, "init:retries", f"{f.short} allows {E.show(retries, 3)} attempts to add a point", f.span)
    # ---- 3. who writes what the decision reads
    allowed = {"iter": {"increment_iter"}, "max_iters": {"extend_max_iters", "max_iters", "init"}, "target_cost": {"target_cost", "init"}, "termination_status": {"terminate_with"},
               "best_cost": {"update"}, "best_param": {"update"}}
    nw = 0
    for f in prog.fns.values():
        if f.generated() or not f.blocks or not f.crate.startswith("egobox"):
            continue
        for b in f.blocks:
            for s in b["st"] + ([b["t"]] if b["t"]["k"] == "call" else []):
                d = s.get("d")
                r = s.get("r") or {}
                mut = r.get("pl") if r.get("k") == "ref" and r.get("mut") or r.get("k") in ("rawptr", "addrof") else None
                for pl in (d, mut):
                    fld = stfield(pl)
                    if fld in allowed:
                        nw += 1
                        nm = f.name if f.name else prog.fns.get(f.j.get("rooth"), f).name
                        ctx.ob(nm in allowed[fld] or root(prog, f).name in allowed[fld], f"write:{fld}:{f.short}", f"{f.short} changes the {fld} of the state of the run", s.get("s", f.span))
                if r.get("k") == "agg" and last_ident(str(r.get("adt"))) == STATE:
                    nw += 1
                    ctx.ob(root(prog, f).name in ("new", "clone"), f"state:{f.short}", f"{f.short} builds the state of a run", s.get("s", f.span))
                # termination
                if r.get("k") == "agg" and last_ident(str(r.get("adt"))) == "TerminationStatus" and variant(r) == "Terminated":
                    nw += 1
                    ctx.ob(root(prog, f).name in ("terminate_internal", "terminate_with"), f"status:{f.short}", f"{f.short} decides on its own that the run is terminated", s.get("s", f.span))
    ctx.floor("writes of the fields of the decision", nw, 8)
    nt = ne = 0
    for f, i, t, c in ctx.scan(f for f in prog.fns.values() if f.crate.startswith("egobox") and f.blocks):
        if not c:
            continue
        if c.get("name") == "terminate_with" and not is_impl(f, "terminate_with"):
            nt += 1
            ev = [e for e in ctx.eval(root(prog, f), opaque=lambda cc, fn: fn.name == "ego_step").events(pred=lambda e: q.tail(e.name) == "terminate_with")]
            ok = ev and all(any(novec(prog, c2, ed) for c2, ed in e.guards()) for e in ev)
            ctx.ob(ok, f"converged:{f.short}", f"{f.short} terminates the run otherwise than because no point could be added", t["s"])
        if "Executor" in c["path"] and c["path"].startswith("argmin"):
            ne += 1
            ctx.ob(c.get("name") in EXEC_OK, f"executor:{c.get('name')}", f"{f.short} uses {c['path']}, which can stop the run for a reason of its own", t["s"])
    ctx.floor("explicit terminations", nt, 1)
    ctx.floor("calls of the executor", ne, 4)
    # every iteration which adds a point gives all the attempts back
    f = one(ctx, "ego_step", "EgorSolver")
    v = select(payload(ctx.eval(f, opaque=STEP).val()), "no_point_added_retries")
    ctx.ob(all(w is retries for _, w in q.alts(v)), "retries:reset", f"after an iteration which added points {f.short} leaves {E.show(v, 5)} attempts instead of {E.show(retries, 3)}", f.span)
    # no more point to add: only after every retry found each new point rejected
    nn = 0
    for f in prog.fns.values():
        if f.crate != "egobox_ego" or not f.blocks or f.generated():
            continue
        for bi, b in enumerate(f.blocks):
            for s in b["st"]:
                r = s.get("r") or {}
                if r.get("k") == "agg" and last_ident(str(r.get("adt"))) == "EgoError" and variant(r) == "NoMorePointToAddError":
                    nn += 1
                    ctx.ob(exhausted(ctx, f, bi), f"exhausted:{f.short}", f"{f.short} gives up adding points although a point was added or attempts are left", s["s"])
    ctx.floor("places that give up adding points", nn, 1)


def row_of(v):
    while v.k == "call" and q.tail(v.d) in ("to_owned", "view", "clone", "row"):
        if q.tail(v.d) == "row":
            return (v.a[0], v.a[1])
        v = v.a[0]
    if v.k == "elem" and len(v.a) == 3:
        return (v.a[0], v.a[1])
    if v.k == "elem" and len(v.a) == 2:
        return (v.a[0], v.a[1].a[0] if v.a[1].k == "agg" else v.a[1])
    return None


def fields(prog):
    a = [x for x in prog.adt(STATE) if x["path"].endswith(STATE)]
    return [n for n, _ in a[0]["vs"][0]["fs"]]


def stfield(pl):
    if not pl:
        return None
    for p in pl["p"]:
        if isinstance(p, dict) and last_ident(str(p.get("adt"))) == STATE:
            return p.get("n")
    return None


def variant(r):
    return r.get("var")


def root(prog, f):
    h = f.j.get("rooth")
    return prog.fns.get(h, f) if h else f


def is_impl(f, name):
    return f.name == name


def novec(prog, c, ed):
    """the branch of the variant NoMorePointToAddError of the error of ego_step"""
    vs = [v["n"] for a in prog.adt("EgoError") for v in a["vs"]]
    return c.k == "discr" and "ego_step" in E.show(c, 6) and "Err" in E.show(c.a[0], 6) and ed == ("in", str(vs.index("NoMorePointToAddError")))


def exhausted(ctx, f, block):
    r = ctx.eval(one(ctx, "ego_step", "EgorSolver"), opaque=STEP)
    frames = {e.frame.id: e.frame for e in r.events() if e.frame.fn is f}
    return bool(frames) and all(any(spent(c, ed, r.eng) for c, ed in g) and any(allrej(c, ed) for c, ed in g) for g in (E.guards_of(fr, block) for fr in frames.values()))


def spent(c, ed, eng):
    """the attempts left are counted down to zero"""
    if c.k != "op" or c.d not in ("Eq", "Le", "Lt", "Ne", "Gt", "Ge"):
        return False
    a, b = c.a
    op, neg = c.d, ed == ("in", "0")
    if E.is_num(a):
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
    if neg:
        op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
    if not E.is_num(b) or op not in ("Eq", "Le", "Lt"):
        return False
    lim = float(b.d[0]) - (1 if op == "Lt" else 0)
    p = q.poly(a)
    left = [k for k in q.walk(a, eng) if "no_point_added_retries" in E.show(k, 3) or k.k == "mu"]
    # left - 1 reaches 0, in one form or another
    k0 = p.get((), 0)
    return bool(left) and len([m for m in p if m]) == 1 and lim - k0 == 1


def allrej(c, ed):
    if c.k == "op" and c.d in ("Eq", "Ne"):
        t = E.show(c, 12)
        return "update_data" in t and ((c.d == "Eq") != (ed == ("in", "0")))
    if c.k == "call" and q.tail(c.d) == "is_empty":
        return "update_data" in E.show(c, 8) and ed != ("in", "0")
    return False
