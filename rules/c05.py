"""C05: user functions are only called at complete points decoded to the declared variable types."""
from vp import engine as E, q
from vp.engine import mk, select, num, const_of
from vp.facts import last_ident, calls

ASSUMPTIONS = ["the optimizers of the dependencies call the functions they are given, and nothing else, with a point of the dimension of their bounds",
               "decoding itself (`to_discrete_space`) is judged by C04"]
A = [mk("param", f"a{i}") for i in range(5)]
OPAQUE = {"to_discrete_space", "discrete", "make_clustered_surrogate", "compute_infill_obj_scale", "compute_virtual_point", "eval_infill_obj", "eval_grad_infill_obj", "eval_infill_obj_with_cstrs",
          "eval_grad_infill_obj_with_cstrs", "mean_cstr", "upper_trust_bound_cstr", "find_best_result_index_from", "find_best_result_index", "update_data", "select_from_portfolio", "is_feasible"}
OP = lambda c, fn: fn.name in OPAQUE
CALLS = ("call", "call_mut", "call_once")


class ALLMU:
    mu_ops = E.MU


def lits(v):
    """nodes telling whether the design space is discrete"""
    return [x for x in q.walk(v, control=True) if x.k == "call" and q.tail(x.d) == "discrete"]


def under_discrete(v):
    ds = lits(v)
    return q.assume(v, {d: mk("const", (True, "bool")) for d in ds}) if ds else v


def strip(v):
    while v.k == "elem" and len(v.a) == 1 and False or v.k == "call" and q.tail(v.d) in ("to_vec", "to_owned", "view", "into_owned", "clone", "collect"):
        v = v.a[0]
    return v


def leaves(v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return []
    seen.add(v)
    if v.k == "phi":
        return [y for x in v.a for y in leaves(x, seen)]
    if v.k == "mu":
        return [y for x in E.MU.get(v, ()) for y in leaves(x, seen)] or [v]
    return [v]


def decoded(v):
    """v is to_discrete_space(.., X) or some row(s) of it -> X, else None"""
    while v.k == "elem" or v.k == "call" and q.tail(v.d) in ("index_axis", "index_axis_move", "row", "rows", "slice", "select", "to_vec", "view", "to_owned", "clone", "into_owned", "collect"):
        v = v.a[0]
    if v.k == "call" and q.tail(v.d) == "to_discrete_space":
        return v
    return None


def point(v):
    """-> list of to_discrete_space calls when every value v takes in a discrete space is decoded, else the value that is not"""
    out = []
    for x in leaves(under_discrete(v)):
        x = strip(x)
        d = decoded(x)
        if d is None:
            y = under_discrete(x)
            if y is not x:
                r = point(y)
                if isinstance(r, list):
                    out += r
                    continue
            return x
        out.append(d)
    return out


# ------------------------------------------------------------------ callables
def elements(c, seen=None):
    """values of the elements of a collection"""
    seen = set() if seen is None else seen
    if c in seen:
        return []
    seen.add(c)
    t = q.tail(c.d) if c.k == "call" else q.tail(c.d[0]) if c.k == "eff" else ""
    if c.k == "phi":
        return [y for x in c.a for y in elements(x, seen)]
    if c.k == "mu":
        return [y for x in E.MU.get(c, ()) for y in elements(x, seen)]
    if c.k == "call" and t == "map" and len(c.a) >= 2:
        return resolve(c.a[-1])
    if c.k == "call" and t in ("enumerate",):
        return elements(c.a[0], seen)
    if t in ("filter", "rev", "skip", "take", "inspect", "to_vec", "clone", "iter", "into_iter", "as_ref", "chain", "append", "extend", "extend_from_slice", "concat", "zip", "collect", "step_by", "from_iter"):
        return [y for x in c.a for y in (elements(x, seen))]
    if c.k == "eff" and t in ("push", "push_back", "insert"):
        return [*elements(c.a[0], seen), *resolve(c.a[-1])]
    if c.k in ("wr",):
        return [*elements(c.a[0], seen), *resolve(c.a[1])]
    if c.k == "agg" and c.d[0] in ("array", "tuple"):
        return [y for x in c.a for y in resolve(x)]
    if c.k == "call" and t == "fn_constraints":
        return [c]
    if c.k == "call" and t in ("new", "with_capacity", "empty") and not c.a:
        return []
    if c.k == "call" and t in ("from_elem",) and c.a:
        return resolve(c.a[0])
    return [c]


def resolve(v):
    if v.k == "phi":
        return [y for x in v.a for y in resolve(x)]
    if v.k in ("elem", "sel") and v.a:
        return elements(v.a[0]) if v.k == "elem" else [v]
    if v.k == "agg" and v.d[0] == "tuple":
        return [y for x in v.a if x.k in ("clo", "phi", "elem", "fn") for y in resolve(x)]
    return [v]


def is_user(v):
    return v.k == "call" and q.tail(v.d) == "fn_constraints" or v.k == "param" or v.k == "sel"


def has_user(v, seen=None):
    return any(x.k == "call" and q.tail(x.d) == "fn_constraints" for x in q.walk(v, control=False))


def applied(e):
    """calls of a closure or function value (not of a closure evaluated in place)"""
    return e.name == "apply" or e.name.startswith("Fn::{closure") and not e.inlined


def first(e):
    """first argument of the call of a function value"""
    if len(e.args) < 2:
        return None
    x = e.args[1]
    return x.a[0] if e.name != "apply" and x.k == "agg" and x.d[0] == "tuple" and x.a else x


class Flow:
    def __init__(self, ctx):
        self.ctx, self.sites, self.memo, self.n, self.body = ctx, set(), set(), 0, {}

    def note(self, e):
        self.sites.add((e.frame.fn.h, e.block))

    def closure(self, h):
        if h not in self.body:
            fn = self.ctx.prog.fns[h]
            r = self.ctx.eval(fn, opaque=OP)
            self.body[h] = [e for e in r.events() if applied(e)]
            for e in self.body[h]:
                self.note(e)
        return self.body[h]

    def call(self, callee, space, who, where):
        """callee is called at a point which is `space`: 'user' (complete and decoded) or 'solver'"""
        for v in resolve(callee):
            if v.k == "clo":
                if (v, space) in self.memo:
                    continue
                self.memo.add((v, space))
                fn = self.ctx.prog.fns.get(v.d)
                if fn is None:
                    continue
                env = {select(A[0], str(i)): x for i, x in enumerate(v.a)}
                for e in self.closure(v.d):
                    tgt = q.subst(e.args[0], env)
                    if not has_user(tgt) and not (tgt.k == "clo" or any(x.k == "clo" for x in q.walk(tgt, control=False))):
                        continue
                    x = first(e)
                    w = f"{e.frame.fn.short}"
                    if x is None:
                        continue
                    if x is A[1]:
                        self.call(tgt, space, w, e.span)
                    elif space == "user":
                        self.check(tgt, q.subst(x, env), e, w)
                    else:
                        ds = point(x)
                        if isinstance(ds, list):
                            self.n += 1
                            full = all(self.whole(d.a[-1]) for d in ds)
                            self.ctx.ob(full, f"whole:{w}", f"{w} decodes a point made of the active components only, or one that ignores them, before a user function is called: {E.show(ds[0].a[-1], 6)[:160]}", e.span)
                            raw = self.raw(x)
                            self.ctx.ob(self.whole(raw), f"wholeraw:{w}", f"{w} calls a user function at a point made of the active components only, or one that ignores them: {E.show(raw, 6)[:160]}", e.span)
                            self.call(tgt, "user", w, e.span)
                        else:
                            self.call(tgt, "solver", w, e.span)
            elif v.k == "call" and q.tail(v.d) == "fn_constraints":
                self.n += 1
                self.ctx.ob(space == "user", f"point:{who}", f"{who} lets a constraint function of the user be called at a point that is not decoded to the declared variable types (or lacks components)", where)
            elif has_user(v):
                self.n += 1
                self.ctx.ob(False, f"unresolved:{who}", f"{who} passes constraint functions of the user through a construct that cannot be followed: {E.show(v, 5)[:160]}", where)

    def raw(self, x):
        ds = lits(x)
        v = q.assume(x, {d: mk("const", (False, "bool")) for d in ds}) if ds else x
        return v

    def whole(self, x):
        """x takes the best point for the inactive components and the given values for the active ones"""
        w = q.walk(x, ALLMU, control=True)
        return A[1] in w and any(y.k in ("sel", "elem") and y.d == "xbest" or y.k == "sel" and "xbest" in str(y.d) for y in w)

    def check(self, callee, x, e, who):
        self.n += 1
        r = point(x)
        if isinstance(r, list):
            ok = bool(r) and all(d.a and any(y.k == "sel" and "xtypes" in str(y.d) for y in q.walk(d.a[0], control=False)) for d in r)
            self.ctx.ob(ok, f"types:{who}", f"{who} decodes with other variable types than the declared ones: {E.show(r[0], 5)[:160]}" if r else "", e.span)
        else:
            self.ctx.ob(False, f"point:{who}", f"{who} calls a function of the user at a point that is not decoded to the declared variable types: {E.show(r, 6)[:200]}", e.span)


def run(ctx):
    ctx.rule = ("Every call of a user function (objective through `CostFunction::cost`, elements of `fn_constraints()`) is enumerated in the solver, with the closures that wrap the functions on their way to the infill optimizer. "
                "In a discrete space (`discrete()` assumed) the point of each call must be the result of `to_discrete_space` on the declared types; points coming from the infill optimizer must first be completed from the best point.")
    prog = ctx.prog
    fl = Flow(ctx)
    roots = [f for f in prog.fns.values() if f.crate == "egobox_ego" and f.blocks and not f.generated() and f.kind in ("Fn", "AssocFn") and reaches(prog, f)]
    ctx.count("functions reaching user functions", len(roots))
    nopt = 0
    for f in roots:
        short = f.short
        r = ctx.eval(f, opaque=OP)
        for e in r.events():
            t = q.tail(e.name)
            if applied(e):
                fl.note(e)
                callee = e.args[0]
                vs = resolve(callee)
                own = [v for v in vs if v.k == "call" and q.tail(v.d) == "fn_constraints" or v.k == "param"]
                if own and len(e.args) > 1:
                    # called directly
                    if any(v.k == "call" for v in own) or is_cstr_call(e):
                        fl.check(callee, first(e), e, e.frame.fn.short)
                for v in vs:
                    if v.k == "clo" and has_user(v) and len(e.args) > 1:
                        ok = isinstance(point(first(e)), list)
                        fl.call(v, "user" if ok else "solver", e.frame.fn.short, e.span)
            elif t == "cost" and not e.inlined and "CostFunction" in e.name:
                fl.note(e)
                fl.check(e.args[0], e.args[1], e, e.frame.fn.short)
            elif not e.inlined and e.name.split("::")[0] in ("slsqp", "cobyla", "nlopt"):
                for a in [*e.args, *e.raw]:
                    for x in q.walk(a, control=False):
                        if x.k == "clo" and x.d in prog.fns:
                            fl.closure(x.d)
                    if has_user(a):
                        nopt += 1
                        fl.call(mk("elem", None, (a,)) if a.k != "clo" else a, "solver", e.frame.fn.short, e.span)
    ctx.floor("uses of user functions by the infill optimizers", nopt, 2)
    ctx.floor("calls of user functions judged", fl.n, 6)
    # ---- what makes a space discrete
    d = [f for f in prog.fns.values() if f.crate == "egobox_ego" and f.name == "discrete" and f.blocks and not f.generated()]
    ctx.floor("definitions of a discrete space", len(d), 1)
    for f in d:
        discrete_def(ctx, f)
    # ---- the objective wrapper hands the points over unchanged
    for f in prog.fns.values():
        if f.name == "cost" and f.crate in ("egobox_ego", "egobox") and f.trait and last_ident(f.trait) == "CostFunction" and f.blocks and not f.generated():
            ev = [e for e in ctx.eval(f).events(pred=lambda e: e.name == "apply")]
            ctx.ob(len(ev) == 1 and all(same_view(e.args[1], A[1]) for e in ev), f"cost:{f.short}", f"{f.short} does not call the objective function once at the points it is given", f.span)
            for e in ev:
                fl.note(e)
    # ---- completeness: every place calling something with the signature of a user function was judged
    nc = 0
    for f in prog.fns.values():
        if f.crate != "egobox_ego" or f.generated() or not f.blocks:
            continue
        for b, t, c in calls(f):
            if not c:
                continue
            if c.get("name") == "cost" and "CostFunction" in c["path"] or c.get("name") in CALLS and "InfillObjData" in " ".join(c.get("targs", ())[1:]) and user_self(c):
                nc += 1
                ctx.ob((f.h, b) in fl.sites, f"census:{f.short}:{c.get('name')}", f"{f.short} calls a function of the user outside of the analysed flows", t["s"])
    ctx.floor("call sites with the signature of a user function", nc, 4)


def is_cstr_call(e):
    return False


def user_self(c):
    s = str(c.get("self") or (c.get("targs") or [""])[0])
    return "closure" not in s


def same_view(x, p):
    while x.k == "call" and q.tail(x.d) in ("view", "to_owned", "clone"):
        x = x.a[0]
    return x is p


def reaches(prog, f):
    """solver functions: they obtain the user functions from the problem, or evaluate its cost"""
    for g in closure_tree(prog, f):
        for b, t, c in calls(g):
            if c and (c.get("name") == "fn_constraints" or c.get("name") == "cost" and "CostFunction" in c["path"]):
                return True
    # entry points of the solver whose callees do
    return f.name in ("ego_step", "trego_step", "init", "next_iter")


def closure_tree(prog, f, seen=None):
    yield f
    for b, t, c in calls(f):
        for h in (c or {}).get("closures") or ():
            g = prog.fns.get(h)
            if g is not None and g.blocks:
                yield from closure_tree(prog, g)


def discrete_def(ctx, f):
    v = ctx.eval(f).val()
    # any(xtypes, |t| not Float)
    kinds = None
    for a in ctx.prog.adt("XType", "egobox_ego"):
        kinds = {x["n"]: x["d"] for x in a["vs"]}
    anys = [x for x in q.walk(v, control=False) if x.k == "call" and q.tail(x.d) in ("any", "all")]
    ok = bool(anys) and kinds
    for x in anys:
        p = x.a[-1]
        ds = [y for y in q.walk(p, control=True) if y.k == "discr"]
        for k, d in (kinds or {}).items():
            w = q.assume(p, {y: num(d) for y in ds})
            c = const_of(w)
            want = k != "Float"
            if q.tail(x.d) == "all":
                want = not want
            ok = ok and c is not None and bool(c) == want
    ctx.ob(ok, f"discrete:{f.short}", f"{f.short} does not tell whether some variable is not a float one: {E.show(v, 6)[:160]}", f.span)
