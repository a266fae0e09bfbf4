"""C24: the configured infill criterion is the one optimized, value and gradient alike."""
import itertools
import math
from vp import engine as E, q
from vp.deriv import Formulas, Bad, show, close, elem_, TINY
from vp.engine import mk, num, select, const_of, STAR, ALL
from vp.facts import last_ident
from rules.c16 import payload

ASSUMPTIONS = ["predict_gradients and predict_valvar_gradients of a surrogate return the derivatives of its predict and predict_valvar (C25 for kernels)", "arithmetic over the reals",
               "the user's functions write the gradient of the value they return", "points where the variance is below 1e-12 and values clipped at such a constant are outside the comparison"]
A = [mk("param", f"a{i}") for i in range(12)]
# value -> its derivative
TWIN = {"eval_infill_obj": "eval_grad_infill_obj", "eval_infill_obj_with_cstrs": "eval_grad_infill_obj_with_cstrs", "pofs": "pofs_grad", "logpofs": "logpofs_grad"}
SELF_WRITING = {"mean_cstr", "upper_trust_bound_cstr"}
OPQ = set(TWIN) | set(TWIN.values()) | SELF_WRITING | {"log_ei_helper", "d_log_ei_helper", "set_active_x", "to_user_space"}
NEUTRAL = {"pofs": {(): 1}, "logpofs": {}, "pofs_grad": {}, "logpofs_grad": {}}


def point(v):
    while True:
        if v.k == "sel" and v.d == "!":
            v = v.a[0]
        elif v.k == "call" and q.tail(v.d) in ("from_shape", "from_shape_vec") and len(v.a) == 2:
            v = v.a[1]
        elif v.k == "call" and q.tail(v.d) in ("insert_axis", "to_vec", "view", "to_owned", "from_vec", "clone", "into_shape_with_order", "as_slice", "as_standard_layout", "from", "aview1") and v.a:
            v = v.a[0]
        else:
            return v


class Crit(Formulas):
    def __init__(self, eng, pts, comp=None):
        super().__init__(eng, self.lf)
        self.pts, self.comp, self.key = pts, comp, q.Keyer()

    def nm(self, n):
        return E.show(elem_(n), 7)

    def dep(self, n):
        return q.uses(n, lambda x: x in self.pts, self.eng)

    def named(self, name, d):
        """a quantity of the point, with the name of its derivative"""
        return self.atom(name, "of", self.atom(d, "const"))

    def model(self, m, x):
        if point(x) not in self.pts:
            raise Bad(f"a surrogate is asked at {E.show(x, 6)}")
        return self.nm(m)

    def lf(self, n):
        # predictions of a surrogate at the point
        if n.k == "elem":
            b, idx = n.a[0], n.a[1:]
            k, base = None, b
            if b.k == "sel" and b.d in ("0", "1"):
                k, base = int(b.d), b.a[0]
            base = payload(base)
            base = base.a[0] if base.k == "sel" and base.d == "!" else base
            if base.k == "call" and len(base.a) == 2:
                s = q.tail(base.d)
                w = {"predict": {None: "y"}, "predict_var": {None: "v"}, "predict_valvar": {0: "y", 1: "v"}}.get(s, {}).get(k)
                if w and all(E.is_num(i, 0) for i in idx):
                    m = self.model(*base.a)
                    if w == "y":
                        return self.named(f"y<{m}>", f"dy<{m}>")
                    self.reg.setdefault(f"dv<{m}>", ("const",))
                    p = self.atom(f"σ<{m}>", "sigma", {((f"dv<{m}>", 1),): 1})
                    return self.pmul(p, p)
                w = {"predict_gradients": {None: "dy"}, "predict_var_gradients": {None: "dv"}, "predict_valvar_gradients": {0: "dy", 1: "dv"}}.get(s, {}).get(k)
                if w and E.is_num(idx[0], 0) and len(idx) <= 2:
                    m = self.model(*base.a)
                    if len(idx) == 2 and idx[1] is not ALL:
                        self.index.add(idx[1])
                    return self.atom(f"{w}<{m}>", "const")
        if n.k == "call":
            s = q.tail(n.d)
            if n.d.endswith("InfillCriterion::value") or n.d.endswith("InfillCriterion::grad"):
                t = ",".join(self.nm(x) for x in n.a)
                self.pt(n.a[1])
                return self.named(f"crit({t})", f"crit'({t})") if s == "value" else self.atom(f"crit'({t})", "const")
            for v, g in TWIN.items():
                if s in (v, g):
                    t = ",".join(self.nm(x) for x in n.a)
                    self.pt(n.a[1 if "eval" in v else 0])
                    return self.named(f"{v}({t})", f"{v}'({t})") if s == v else self.atom(f"{v}'({t})", "const")
            if s == "log_ei_helper":
                p = self.ex(n.a[0])
                return self.atom(f"logei[{show(p)}]", "fun", "logei", p)
            if s == "d_log_ei_helper":
                p = self.ex(n.a[0])
                return self.atom(f"logei'[{show(p)}]", "fun'", "logei", p)
            if s in SELF_WRITING or s == "apply":
                t = self.args(n.a)
                self.pt(n.a[1])
                return self.named(f"{s}({t})", f"{s}'({t})")
            if s == "call1":
                return self.py(n)
            if s in ("attach", "extract", "as_slice", "readonly", "downcast_into", "cast_into") and n.a:
                return self.ex(n.a[0])
        if n.k == "eff":
            s = q.tail(n.d[0])
            if s in SELF_WRITING or s == "apply":
                t = self.args(n.a)
                self.pt(n.a[1])
                return self.atom(f"{s}'({t})", "const")
        if n.k == "sel" and n.d == "!" and n.a[0].k == "call" and q.tail(n.a[0].d) in ("call1", "extract", "attach", "as_slice", "downcast_into", "cast_into"):
            return self.ex(n.a[0])
        if n.k in ("param", "sel", "elem", "discr") and not self.dep(n) or n.k == "call" and q.tail(n.d) in ("len", "ncols") or n.k == "phi" and False:
            return self.atom(self.nm(n), "const")
        return None

    def args(self, a):
        return ",".join("grad" if x.k == "agg" and x.d[0].endswith("Option") else self.nm(x) for x in a)

    def py(self, n):
        t = n.a[1]
        if t.k != "agg" or len(t.a) != 2 or const_of(t.a[1]) not in (True, False, 0, 1):
            raise Bad("a call of a Python function")
        x = point(t.a[0])
        while x.k == "call" and x.a and q.tail(x.d) in ("into_pyarray", "to_pyarray", "from_slice"):
            x = point(x.a[0])
        self.pt(x)
        f = self.nm(n.a[0])
        return self.atom(f"py'({f})", "const") if const_of(t.a[1]) else self.named(f"py({f})", f"py'({f})")

    def pt(self, x):
        """the point a function of the point is asked at"""
        x = point(x)
        if x.k == "call" and q.tail(x.d) == "to_user_space":
            x = point(x.a[1])
        if x in self.pts:
            if self.comp is not None:
                raise Bad("the activated components alone are taken for a point")
            return
        if x.k == "eff" and q.tail(x.d[0]) == "set_active_x" and x.a[2] in self.pts:
            self.index.add(E.elem(x.a[1], STAR))
            return
        raise Bad(f"a function of the point is asked at {E.show(x, 6)}")

    def other(self, n):
        raise Bad(f"{E.show(n, 4)[:200]} is not read")


def conditions(vs, eng, F):
    """decisions the formulas depend on: {key: [(condition, truth when the key holds)]}"""
    out, fixed = {}, {}
    for v in vs:
        for x in q.walk(v, eng, control=True):
            cs = []
            if x.k == "phi":
                cs = [c for g in x.d for alt in g for c, _ in alt]
            elif x.k == "op" and x.d in ("Eq", "Ne") and any(isinstance(const_of(y), str) for y in x.a):
                cs = [x]
            for c in cs:
                put(c, out, fixed, F)
    return out, fixed


def put(c, out, fixed, F):
    t = True
    while c.k == "op" and c.d == "Not":
        c, t = c.a[0], not t
    if c.k == "op" and c.d in ("BitAnd", "BitOr"):
        for x in c.a:
            put(x, out, fixed, F)
        return
    if c.k == "discr":
        b = payload(c.a[0])
        b = b.a[0] if b.k == "sel" and b.d == "!" else b
        if b.k == "call" and q.tail(b.d).startswith("predict"):
            fixed[c] = num(0)
        elif b.k == "call" and q.tail(b.d) in ("next", "attach", "extract", "call1"):
            pass
        else:
            out.setdefault(("some", c), []).append((c, num(1), num(0)))
    elif c.k == "op" and c.d in ("Lt", "Le"):
        try:
            p = q.padd(F.ex(c.a[0]), F.ex(c.a[1]), -1)
        except Bad:
            # clipping of a small quantity: the clipped region is outside the comparison
            k = [i for i in (0, 1) if isinstance(const_of(c.a[i]), float) and 0 < const_of(c.a[i]) <= TINY]
            if len(k) != 1:
                raise
            fixed[c] = mk("clip", k[0] == 0)
            return
        lead = max(m for m in p) if p else ()
        s = 1 if p.get(lead, 1) > 0 else -1
        k = show({m: v * s for m, v in p.items()})
        # key: the canonical difference is negative
        neg = E.boolc(s > 0)
        pos = E.boolc(s < 0)
        out.setdefault(("lt", k, degenerate({m: v * s for m, v in p.items()}, F)), []).append((c, neg, pos))
    elif c.k == "op" and c.d in ("Eq", "Ne"):
        if any(y.k == "call" and q.tail(y.d) == "index" for y in c.a):
            return
        k = tuple(sorted((x.i for x in c.a)))
        out.setdefault(("eq", k, tuple(const_of(x) for x in c.a)), []).append((c, E.boolc(c.d == "Eq"), E.boolc(c.d != "Eq")))
    elif c.k == "call" and q.tail(c.d) in ("is_nan", "any"):
        fixed[c] = E.boolc(False)
    elif c.k == "call" and q.tail(c.d) == "is_empty":
        out.setdefault(("empty", c), []).append((c, E.boolc(True), E.boolc(False)))
    elif c.k in ("param", "sel", "call", "elem"):
        out.setdefault(("is", c), []).append((c, E.boolc(True), E.boolc(False)))


def settle(facts):
    """clipping: decided when the clipped quantity is a constant in this case"""
    rest = {c: w for c, w in facts.items() if w.k != "clip"}
    for c, w in facts.items():
        if w.k == "clip":
            d = q.assume(c, rest)
            rest[c] = d if d.k == "const" else E.boolc(w.d)
    return rest


def degenerate(p, F):
    """p < 0 says that a variance is below a tiny constant"""
    ms = [m for m in p if m]
    if len(ms) == 1 and len(ms[0]) == 1 and F.reg.get(ms[0][0][0], ("",))[0] == "sigma" and ms[0][0][1] > 0:
        b = -p.get((), 0) / p[ms[0]]
        return 0 < b <= TINY
    return False


def compare(ctx, tag, what, v, g, eng, mkF, span, refs=None, comp=None):
    """the gradient g is the derivative of the value v in every case"""
    try:
        conds, fixed = conditions([v, g], eng, mkF())
    except Bad as e:
        ctx.fail(f"{tag}:read", f"{what}: a condition cannot be read: {e}", span)
        return 0
    keys = list(conds)
    if len(keys) > 10:
        ctx.fail(f"{tag}:read", f"{what} branches on {len(keys)} conditions", span)
        return 0
    n, seen = 0, set()
    for vals in itertools.product((True, False), repeat=len(keys)):
        facts = dict(fixed)
        for k, t in zip(keys, vals):
            for c, yes, no in conds[k]:
                facts[c] = yes if t else no
        deg = any(k[0] == "lt" and k[2] and t for k, t in zip(keys, vals))
        facts = settle(facts)
        F = mkF()
        F.facts = facts
        names = " ".join(f"{'' if t else 'not '}{label(k)}" for k, t in zip(keys, vals))
        v1, g1 = q.assume(v, facts), q.assume(g, facts)
        empty = any(k[0] == "empty" and t for k, t in zip(keys, vals))
        if (v1, g1, deg, empty) in seen:
            continue
        seen.add((v1, g1, deg, empty))
        if empty:
            F.empty = {f"<{E.show(k[1].a[0], 6)}>" for k, t in zip(keys, vals) if k[0] == "empty" and t}
            old = F.lf
            F.leaf = lambda x, old=old: NEUTRAL[q.tail(x.d)] if x.k == "call" and q.tail(x.d) in NEUTRAL else old(x)
        try:
            pv, pg = F.ex(v1), F.ex(g1)
            if deg:
                bad = F.singular(pv) | F.singular(pg)
                n += 1
                ctx.ob(not bad, f"{tag}:degenerate", f"{what}: where the variance vanishes ({names}) the value or the gradient divides by it or takes its logarithm", span)
                continue
            d = F.D(pv)
            n += 1
            ok = close(d, pg)
            ctx.ob(ok, f"{tag}:gradient", f"{what}: with {names or 'any input'} the gradient is {show(pg)[:300]} where the derivative of the value is {show(d)[:300]}", span)
            if comp is not None:
                idx = {elem_(i) for i in F.index}
                ctx.ob(idx == {elem_(comp)}, f"{tag}:component", f"{what}: component {E.show(comp, 4)} of the gradient is taken at {[E.show(i, 4) for i in idx]}", span)
            if refs:
                r = refs(F, dict(zip(keys, vals)), facts)
                if r is not None:
                    ctx.ob(close(pv, r), f"{tag}:formula", f"{what} is {show(pv)[:300]} where its definition is {show(r)[:300]} ({names})", span)
            if F.singular(pv) and tag.startswith("criterion") or F.singular(pg):
                own = any(k[0] == "lt" and k[2] for k in keys)
                ctx.ob(own, f"{tag}:degenerate", f"{what}: a vanishing variance is not set apart from the division by it", span)
        except Bad as e:
            ctx.fail(f"{tag}:read", f"{what}: {e}", span)
    return n


def label(k):
    if k[0] == "lt":
        return f"{k[1]} < 0"
    if k[0] == "eq":
        return f"{k[2]} equal"
    return f"{k[0]} {E.show(k[1], 4)}"


def lent(eng, name="G"):
    """Some(&mut buffer)"""
    cell = ("A", name)
    eng.env[cell] = mk("param", name)
    return E.agg("std::option::Option", "Some", 1, ("0",), (mk("ref", (cell, (), True)),))


G = mk("param", "G")


def written(v, eng):
    """the buffer's final content -> (component value, index of the source component | None)"""
    if v.k == "phi":
        xs = [x for x in v.a if x is not G]
        if len(xs) == 1:
            return written(xs[0], eng)
        if len(xs) == len(v.a) and all(x.k == "eff" and q.tail(x.d[0]) in SELF_WRITING for x in xs):
            return v, None
    if v.k == "eff" and q.tail(v.d[0]) == "copy_from_slice":
        return v.a[1], None
    if v.k == "eff":
        return v, None
    if v.k == "mu":
        w = q.pointwise(v)
        if w is not v:
            return w, None
        ops = [x for x in E.MU.get(v, ()) if x is not v]
        body = [x for x in ops if any(y is v for y in q.walk(x))]
        init = [x for x in ops if x not in body]
        if len(body) == 1 and len(init) == 1:
            b = body[0]
            if b.k == "eff" and q.tail(b.d[0]) == "copy_from_slice":
                return b.a[1], None
            if b.k == "wr" and b.a[0] is v and len(b.a) == 3:
                i = b.a[2]
                if i is STAR:
                    return q.subst(b.a[1], {E.elem(v, STAR): init[0]}), None
                e = elem_(i)
                if init[0] is G and e.k == "elem" and e.a[0] is G and e.a[1] is STAR:
                    return b.a[1], i
                # *grad[k] = g[active[k]] with k walking the active components
                if i.k == "call" and q.tail(i.d) == "index" and init[0] is G:
                    ls = [x for x in E.LOOPS.get(v.d[:2], ()) if x.k == "call" and q.tail(x.d) == "enumerate"]
                    if len(ls) == 1:
                        return b.a[1], select(E.elem(ls[0], STAR), "0")
                    return b.a[1], i
                if i.k == "sel" and i.d == "0" and init[0] is G:
                    return b.a[1], i
    raise Bad(f"the gradient buffer ends as {E.show(v, 6)[:200]}")


def criteria(ctx):
    prog = ctx.prog
    impls = {}
    for f in prog.fns.values():
        if f.crate == "egobox_ego" and f.trait and last_ident(f.trait.split("<")[0]) == "InfillCriterion" and f.blocks and f.name in ("value", "grad", "name") and not f.generated():
            impls.setdefault(last_ident(f.selfh.split("<")[0]), {})[f.name] = f
    ctx.floor("infill criteria", len(impls), 3)
    for ty, fs in sorted(impls.items()):
        if not {"value", "grad"} <= set(fs):
            continue
        eng = ctx.engine(opaque=lambda c, g: g.name in OPQ)
        v = ctx.eval(fs["value"], eng=eng).val()
        g = ctx.eval(fs["grad"], eng=eng).val()

        def refs(F, case, facts, ty=ty):
            y, s = {(("y<a2>", 1),): 1}, {(("σ<a2>", 1),): 1}
            k = {(): 1}
            if "σ<a2>" not in F.reg:
                return None
            for key, t in case.items():
                if key[0] == "some" and key[1].a[0] is A[4] and t:
                    k = {(("a4.!", 1),): 1}
            d = q.padd({(("a3", 1),): 1}, y, -1)
            if ty == "LogExpectedImprovement":
                u = F.pmul(d, F.inv(s))
                return q.padd(F.atom(f"logei[{show(u)}]", "fun", "logei", u), F.ln(s))
            ks = F.pmul(k, s)
            u = F.pmul(d, F.inv(ks))
            cdf = F.pmul({(): 0.5}, F.erfc({m: -c / math.sqrt(2) for m, c in u.items()}))
            pdf = F.pmul({(): 1 / math.sqrt(2 * math.pi)}, F.exp({m: -c / 2 for m, c in F.pmul(u, u).items()}))
            ei = F.pmul(ks, q.padd(F.pmul(u, cdf), pdf))
            if ty == "ExpectedImprovement":
                return ei
            if ty == "WB2Criterion":
                sc, own = {(): 1}, {(): 1}
                for key, t in case.items():
                    if key[0] == "some" and key[1].a[0] is A[5]:
                        sc = {(("a5.!", 1),): 1} if t else None
                    elif key[0] == "some" and key[1].a[0] is select(A[0], "0"):
                        own = {(("a0.0.!", 1),): 1} if t else {(): 1}
                return q.padd(F.pmul(sc or own, ei), y, -1)
            return None
        n = compare(ctx, f"criterion:{ty}", ty, v, g, eng, lambda: Crit(eng, {A[1]}), fs["grad"].span, refs)
        ctx.floor(f"cases of {ty}", n, 2)
    return impls


def fun(ctx, name, has=""):
    r = [f for f in ctx.prog.fns.values() if f.crate == "egobox_ego" and f.name == name and f.blocks and has in f.short and not f.generated()]
    if len(r) != 1:
        raise LookupError(f"{name} matches {len(r)} functions")
    return r[0]


def pair(ctx, tag, vn, gn, opaque, pts, least=1):
    vf, gf = fun(ctx, vn), fun(ctx, gn)
    eng = ctx.engine(opaque=lambda c, g: g.name in opaque)
    v = ctx.eval(vf, eng=eng).val()
    g = ctx.eval(gf, eng=eng).val()
    n = compare(ctx, tag, vf.short, v, g, eng, lambda: Crit(eng, pts), gf.span)
    ctx.floor(f"cases of {vn}", n, least)
    return v, eng


def helper(ctx):
    """log(φ(u) + u·Φ(u)) and its derivative, branch by branch"""
    vf, gf = fun(ctx, "log_ei_helper"), fun(ctx, "d_log_ei_helper")
    eng = ctx.engine()
    v, g = ctx.eval(vf, eng=eng).val(), ctx.eval(gf, eng=eng).val()

    class H(Crit):
        def lf(self, n):
            if n is A[0]:
                self.reg["1"] = ("const",)
                return self.atom("u", "of", {(): 1})
            return None
    exact = []

    def refs(F, case, facts):
        u = {(("u", 1),): 1}
        cdf = F.pmul({(): 0.5}, F.erfc({(("u", 1),): -1 / math.sqrt(2)}))
        pdf = F.pmul({(): 1 / math.sqrt(2 * math.pi)}, F.exp({(("u", 2),): -0.5}))
        full = q.padd(pdf, F.pmul(u, cdf))
        pv = F.ex(q.assume(v, facts))
        if not any(F.reg.get(x, ("",))[0] == "erfc" for x in F.reg):
            return None
        if "erfc" not in show(pv):
            return None  # asymptotic branch: the derivative alone is compared
        e = F.exp(pv)
        neg = {}
        for m, c in e.items():
            k = dict(m)
            t = k.pop("abs[u]", 0)
            mm = dict(k)
            mm["u"] = mm.get("u", 0) + t
            key = tuple(sorted((x, i) for x, i in mm.items() if i))
            neg[key] = neg.get(key, 0) + c * (-1) ** t
        exact.append(1)
        return pv if close(neg, full) or close(e, full) else full
    n = compare(ctx, "helper", "log_ei_helper", v, g, eng, lambda: H(eng, {A[0]}), gf.span, refs)
    ctx.floor("branches of log_ei_helper", n, 3)
    ctx.floor("exact branches of log_ei_helper", len(exact), 2)


def objectives(ctx):
    # criterion objective: -criterion / scale, and its constrained form
    v, _ = pair(ctx, "objective", "eval_infill_obj", "eval_grad_infill_obj", OPQ, {A[1]})
    vf = fun(ctx, "eval_infill_obj")
    eng = ctx.engine(opaque=lambda c, g: g.name in OPQ)
    F = Crit(eng, {A[1]})
    try:
        p = F.ex(v)
        want = [x for x in F.reg if x.startswith("crit(")]
        ok = len(want) == 1 and close(p, {tuple(sorted([(want[0], 1), ("a4", -1)])): -1})
        ctx.ob(ok, "objective:formula", f"the objective of the inner optimization is {show(p)}, not the opposite of the configured criterion divided by its scale", vf.span)
    except Bad as e:
        ctx.fail("objective:read", str(e), vf.span)
    v, eng = pair(ctx, "objective:constrained", "eval_infill_obj_with_cstrs", "eval_grad_infill_obj_with_cstrs", OPQ, {A[1]}, 4)
    constrained(ctx, v, eng, fun(ctx, "eval_infill_obj_with_cstrs"))
    v, _ = pair(ctx, "feasibility", "pofs", "pofs_grad", {"log_ei_helper"}, {A[0]}, 2)
    pair(ctx, "feasibility:log", "logpofs", "logpofs_grad", {"log_ei_helper"}, {A[0]}, 2)


def constrained(ctx, v, eng, f):
    """criterion × probability of feasibility (a sum when in logarithms); the criterion is neutral while nothing is feasible"""
    conds, fixed = conditions([v], eng, Crit(eng, {A[1]}))
    name = [k for k in conds if k[0] == "eq" and "LogEI" in k[2]]
    feas = [k for k in conds if k[0] == "is" and k[1] is A[8]]
    if not ctx.ob(len(name) == 1 and len(feas) == 1 and len(conds) == 2, "objective:constrained:cases",
                  f"{f.short} depends on {[label(k) for k in conds]}, not on the criterion being in logarithms and on the feasibility", f.span):
        return
    for log, fe in itertools.product((True, False), repeat=2):
        facts = dict(fixed)
        for k, t in ((name[0], log), (feas[0], fe)):
            for c, yes, no in conds[k]:
                facts[c] = yes if t else no
        facts = settle(facts)
        F = Crit(eng, {A[1]})
        F.facts = facts
        try:
            p = F.ex(q.assume(v, facts))
        except Bad as e:
            ctx.fail("objective:constrained:read", str(e), f.span)
            continue
        at = {m for m in F.reg if m.split("(")[0] in ("eval_infill_obj", "pofs", "logpofs")}
        o = [m for m in at if m.startswith("eval_infill_obj(")]
        pr = [m for m in at if m.startswith("logpofs(" if log else "pofs(")]
        ok = len(pr) == 1 and len(o) == (1 if fe else 0)
        if ok:
            ob = {((o[0], 1),): 1} if fe else ({} if log else {(): -1})
            want = q.padd(ob, {((pr[0], 1),): 1}, -1) if log else F.pmul(ob, {((pr[0], 1),): 1})
            ok = close(p, want)
        ctx.ob(ok, "objective:constrained:formula", f"{f.short} is {show(p)[:300]} with a criterion {'in logarithms' if log else 'in plain values'} and {'a' if fe else 'no'} feasible point known", f.span)


def buffers(ctx):
    """functions which write the gradient of the value they return"""
    n = 0
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.span or ""):
        if f.crate not in ("egobox_ego", "egobox") or not f.blocks or f.generated():
            continue
        gi = [i for i in range(f.argc) if "Option<&" in f.locals[i + 1][0] and "mut [f64]" in f.locals[i + 1][0]]
        if len(gi) != 1:
            continue
        closure = f.kind == "Closure"
        eng = ctx.engine(opaque=lambda c, g: g.name in OPQ)
        r = ctx.eval(f, args={gi[0]: lent(eng)}, eng=eng)
        v = r.val()
        g = eng.val(eng.read(("c", ("A", "G"), ())))
        xs = [i for i in range(f.argc) if f.locals[i + 1][0] in ("&[f64]",)]
        pts = {A[xs[0]]} if xs else set()
        tag = f"buffer:{f.name if not closure else 'closure in ' + (f.span or '').split(':')[0].rsplit('/', 1)[-1]}"
        n += 1
        if not ctx.ob(bool(xs), f"{tag}:point", f"{f.short} has no point", f.span):
            continue
        try:
            conds, fixed = conditions([v, g], eng, Crit(eng, pts))
            fixed = settle(fixed)
            g2 = q.assume(g, fixed)
            gv, at = written(g2, eng)
        except Bad as e:
            ctx.fail(f"{tag}:read", f"{f.short}: {e}", f.span)
            continue
        v = q.assume(v, fixed)
        comp = None
        if at is not None:
            comp = active(at)
            if not ctx.ob(comp is not None, f"{tag}:component", f"{f.short} writes the component at {E.show(at, 5)}, not one per active component", f.span):
                continue
            ctx.ob(closure and q.uses(v, lambda x: x.k == "eff" and q.tail(x.d[0]) == "set_active_x", eng) or not closure, f"{tag}:component",
                   f"{f.short} writes the gradient of active components only, but is a function of all components", f.span)
        compare(ctx, tag, f"{f.short} ({f.span})", v, gv, eng, lambda: Buf(eng, pts, comp if closure else None), f.span, comp=comp)
    ctx.floor("functions writing a gradient", n, 6)


class Buf(Crit):
    """gradient buffers: G itself stands for no value"""


def active(at):
    """the k-th written component of the buffer corresponds to this active component"""
    e = elem_(at)
    if e.k == "elem" and e.a[0] is G:
        # zip(G, active): find the other side
        s = at.a[0] if at.k == "sel" else None
        if s is not None and s.k == "elem" and s.a[0].k == "call" and q.tail(s.a[0].d) == "zip":
            z = s.a[0]
            o = z.a[1] if z.a[0] is G else z.a[0]
            return elem_(E.elem(o, STAR))
    if at.k == "call" and q.tail(at.d) == "index" and at.a and at.a[0].k == "call" and q.tail(at.a[0].d) == "enumerate":
        return elem_(E.elem(at.a[0].a[0], STAR))
    if at.k == "sel" and at.d == "0" and at.a[0].k == "elem" and at.a[0].a[0].k == "call" and q.tail(at.a[0].a[0].d) == "enumerate":
        return elem_(E.elem(at.a[0].a[0].a[0], STAR))
    if at.k == "call" and q.tail(at.d) == "index":
        return elem_(E.elem(at.a[0], STAR))
    return None


def constant(ctx, w):
    if w.k == "const" and str(w.d[0]).startswith("def:"):
        fs = [f for f in ctx.prog.fns.values() if f.path == w.d[0][4:] and f.kind == "Const" and f.blocks]
        if len(fs) == 1:
            return ctx.eval(fs[0]).val()
    return w


def strategy(ctx, impls):
    """each strategy name selects the criterion of that name"""
    f = fun(ctx, "infill_strategy", "EgorConfig")
    ad = [a for a in ctx.prog.adt("InfillStrategy", "egobox_ego") if a["kind"].lower() == "enum"]
    if len(ad) != 1:
        raise LookupError("InfillStrategy")
    r = ctx.eval(f)
    got = select(select(r.val(), "0"), "infill_criterion")
    if got is select(select(A[0], "0"), "infill_criterion") or got.k == "sel":
        got = select(r.val(), "infill_criterion")
    ds = [x for x in q.walk(got, r.eng, control=True) if x.k == "discr" and x.a[0] is A[1]]
    n = 0
    for va in ad[0]["vs"]:
        w = q.assume(got, {d: num(int(va["d"])) for d in ds})
        want = {"EI": ("ExpectedImprovement", None), "LogEI": ("LogExpectedImprovement", None), "WB2": ("WB2Criterion", 1.0), "WB2S": ("WB2Criterion", "None")}.get(va["n"])
        if want is None:
            continue
        n += 1
        w = constant(ctx, w)
        ok = w.k == "agg" and last_ident(w.d[0]) == want[0] or w.k == "const" and last_ident(str(w.d[1])) == want[0] and want[1] is None
        if ok and want[1] is not None:
            o = w.a[0]
            ok = o.k == "agg" and (o.d[1] == "None" if want[1] == "None" else o.d[1] == "Some" and const_of(o.a[0]) == 1.0)
        ctx.ob(ok, f"strategy:{va['n']}", f"the strategy {va['n']} selects {E.show(w, 4)}", f.span)
    ctx.floor("strategies", n, 4)
    for ty, want in (("ExpectedImprovement", "EI"), ("LogExpectedImprovement", "LogEI")):
        nm = ctx.eval(impls[ty]["name"]).val()
        ctx.ob(const_of(nm) == want, f"name:{want}", f"the criterion {ty} is named {E.show(nm)}, while the objective is chosen by the name {want}", impls[ty]["name"].span)
    w = impls["WB2Criterion"]["name"]
    for arg, want in ((E.agg("std::option::Option", "Some", 1, ("0",), (num(1.0),)), "WB2"), (E.agg("std::option::Option", "None", 0, (), ()), "WB2S")):
        eng = ctx.engine()
        v = q.assume(ctx.eval(w, args={0: E.agg("criteria::wb2::WB2Criterion", "WB2Criterion", 0, ("0",), (arg,))}, eng=eng).val(), {A[11]: num(0)})
        ctx.ob(const_of(v) == want, f"name:{want}", f"the criterion {want} is named {E.show(v)}", w.span)


def run(ctx):
    ctx.rule = ("The formula of each criterion, of the probabilities of feasibility, of the (constrained) objective of the inner optimization and of every function which fills a gradient buffer is extracted case by case from the value graph, "
                "differentiated symbolically and compared to the gradient's own formula; criteria are compared to their definitions, strategies and names to the criterion they select.")
    impls = criteria(ctx)
    helper(ctx)
    objectives(ctx)
    buffers(ctx)
    strategy(ctx, impls)
