"""C16: asking for value and variance (or their gradients) together gives what asking for each alone gives."""
from vp import engine as E, q
from vp.facts import last_ident

PAIRS = {"predict_valvar": ("predict", "predict_var"), "predict_valvar_gradients": ("predict_gradients", "predict_var_gradients")}
ASSUMPTIONS = ["surrogates behind a `dyn` reference satisfy the same property (each implementation in the workspace is checked itself)"]


def rewrite(n):
    """payload 0/1 of an unresolved combined prediction -> the separate prediction"""
    if n.k == "sel" and n.d in ("0", "1"):
        s = n.a[0]
        if s.k == "sel" and s.d == "!" and s.a[0].k == "call":
            c = s.a[0]
            t = PAIRS.get(q.tail(c.d))
            if t:
                return E.select(E.mk("call", c.d.rsplit("::", 1)[0] + "::" + t[int(n.d)], c.a), "!")
        if s.k == "call" and q.tail(s.d) in PAIRS:
            return E.mk("call", s.d.rsplit("::", 1)[0] + "::" + PAIRS[q.tail(s.d)][int(n.d)], s.a)
    return None


def payload(v):
    """success value of a Result, or the value itself"""
    p = E.select(v, "!")
    return v if p.k == "sel" and p.a[0] is v else p


def same_type(f, g):
    return f.crate == g.crate and f.trait == g.trait and (f.selfh or "").split("<")[0] == (g.selfh or "").split("<")[0]


def run(ctx):
    ctx.rule = ("For every type of the workspace with a combined value+variance prediction (or combined gradients): the canonical value graph of each component of the combined result "
                "must be identical to that of the separate prediction on the same model and points, dynamic calls to experts being related by the same rule.")
    n = 0
    for comb, parts in PAIRS.items():
        for f in [f for f in ctx.prog.fns.values() if f.name == comb and not f.generated() and f.kind == "AssocFn" and f.selfh]:
            if not f.blocks:
                continue
            vf = payload(ctx.eval(f, selfty=f.selfh, opaque=ops(f)).val())
            for i, nm in enumerate(parts):
                g = [x for x in ctx.prog.fns.values() if x.name == nm and x.kind == "AssocFn" and not x.generated() and same_type(f, x)]
                if len(g) != 1:
                    ctx.fail(f"{f.short}:{nm}", f"{f.short}: found {len(g)} separate predictions named {nm}", f.span)
                    continue
                gv = payload(ctx.eval(g[0], selfty=g[0].selfh, opaque=ops(f)).val())
                fv = E.select(vf, str(i))
                n += 1
                ctx.ob(q.same(fv, gv, rewrite) or same_formula(ctx, f, fv, gv), f"{last_ident(f.selfh)}::{comb}:{nm}",
                       f"component {i} of {f.short} computes {E.show(fv, 8)} whereas {nm} computes {E.show(gv, 8)}", f.span)
    ctx.floor("combined/separate component pairs compared", n, 72)


def same_formula(ctx, f, a, b):
    """same labelled tensor formula, in each recombination mode (mixtures only)"""
    if last_ident(f.selfh).split("<")[0] != "GpMixture":
        return False
    from rules import c17
    from vp.tensor import Bad
    adt = ctx.prog.adt("Recombination", "egobox_moe")
    for i, v in enumerate(adt[0]["vs"]):
        hard = v["n"] == "Hard"
        out = []
        for w in (a, b):
            w = q.assume(w, {x: E.num(i) for x in c17.discrs(w, None)})
            ts = c17.leaf(hard)(None)
            try:
                t = ts.ev(w)
                out.append((t.labels, ts.split(t.p)))
            except Bad:
                return False
        if out[0] != out[1]:
            return False
    return True


FAMILY = set(PAIRS) | {x for p in PAIRS.values() for x in p}


def ops(f):
    """predictions of other model types are compared through their own instance of the property"""
    me = (f.selfh or "").split("<")[0]

    def o(c, fn):
        return fn.name in ("predict_probas", "predict_probas_derivatives") or (fn.name == "predict" and "GaussianMixture" in (fn.selfh or "")) \
            or (fn.name in FAMILY and (fn.selfh or "").split("<")[0] != me)
    return o
