"""C18: the mixed-integer surrogate, its parameters and its samplings only ever work on decoded points."""
from vp import engine as E, q
from vp.engine import mk, select
from vp.facts import last_ident
from rules.c16 import rewrite, payload

ASSUMPTIONS = ["the decoding functions themselves are decided by C04; the inner mixture's operations are opaque here"]
OPS = ["predict", "predict_var", "predict_valvar", "predict_gradients", "predict_var_gradients", "predict_valvar_gradients", "sample"]
DEC = {"unfold_with_enum_mask", "cast_to_discrete_values_mut", "fold_with_enum_index"}
A0, A1, A2, A3 = (mk("param", f"a{i}") for i in range(4))


def opaque(c, fn):
    s = last_ident((fn.selfh or "").split("<")[0])
    return fn.name in DEC or (s in ("GpMixture", "GpMixtureValidParams") and (fn.name in OPS or fn.name in ("train", "train_on_clusters")))


def decoded(xtypes, x, folded):
    if folded:
        x = mk("call", "mixint::unfold_with_enum_mask", (xtypes, x))
    return mk("eff", ("mixint::cast_to_discrete_values_mut", 1), (xtypes, x))


def run(ctx):
    ctx.rule = ("Every operation of the mixed-integer surrogate, in both point forms (category index or one column per category), must reduce to the same operation of the inner mixture on the "
                "points unfolded (index form only) and then snapped to the declared types; trained models must keep types, form and parameters of their builder; samplings snap then fold.")
    prog = ctx.prog
    base = lambda f: last_ident((f.selfh or "").split("<")[0])
    fl = lambda b: q.TRUE if b else q.FALSE
    n = 0
    flag, xt = select(A0, "work_in_folded_space"), select(A0, "xtypes")
    for f in prog.fns.values():
        if f.crate != "egobox_ego" or f.kind != "AssocFn" or f.generated() or not f.blocks or base(f) != "MixintGpMixture":
            continue
        pin = f.name == "predict_inplace"
        if not ((f.name in OPS and f.trait) or pin):
            continue
        r = ctx.eval(f, selfty=f.selfh, opaque=opaque)
        v = r.arg_final(2) if pin else r.val()
        nm = "predict" if pin else f.name
        for folded in (False, True):
            n += 1
            want = mk("call", "GpMixture::" + nm, (select(A0, "moe"), decoded(xt, A1, folded)) + ((A2,) if nm == "sample" else ()))
            got = q.assume(v, {flag: fl(folded)})
            got, want = (payload(got), payload(want))
            if pin:
                want = select(want, "!")
            comps = ["0", "1"] if "valvar" in nm else [None]
            for c in comps:
                g, w = (got, want) if c is None else (select(got, c), select(want, c))
                ctx.ob(q.same(g, w, rewrite), f"{f.short}:{'folded' if folded else 'unfolded'}:{c or ''}",
                       f"{f.short} on points in {'index' if folded else 'mask'} form computes {E.show(g, 9)} instead of {E.show(w, 9)}", f.span)
    ctx.floor("operations of the mixed-integer surrogate (both point forms)", n, 16)
    n = 0
    for f in prog.fns.values():
        if f.crate != "egobox_ego" or f.kind != "AssocFn" or f.generated() or not f.blocks:
            continue
        if base(f) in ("MixintGpMixtureParams", "MixintGpMixtureValidParams") and f.name in ("train", "train_on_clusters", "fit"):
            vp = A0 if base(f) == "MixintGpMixtureValidParams" else select(A0, "0")
            x, y = A1, A2
            if f.name == "fit":
                x, y = mk("call", "DatasetBase::records", (A1,)), mk("call", "DatasetBase::targets", (A1,))
            flag, xt = select(vp, "work_in_folded_space"), select(vp, "xtypes")
            r = ctx.eval(f, selfty=f.selfh, opaque=opaque)
            for folded in (False, True):
                n += 1
                v = strip(payload(q.assume(r.val(), {flag: fl(folded)})))
                key = f"{f.short}:{'folded' if folded else 'unfolded'}"
                inner = "train_on_clusters" if f.name == "train_on_clusters" else "train"
                args = (select(select(vp, "surrogate_builder"), "0"), decoded(xt, x, folded), y) + ((A3,) if f.name == "train_on_clusters" else ())
                want = select(mk("call", "GpMixtureValidParams::" + inner, args), "!")
                for fld, w in [("moe", want), ("xtypes", xt), ("work_in_folded_space", fl(folded)), ("params", vp)]:
                    g = select(v, fld)
                    if fld == "params":
                        g = q.assume(g, {})
                        ok = all(q.same(q.assume(select(g, z), {flag: fl(folded)}), q.assume(select(vp, z), {flag: fl(folded)})) for z in ("surrogate_builder", "xtypes", "work_in_folded_space"))
                    else:
                        ok = q.same(g, w)
                    ctx.ob(ok, f"{key}:{fld}", f"{f.short} ({'index' if folded else 'mask'} form) yields a model whose {fld} is {E.show(g, 8)} instead of {E.show(w, 8)}", f.span)
                td = select(v, "training_data")
                ctx.ob(q.same(select(td, "0"), x) and q.same(select(td, "1"), y), key + ":training_data", f"{f.short} keeps {E.show(td, 6)} as training data", f.span)
        if base(f) == "MixintSampling" and f.name == "sample":
            r = ctx.eval(f, selfty=f.selfh, opaque=opaque)
            for folded in (False, True):
                n += 1
                got = q.assume(r.val(), {select(A0, "output_in_folded_space"): fl(folded)})
                s = mk("call", "SamplingMethod::sample", (select(A0, "method"), A1))
                want = decoded(select(A0, "xtypes"), s, False)
                if folded:
                    want = mk("call", "mixint::fold_with_enum_index", (select(A0, "xtypes"), want))
                ctx.ob(q.same(got, want), f"{f.short}:{'folded' if folded else 'unfolded'}", f"mixed-integer sampling in {'index' if folded else 'mask'} form returns {E.show(got, 8)} instead of {E.show(want, 8)}", f.span)
    ctx.floor("mixed-integer trainings and samplings (both point forms)", n, 8)
    # the context hands the same types and form to what it creates
    n = 0
    for f in prog.fns.values():
        if f.crate == "egobox_ego" and base(f) == "MixintContext" and f.name.startswith("create_") and f.kind == "AssocFn":
            n += 1
            r = ctx.eval(f, selfty=f.selfh, opaque=lambda c, fn: opaque(c, fn) or fn.name == "as_continuous_limits")
            v = strip(payload(r.val()))
            if v.k == "call" and q.tail(v.d) == "fit":  # training checked above: the parameters trained are what matters
                ctx.ob(q.same(v.a[1], A2), f"{f.short}:data", f"{f.short} trains on {E.show(v.a[1], 5)}", f.span)
                v = select(v.a[0], "0")
            fo = "work_in_folded_space" if "surrogate" in f.name else "output_in_folded_space"
            ctx.ob(q.same(select(v, "xtypes"), select(A0, "xtypes")), f"{f.short}:xtypes", f"{f.short} creates with types {E.show(select(v, 'xtypes'), 6)}", f.span)
            ctx.ob(q.same(select(v, fo), select(A0, "work_in_folded_space")), f"{f.short}:form", f"{f.short} creates with point form {E.show(select(v, fo), 6)}", f.span)
            if "surrogate" not in f.name:
                m = select(v, "method")
                lim = q.uses(m, lambda x: x.k == "call" and q.tail(x.d) == "as_continuous_limits", r.eng)
                ctx.ob(lim and all(x.a[0] is select(A0, "xtypes") for x in lim), f"{f.short}:domain", f"{f.short} samples a domain not derived from the declared types: {E.show(m, 6)}", f.span)
    ctx.floor("factories of the mixed-integer context", n, 4)


def strip(v):
    while v.k == "call" and len(v.a) == 1 and q.tail(v.d) in ("new", "unsize", "map"):
        v = v.a[0]
    return v
