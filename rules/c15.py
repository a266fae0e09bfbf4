"""C15: each surrogate kind forwards each operation to its own model, each parameter setter to its own parameter."""
from vp import engine as E, q
from vp.facts import last_ident
from rules.c16 import rewrite, payload, PAIRS

ASSUMPTIONS = ["the regression and correlation models behind type parameters are opaque (same on both sides of each comparison)"]
TRAITS = ("GpSurrogate", "GpSurrogateExt", "GpParameterized")
OPS = ["dims", "predict", "predict_var", "predict_valvar", "predict_gradients", "predict_var_gradients", "predict_valvar_gradients", "sample", "theta", "variance", "likelihood", "noise_variance"]
SETTERS = ["theta_tuning", "kpls_dim", "n_start", "max_eval", "nugget", "sparse_method", "seed"]
INNER = {"GaussianProcess", "SparseGaussianProcess", "GpParams", "SgpParams"}


def base(ty):
    return last_ident((ty or "").split("<")[0])


def run(ctx):
    ctx.rule = ("For every surrogate kind: the canonical value graph of each trait operation must be that of the same-named operation of the wrapped Gaussian process applied to the wrapped field and the same arguments; "
                "each setter of its parameters must leave exactly what the same-named setter of the wrapped parameters leaves; training must fit the wrapped parameters on the given points and outputs.")
    prog = ctx.prog
    inh = {}
    for f in prog.fns.values():
        if f.crate == "egobox_gp" and f.kind == "AssocFn" and not f.trait and base(f.selfh) in INNER and not f.generated():
            inh.setdefault((base(f.selfh), f.name), []).append(f)
    # several impl blocks may carry the same name: the generic one is meant
    kinds, nops, nset = set(), 0, 0
    for f in prog.fns.values():
        if f.crate != "egobox_moe" or f.kind != "AssocFn" or not f.trait or f.generated() or not f.blocks:
            continue
        sty = base(f.selfh)
        w = wrapped(prog, sty)
        if not w:
            continue
        if last_ident(f.trait) in TRAITS and f.name in OPS:
            kinds.add(sty)
            nops += 1
            key = f"{sty}::{f.name}"
            got = payload(ctx.eval(f, selfty=f.selfh, opaque=opaque).val())
            if f.name == "noise_variance" and w == "GaussianProcess":
                ctx.ob(E.is_num(got, 0), key, f"{key}: a Gaussian process without noise must report a null noise variance, got {E.show(got, 5)}", f.span)
                continue
            g = inh.get((w, f.name))
            if not g and f.name in PAIRS and all(len(inh.get((w, x), [])) == 1 for x in PAIRS[f.name]):
                # the model has no combined operation: the pair of its separate ones is meant
                for i, nm in enumerate(PAIRS[f.name]):
                    want = payload(ctx.eval(inh[(w, nm)][0], args={0: E.select(E.mk("param", "a0"), "0")}, opaque=opaque).val())
                    ctx.ob(q.same(E.select(got, str(i)), want, rewrite), f"{key}:{i}", f"component {i} of {key} computes {E.show(E.select(got, str(i)), 7)}, the model's {nm} computes {E.show(want, 7)}", f.span)
                continue
            if not g or len(g) != 1:
                ctx.fail(key, f"{key}: {len(g or [])} operations named {f.name} on {w}", f.span)
                continue
            want = payload(ctx.eval(g[0], args={0: E.select(E.mk("param", "a0"), "0")}, opaque=opaque).val())
            if f.name in PAIRS:
                for i in range(2):
                    ctx.ob(q.same(E.select(got, str(i)), E.select(want, str(i)), rewrite), f"{key}:{i}", f"component {i} of {key} computes {E.show(E.select(got, str(i)), 7)}, the model computes {E.show(E.select(want, str(i)), 7)}", f.span)
            else:
                ctx.ob(q.same(got, want, rewrite), key, f"{key} computes {E.show(got, 8)}, the wrapped model's {f.name} computes {E.show(want, 8)}", f.span)
        elif last_ident(f.trait) in ("GpSurrogateParams", "SgpSurrogateParams"):
            key = f"{sty}::{f.name}"
            if f.name in SETTERS:
                nset += 1
                g = inh.get((w, f.name))
                if not g or len(g) != 1:
                    ctx.fail(key, f"{key}: {len(g or [])} setters named {f.name} on {w}", f.span)
                    continue
                r = ctx.eval(f, selfty=f.selfh)
                got = E.select(r.arg_final(0), "0")
                want = ctx.eval(g[0], args={0: E.select(E.mk("param", "a0"), "0")}).val()
                ctx.ob(q.same(got, want), key, f"after {key} the parameters are {E.show(got, 6)}, setting {f.name} gives {E.show(want, 6)}", f.span)
            elif f.name == "train":
                nset += 1
                r = ctx.eval(f, selfty=f.selfh, opaque=lambda c, fn: fn.name in ("fit",))
                got = payload(r.val())
                fits = [x for x in q.walk(got) if x.k == "call" and q.tail(x.d) == "fit"]
                if not ctx.ob(len(fits) == 1, key + ":fit", f"{key}: the trained surrogate is not the result of one fit ({E.show(got, 5)})", f.span):
                    continue
                ft = fits[0]
                ctx.ob(q.same(ft.a[0], E.select(E.mk("param", "a0"), "0")), key + ":params", f"{key} fits parameters {E.show(ft.a[0], 5)}", f.span)
                ds = ft.a[1]
                x, y = E.select(ds, "records"), E.select(ds, "targets")
                if ds.k == "call":
                    x, y = ds.a[0], ds.a[1]
                ctx.ob(q.same(x, E.mk("param", "a1")), key + ":x", f"{key} fits on points {E.show(x, 5)}", f.span)
                ctx.ob(q.params(y) == {"a2"} and not ({z.d for z in q.walk(y) if z.k == "op"}), key + ":y", f"{key} fits on outputs {E.show(y, 5)}", f.span)
                # the result wraps the fitted model in the surrogate of the same kind, untouched
                v = got
                while v.k == "call" and len(v.a) == 1 and q.tail(v.d) in ("new", "unsize", "box"):
                    v = v.a[0]
                want = sty.replace("Params", "")
                ok = v.k == "agg" and last_ident(v.d[0]) == want and len(v.a) == 1 and payload_of(v.a[0], ft)
                ctx.ob(ok, key + ":kind", f"{key} returns {E.show(v, 5)} instead of a {want} holding the fitted model", f.span)
    ctx.floor("surrogate kinds", len(kinds), 16)
    ctx.floor("facade operations", nops, 16 * 12)
    ctx.floor("parameter setters and trainings", nset, 12 * 6 + 4 * 8)


def payload_of(v, ft):
    return v is ft or (v.k == "sel" and v.d == "!" and v.a[0] is ft)


def opaque(c, fn):
    return False


def wrapped(prog, name):
    a = prog.adt(name, "egobox_moe")
    if len(a) != 1 or len(a[0]["vs"]) != 1 or len(a[0]["vs"][0]["fs"]) != 1:
        return None
    b = base(a[0]["vs"][0]["fs"][0][1])
    return b if b in INNER else None
