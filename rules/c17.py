"""C17: mixtures combine their experts with the documented recombination formulas."""
from vp import engine as E, q
from vp.engine import mk, STAR, ALL
from vp.tensor import Tensors, T, Bad, atom, pmul, padd, show
from rules.c16 import rewrite, payload

ASSUMPTIONS = ["predict_probas, its derivatives and the hard assignment of the Gaussian mixture are taken as given (opaque)", "arithmetic over the reals"]

VAL = {"predict": "F", "predict_var": "V"}
GRAD = {"predict_gradients": "G", "predict_var_gradients": "W"}
X, ME = mk("param", "a1"), mk("param", "a0")
SMOOTH = {"F": {(("F", 1), ("P", 1)): 1},
          "V": {(("P", 2), ("V", 1)): 1},
          "G": {(("G", 1), ("P", 1)): 1, (("D", 1), ("F", 1)): 1},
          "W": {(("P", 2), ("W", 1)): 1, (("D", 1), ("P", 1), ("V", 1)): 2}}
NAMES = {"P": "responsibility", "D": "derivative of the responsibility", "F": "expert value", "V": "expert variance", "G": "expert gradient", "W": "expert variance gradient"}


def opaque(c, fn):
    return fn.name in ("predict_probas", "predict_probas_derivatives") or (fn.name == "predict" and "GaussianMixture" in (fn.selfh or ""))


def field(n, f):
    """n is field f of the mixture (possibly behind a wrapper's field)"""
    if n.k != "sel" or n.d != f:
        return False
    while n.k == "sel":
        n = n.a[0]
    return n is ME


def strip(n):
    """Box/dyn wrapping of an expert"""
    while n.k == "sel" and n.d in ("0", "ptr", "pointer"):
        n = n.a[0]
    return n


def points(n):
    """labels of the points given to an expert: all rows of x, or the row at hand as one row"""
    if n is X:
        return ("n", "d")
    if n.k == "call" and q.tail(n.d) == "insert_axis" and n.a[0].k == "elem" and n.a[0].a[0] is X and len(n.a[0].a) == 2 and E.const_of(n.a[1].a[0]) == 0:
        return ("1", "d")
    return None


def leaf(hard):
    def f(n):
        n0 = rewrite(n)
        if n0 is not None:
            return f(n0)
        if n is X:
            return T(("n", "d"), atom("x"))
        if field(n, "experts"):
            return T(("k",), atom("E"))
        if n.k == "sel" and n.d == "!" and n.a[0].k == "call":
            n = n.a[0]
        if n.k != "call":
            return None
        s = q.tail(n.d)
        if s in ("predict_probas", "predict_probas_derivatives"):
            if not field(n.a[0], "gmx"):
                raise Bad(f"responsibilities of {E.show(n.a[0], 4)}")
            p = points(n.a[1])
            if p is None:
                raise Bad(f"responsibilities at {E.show(n.a[1], 4)}")
            return T((p[0], "k"), atom("P")) if s == "predict_probas" else T((p[0], "k", "d"), atom("D"))
        if s == "predict" and "GaussianMixture" in n.d or (s == "predict" and field(n.a[0], "gmx")):
            if not field(n.a[0], "gmx") or n.a[1] is not X:
                raise Bad(f"assignment {E.show(n, 5)}")
            return T(("n",), atom("C"))
        a = VAL.get(s) or GRAD.get(s)
        if a and len(n.a) == 2:
            e = strip(n.a[0])
            if e.k != "elem" or not field(e.a[0], "experts") or len(e.a) != 2:
                raise Bad(f"expert {E.show(n.a[0], 5)}")
            p = points(n.a[1])
            if p is None:
                raise Bad(f"an expert is asked at {E.show(n.a[1], 5)}")
            i = e.a[1]
            if hard:
                if not (i.k == "elem" and i.a[1:] == (STAR,) and i.a[0].k == "call" and q.tail(i.a[0].d) == "predict" and field(i.a[0].a[0], "gmx") and i.a[0].a[1] is X and p[0] == "1"):
                    raise Bad(f"expert number {E.show(i, 5)}")
            else:
                lab = tensors.src(i.a[0]) if i.k == "call" and i.d == "index" else "k" if i is STAR or q.is_range(i) else None
                if lab not in ("k", "?"):
                    raise Bad(f"expert number {E.show(i, 5)}")
            return T((p[0],) if s in VAL else (p[0], "d"), atom(a))
        return None
    tensors = None

    def make(eng):
        nonlocal tensors
        tensors = Tensors(eng, f, dims)
        return tensors
    return make


def dims(n):
    if n.k == "call" and q.tail(n.d) == "n_clusters":
        return "k"
    return None


def formula(ctx, key, f, v, eng, kind, hard, labels):
    ts = leaf(hard)(eng)
    want = atom(kind) if hard else SMOOTH[kind]
    try:
        t = ts.ev(v)
        rest, inner = ts.split(t.p)
    except Bad as e:
        ctx.ob(False, key, f"{f.short}: not the {'hard' if hard else 'smooth'} recombination formula: {e}", f.span)
        return
    got = (rest, inner)
    exp = (want, {}) if hard else ({}, want)
    ctx.ob(got == exp and t.labels == labels, key,
           f"{f.short} computes {show(rest)} + Σ_experts({show(inner)}) over axes {t.labels} instead of {show(exp[0])} + Σ_experts({show(exp[1])}) over {labels} "
           f"({', '.join(f'{a} = {b}' for a, b in NAMES.items())})", f.span)


def run(ctx):
    ctx.rule = ("For each prediction of the mixture of experts, restricted to each recombination mode, the returned array is interpreted as a labelled tensor formula (points n, experts k, components d; "
                "ndarray broadcasting on labels, reductions as sums over a label, loops and folds as accumulations) and must be exactly: smooth: Σ_k P·F, Σ_k P²·V, Σ_k (P·G + D·F), Σ_k (P²·W + 2·P·D·V); "
                "hard: the prediction of the expert assigned to the row, at that row.")
    n = 0
    adt = ctx.prog.adt("Recombination", "egobox_moe")
    vi = {v["n"]: i for i, v in enumerate(adt[0]["vs"])}
    comb = {"predict_valvar": ("F", "V"), "predict_valvar_gradients": ("G", "W")}
    single = {**VAL, **GRAD}
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.short):
        if f.generated() or f.crate != "egobox_moe" or f.kind not in ("AssocFn", "Fn") or not f.blocks or q.last(f.selfh or "").split("<")[0] != "GpMixture":
            continue
        base, mode = f.name, None
        for m in ("hard", "smooth"):
            if f.name.endswith("_" + m):
                base, mode = f.name[: -len(m) - 1], m
        if base not in single and base not in comb:
            continue
        r = ctx.eval(f, opaque=opaque, selfty=f.selfh)
        v = payload(r.val())
        for mm in ([mode] if mode else ["hard", "smooth"]):
            w = v
            if not mode:
                w = q.assume(r.val(), {x: E.num(vi["Hard" if mm == "hard" else "Smooth"]) for x in discrs(r.val(), r.eng)})
                w = payload(w)
            kinds = comb.get(base) or (single[base],)
            for i, kd in enumerate(kinds):
                u = E.select(w, str(i)) if base in comb else w
                labels = ("n", "d") if kd in "GW" else ("n",)
                n += 1
                formula(ctx, f"{f.trait or ''}:{f.name}:{kd}:{mm}", f, u, r.eng, kd, mm == "hard", labels)
    ctx.floor("recombination formulas", n, 36)
    inplace(ctx, vi)


def discrs(v, eng):
    out = set()

    def go(n, seen):
        if n in seen:
            return
        seen.add(n)
        if n.k == "discr" and field(n.a[0], "recombination"):
            out.add(n)
        if n.k == "phi":
            for g in n.d:
                for alt in g:
                    for c, _ in alt:
                        go(c, seen)
        for x in n.a:
            go(x, seen)
    go(v, set())
    return out


def inplace(ctx, vi):
    """in-place predictions of the mixture and of its variance adaptor leave the prediction of the same name in the output"""
    n = 0
    for f in ctx.impls("PredictInplace", "predict_inplace"):
        if f.crate != "egobox_moe" or q.last(f.selfh or "").split("<")[0] not in ("GpMixture", "MoeVariancePredictor"):
            continue
        var = "Variance" in f.selfh
        r = ctx.eval(f, opaque=opaque, selfty=f.selfh)
        v = r.arg_final(2)
        for mm in ("hard", "smooth"):
            w = q.assume(v, {x: E.num(vi["Hard" if mm == "hard" else "Smooth"]) for x in discrs(v, r.eng)})
            n += 1
            formula(ctx, f"{q.last(f.selfh).split('<')[0]}:predict_inplace:{mm}", f, w, r.eng, "V" if var else "F", mm == "hard", ("n",))
    ctx.floor("in-place predictions", n, 4)
