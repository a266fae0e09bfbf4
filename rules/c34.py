"""C34: a Gaussian process predicts in the units of its training data."""
from vp import engine as E, q
from vp.engine import mk, select, const_of
from vp.tensor import Tensors, T, Bad, atom, pmul, padd, show as show_
from rules.c16 import payload

ASSUMPTIONS = ["mean and correlation models are the documented functions of normalised points (C25)", "arithmetic over the reals; triangular solves, QR and Cholesky factorisations are exact",
               "the default features (no BLAS) are the ones compiled"]
P = [mk("param", f"a{i}") for i in range(8)]
S = P[0]
OPAQUE = {"pairwise_differences", "differences"}


def show(p):
    return show_({m: float(round(c, 9)) for m, c in p.items()})


class Model(Tensors):
    """formulas of predictions; functions of tensors become atoms named after the formula of their argument"""

    def __init__(self, eng, leaf, theta, weights, mean=None, corr=None):
        super().__init__(eng, leaf)
        self.theta, self.weights, self.mean, self.corr = theta, weights, mean, corr

    def sum(self, label, p):
        if label == "1":
            return p
        if not p:
            return {}
        s = f"Σ{label}{{{show(p)}}}"
        self.sums[s] = p
        return atom(s)

    def kern(self, d, what="k"):
        if what == "k" and d and d[min(d)] < 0:
            d = {m: -c for m, c in d.items()}  # kernels are even
        return atom(f"{what}{{{show(d)}}}")

    def solve(self, m, up, b):
        return {} if not b else atom(f"solve[{m},{up}]{{{show(b)}}}")

    def _ev(self, n):
        r = self.leaf(n)
        if r is not None:
            return r
        if n.k == "sel" and n.d == "!":
            return self.ev(n.a[0])
        if n.k == "phi" and len(n.a) == 2:
            t = self.clamp(n)
            if t:
                return t
        if n.k == "call":
            s = q.tail(n.d)
            ty = n.d.split("::")[0]
            if s == "pairwise_differences":
                a, b = self.ev(n.a[0]), self.ev(n.a[1])
                if len(a.labels) != 2 or len(b.labels) != 2 or a.labels[1] != b.labels[1]:
                    raise Bad(f"differences of axes {a.labels} and {b.labels}")
                return T((f"{a.labels[0]}×{b.labels[0]}", a.labels[1]), self.diff(a, b))
            if ty == "CorrelationModel" and s in ("value", "jacobian", "valjac"):
                if self.corr is not None and n.a[0] is not self.corr:
                    raise Bad(f"another correlation model: {E.show(n.a[0])}")
                if n.a[-2] is not self.theta or n.a[-1] is not self.weights:
                    raise Bad(f"the kernel gets the hyperparameters {E.show(n.a[-2])} and weights {E.show(n.a[-1])}")
                if s == "value":
                    d = self.ev(n.a[1])
                    return T((d.labels[0], "1"), self.kern(d.p))
                x, X = self.ev(n.a[1]), self.ev(n.a[2])
                if x.labels != ("d",) or X.labels != ("t", "d"):
                    raise Bad(f"kernel derivative at axes {x.labels} and {X.labels}")
                d = self.diff(x, X)
                if s == "jacobian":
                    return T(("t", "d"), self.kern(d, "k'"))
                raise Bad("a pair")
            if ty == "RegressionModel" and s in ("value", "jacobian"):
                if self.mean is not None and n.a[0] is not self.mean:
                    raise Bad(f"another mean model: {E.show(n.a[0])}")
                x = self.ev(n.a[1])
                if s == "value":
                    return T((x.labels[0], "m"), atom(f"f{{{show(x.p)}}}"))
                return T(("m", x.labels[0]), atom(f"f'{{{show(x.p)}}}"))
            if s == "diag":
                a = self.ev(n.a[0])
                return T(a.labels[:1], atom(f"diag({show(a.p)})"))
            if s in ("solve_triangular", "solve_triangular_into"):
                return self.tri(n)
            if s in ("into_shape_with_order", "to_shape", "into_shape"):
                a = self.ev(n.a[0])
                want = self.shape(n.a[1])
                flat = lambda ls: [y for x in ls for y in x.split("×") if y != "1"]
                if flat(want) != flat(a.labels):
                    raise Bad(f"an array with axes {a.labels} is reshaped to {want}")
                return T(want, a.p)
            if s in ("t", "reversed_axes"):
                a = self.ev(n.a[0])
                p = a.p
                if len(a.labels) == 2 and a.labels[0] == a.labels[1]:
                    p = {tuple((self.tr(x), e) for x, e in m): c for m, c in p.items()}
                return T(tuple(reversed(a.labels)), p)
            if s == "cholesky" and n.a[0].k == "mu" and ip_corr(n.a[0]):
                return T(("t", "t"), atom("C"))
            if s == "cholesky":
                a = self.ev(n.a[0])
                return T(a.labels, atom(f"chol{{{show(a.p)}}}"))
        if n.k == "sel" and n.a[0].k == "call" and q.tail(n.a[0].d) == "valjac":
            c = n.a[0]
            x, X = self.ev(c.a[1]), self.ev(c.a[2])
            if x.labels != ("d",) or X.labels != ("t", "d") or c.a[3] is not self.theta or c.a[4] is not self.weights or self.corr is not None and c.a[0] is not self.corr:
                raise Bad(f"kernel values and derivatives at axes {x.labels}, {X.labels} with {E.show(c.a[3])}, {E.show(c.a[4])}")
            d = self.diff(x, X)
            return T(("t", "1"), self.kern(d)) if n.d == "0" else T(("t", "d"), self.kern(d, "k'"))
        if n.k == "op" and n.d == "max" and any(const_of(x) is not None for x in n.a):
            c, v = (n.a[0], n.a[1]) if const_of(n.a[0]) is not None else (n.a[1], n.a[0])
            t = self.ev(v)
            return T(t.labels, atom(f"max({const_of(c)},{show(t.p)})"))
        if n.k == "sel" and n.d in ("0", "1") and n.a[0].k == "call" and q.tail(n.a[0].d) in ("into_decomp", "qr"):
            c = n.a[0].a[0] if q.tail(n.a[0].d) == "into_decomp" else n.a[0]
            c = payload_(c)
            if c.k == "call" and q.tail(c.d) == "qr":
                a = self.ev(c.a[0])
                return T(a.labels, atom(f"Q{{{show(a.p)}}}")) if n.d == "0" else T(a.labels[1:] * 2, atom(f"R{{{show(a.p)}}}"))
        return super()._ev(n)

    def indexed(self, t, idx, n):
        # the component asked for stands for any component
        idx = tuple(E.STAR if x is self.comp and i < len(t.labels) and t.labels[i] == "d" else x for i, x in enumerate(idx))
        return super().indexed(t, idx, n)

    comp = None

    def tr(self, x):
        if x == "W":
            return x  # symmetric
        return x[:-1] if x.endswith("ᵀ") else x + "ᵀ"

    def diff(self, a, b):
        """a - b, whose terms belong to different rows even when they look alike"""
        other = {tuple((x + "°" if a.p == b.p else x, e) for x, e in m): c for m, c in b.p.items()}
        return padd(a.p, other, -1)

    def tri(self, n):
        m, b = self.ev(n.a[0]), self.ev(n.a[1])
        up = n.a[2]
        up = up.d[1] if up.k == "agg" else E.show(up)
        if len(m.p) != 1 or len(m.labels) != 2 or m.labels[0] != m.labels[1] or m.labels[0] != b.labels[0]:
            raise Bad(f"triangular system with axes {m.labels} and {b.labels}")
        return T(b.labels, self.solve(show(m.p), up, b.p))

    def clamp(self, n):
        """max(constant, v) written as a comparison"""
        cs = {(c, e) for g in n.d for alt in g for c, e in alt}
        conds = {c for c, _ in cs}
        if len(conds) != 1:
            return None
        c = conds.pop()
        if c.k != "op" or c.d not in ("Lt", "Le"):
            return None
        hi = [v for g, v in zip(n.d, n.a) if all(q.lit(E.boolc(True), e) for alt in g for _, e in alt)]
        lo = [v for g, v in zip(n.d, n.a) if all(q.lit(E.boolc(False), e) for alt in g for _, e in alt)]
        if len(hi) != 1 or len(lo) != 1:
            return None
        x, k, a, b = c.a[0], c.a[1], hi[0], lo[0]  # x < k ? a : b
        if const_of(k) is None:
            x, k, a, b = k, x, b, a  # k < x ? b : a
        if const_of(k) is None or q.subst(b, {x: k}) is not a and E.show(q.subst(b, {x: k}), 9) != E.show(a, 9):
            return None
        t = self.ev(x)
        old = self.bind.get(x)
        self.bind[x] = T(t.labels, atom(f"max({const_of(k)},{show(t.p)})"))
        try:
            return self.ev(b)
        finally:
            self.bind.pop(x)
            if old:
                self.bind[x] = old


def payload_(n):
    return n.a[0] if n.k == "sel" and n.d == "!" else n


def ip_corr(m):
    """the correlation matrix filled symmetrically"""
    ws = set()
    todo, seen = [m], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "wr":
            if len(x.a) != 4:
                return False
            ws.add((x.a[1], x.a[2], x.a[3]))
            todo.append(x.a[0])
        elif x.k == "mu":
            todo += E.MU.get(x, ())
    vals = {v for v, _, _ in ws}
    pairs = {(a, b) for _, a, b in ws}
    return bool(ws) and len(vals) == 1 and len(pairs) == 2 and {(b, a) for a, b in pairs} == pairs


def gp_leaf(x, row=False):
    ip = select(S, "inner_params")
    nd = lambda f, g: select(select(S, f), g)
    L = {nd("xt_norm", "mean"): T(("d",), atom("mx")), nd("xt_norm", "std"): T(("d",), atom("sx")), nd("xt_norm", "data"): T(("t", "d"), atom("X")),
         nd("yt_norm", "mean"): T(("1",), atom("my")), nd("yt_norm", "std"): T(("1",), atom("sy")),
         select(ip, "beta"): T(("m", "1"), atom("β")), select(ip, "gamma"): T(("t", "1"), atom("γ")), select(ip, "sigma2"): T((), atom("σ²")),
         select(ip, "r_chol"): T(("t", "t"), atom("C")), select(ip, "ft"): T(("t", "m"), atom("Ft")), select(ip, "ft_qr_r"): T(("m", "m"), atom("G")),
         x: T(("d",) if row else ("p", "d"), atom("x"))}
    return L.get


XN = padd(pmul(atom("x"), {(("sx", -1),): 1}), pmul(atom("mx"), {(("sx", -1),): 1}), -1)
ONE = {(): 1}


class Spec:
    """expected formulas"""

    def __init__(self, m):
        self.m = m
        D = padd(XN, atom("X"), -1)
        self.f, self.df = atom(f"f{{{show(XN)}}}"), atom(f"f'{{{show(XN)}}}")
        self.k, self.dk = m.kern(D), m.kern(D, "k'")
        self.y = padd(m.sum("m", pmul(self.f, atom("β"))), m.sum("t", pmul(self.k, atom("γ"))))
        self.value = padd(pmul(self.y, atom("sy")), atom("my"))
        self.rt = m.solve("C", "Lower", self.k)
        self.u = m.solve("Gᵀ", "Lower", padd(m.sum("t", pmul(atom("Ft"), self.rt)), self.f, -1))
        sq = lambda p: pmul(p, p)
        mse = padd(padd(ONE, m.sum("t", sq(self.rt)), -1), m.sum("m", sq(self.u)))
        self.mse = mse
        self.var = atom(f"max(0,{show(pmul(mse, atom('σ²')))})")
        self.grad = pmul(padd(m.sum("m", pmul(self.df, atom("β"))), m.sum("t", pmul(self.dk, atom("γ")))), {(("sx", -1), ("sy", 1)): 1})

    def var_grad(self):
        m = self.m
        FX = atom("f{" + show(atom("X")) + "}")
        ikr = m.solve("Cᵀ", "Upper", m.solve("C", "Lower", self.k))
        ikf = m.solve("Cᵀ", "Upper", m.solve("C", "Lower", FX))
        A = padd(self.f, m.sum("t", pmul(self.k, ikf)), -1)
        B = atom("chol{" + show(m.sum("t", pmul(FX, ikf))) + "}")
        D = m.solve(show({tuple((m.tr(x), e) for x, e in k): c for k, c in B.items()}), "Upper", m.solve(show(B), "Lower", A))
        dA = padd(self.df, m.sum("t", pmul(self.dk, ikf)), -1)
        p = padd(m.sum("m", pmul(D, dA)), m.sum("t", pmul(ikr, self.dk)), -1)
        return pmul(p, {(("sx", -1), ("σ²", 1)): 2})


def same(m, a, b):
    fa, fb = show(a), show(b)
    if fa == fb:
        return True
    try:
        (r1, s1), (r2, s2) = m.split(a), m.split(b)
    except Bad:
        return False
    return show(r1) == show(r2) and show(s1) == show(s2)


def run(ctx):
    ctx.rule = ("Each prediction method of the Gaussian processes is read as a formula over labelled arrays from the value graph (points p, components d, training rows t, mean terms m), with mean and kernel evaluations, triangular solves and factorisations kept as named functions "
                "of their argument formulas, and compared with the documented formula, in particular the normalisation of inputs and the units of outputs; the training side defines the normalisation and the process variance the same way.")
    opq = lambda c, f: f.name in OPAQUE
    n = 0

    def check(f, v, m, exp, labels, key, what):
        nonlocal n
        n += 1
        try:
            t = m.ev(v)
        except Bad as e:
            return ctx.ob(False, key, f"{f.short}: {what} cannot be read as the documented formula: {e}", f.span)
        return ctx.ob(same(m, t.p, exp) and t.labels == labels, key, f"{f.short}: {what} is {show(t.p)} over axes {t.labels} instead of {show(exp)} over {labels}", f.span)

    corr, mean = select(select(S, "params"), "corr"), select(select(S, "params"), "mean")
    mk_ = lambda r, row=False: Model(r.eng, gp_leaf(P[1], row), select(S, "theta"), select(S, "w_star"), mean, corr)
    W = ("GaussianProcess", "egobox_gp")
    for name, parts in (("predict", [("", "value", ("p",))]), ("predict_var", [("", "var", ("p",))]), ("predict_valvar", [("0", "value", ("p",)), ("1", "var", ("p",))]),
                        ("predict_gradients", [("", "grad", ("p", "d"))]), ("predict_var_gradients", [("", "var_grad", ("p", "d"))]),
                        ("predict_valvar_gradients", [("0", "grad", ("p", "d")), ("1", "var_grad", ("p", "d"))]), ("predict_var_gradients_single", [("", "var_grad", ("d",))]),
                        ("predict_kth_derivatives", [("", "kth", ("p",))])):
        f = ctx.fn(f"GaussianProcess::{name}", "egobox_gp")
        r = ctx.eval(f, opaque=opq)
        v = payload(r.val()) if "grad" not in name and "kth" not in name else r.val()
        for sel, what, labels in parts:
            m = mk_(r, name.endswith("single"))
            sp = Spec(m)
            m.comp = P[2] if what == "kth" else None
            e = sp.var_grad() if what == "var_grad" else sp.grad if what == "kth" else getattr(sp, what)
            check(f, select(v, sel) if sel else v, m, e, labels, f"GaussianProcess::{name}:{what}", what)
    # ---- sparse processes: raw training data
    for name, parts in (("predict", [("value", ("p",))]), ("predict_var", [("var", ("p",))])):
        f = ctx.fn(f"SparseGaussianProcess::{name}", "egobox_gp")
        r = ctx.eval(f, opaque=opq)
        wd = select(S, "w_data")
        L = {P[1]: T(("p", "d"), atom("x")), select(S, "inducings"): T(("i", "d"), atom("Z")), select(wd, "vec"): T(("i", "1"), atom("w")), select(wd, "inv"): T(("i", "i"), atom("W")),
             select(S, "sigma2"): T((), atom("σ²")), select(S, "noise"): T((), atom("ν"))}
        m = Model(r.eng, L.get, select(S, "theta"), select(S, "w_star"), None, select(S, "corr"))
        k = pmul(m.kern(padd(atom("x"), atom("Z"), -1)), atom("σ²"))
        if name == "predict":
            exp = m.sum("i", pmul(k, atom("w")))
        else:
            inner = padd(atom("σ²"), m.sum("i", pmul(m.sum("i", pmul(atom("W"), k)), k)), -1)
            exp = padd(atom(f"max({1e-15},{show(inner)})"), atom("ν"))
        check(f, payload(r.val()), m, exp, ("p",), f"SparseGaussianProcess::{name}", parts[0][0])
    ctx.floor("prediction formulas", n, 12)

    # ---- training
    f = ctx.fn("utils::normalize", "egobox_gp")
    r = ctx.eval(f)
    v = r.val()
    mean, std = select(v, "1"), select(v, "2")
    ax0 = lambda x: x.k == "agg" and const_of(x.a[0]) == 0
    ok = payload_(mean).k == "call" and q.tail(payload_(mean).d) == "mean_axis" and payload_(mean).a[0] is P[0] and ax0(payload_(mean).a[1])
    ctx.ob(ok, "normalize:mean", f"normalize returns {E.show(mean, 4)} instead of the mean of each component", f.span)
    std = q.pointwise(std)
    alts = list(std.a) if std.k == "phi" else [std]
    sd = [x for x in alts if x.k == "call" and q.tail(x.d) == "std_axis" and x.a[0] is P[0] and ax0(x.a[1])]
    ok = len(sd) == 1 and all(x in sd or const_of(x) == 1 for x in alts) and std.k == "phi" and zero_guard(std, sd[0])
    ctx.ob(ok, "normalize:std", f"normalize returns {E.show(std, 4)} instead of the deviation of each component, replaced by 1 where it is null", f.span)
    m = Model(r.eng, {P[0]: T(("t", "d"), atom("x")), mean: T(("d",), atom("mx")), select(v, "2"): T(("d",), atom("sx"))}.get, None, None)
    check(f, select(v, "0"), m, XN, ("t", "d"), "normalize:data", "normalised data")

    f = one_fit(ctx, "GpValidParams")
    r = ctx.eval(f, opaque=lambda c, fn: fn.name in ("reduced_likelihood", "normalize", "pairwise_differences", "prepare_multistart", "optimize_params", "_cross_diff"))
    v = payload(r.val())
    rec = strip(select(select(v, "training_data"), "0"))
    for fld, src in (("xt_norm", "records"), ("yt_norm", "targets")):
        calls = {select(select(v, fld), g): i for i, g in (("0", "data"), ("1", "mean"), ("2", "std"))}
        base = {x.a[0] for x in calls if x.k == "sel"}
        ok = len(base) == 1 and all(x.k == "sel" and x.d == i for x, i in calls.items())
        b = base.pop() if ok else None
        ok = ok and b.k == "call" and q.tail(b.d) == "normalize"
        ctx.ob(ok, f"fit:{fld}", f"GpValidParams::fit stores {E.show(select(v, fld), 4)} as {fld} instead of the data, mean and deviation of normalize", f.span)
        if ok:
            x = strip(b.a[0])
            ctx.ob(x.k == "call" and q.tail(x.d) == src and x.a[0] is P[1], f"fit:{fld}:of", f"GpValidParams::fit normalises {E.show(b.a[0], 4)} as {fld} instead of the given {src}", f.span)
    td = select(v, "training_data")
    for i, src in (("0", "records"), ("1", "targets")):
        x = strip(select(td, i))
        ctx.ob(x.k == "call" and q.tail(x.d) == src and x.a[0] is P[1], f"fit:training_data:{src}", f"GpValidParams::fit keeps {E.show(select(td, i), 4)} as its training {src}", f.span)
    ip, lk = select(v, "inner_params"), select(v, "likelihood")
    ok = ip.k == "sel" and ip.d == "1" and lk.k == "sel" and lk.d == "0" and ip.a[0] is lk.a[0]
    c = payload_(ip.a[0]) if ok else None
    ok = ok and c.k == "call" and q.tail(c.d) == "reduced_likelihood"
    ctx.ob(ok, "fit:inner_params", f"GpValidParams::fit stores {E.show(ip, 3)} and {E.show(lk, 3)} instead of the result of one reduced_likelihood", f.span)
    if ok:
        fx, rxx, dist, yn, nug = c.a
        X = select(select(v, "xt_norm"), "data")
        ctx.ob(fx.k == "call" and q.tail(fx.d) == "value" and fx.a[0] is select(S, "mean") and fx.a[1] is X, "fit:mean", f"GpValidParams::fit uses the mean terms {E.show(fx, 4)} instead of those of the normalised inputs", f.span)
        ok = rxx.k == "call" and q.tail(rxx.d) == "value" and rxx.a[0] is select(S, "corr") and rxx.a[2] is select(v, "theta") and rxx.a[3] is select(v, "w_star")
        d = rxx.a[1] if ok else None
        ok = ok and d.k == "sel" and d.a[0].k == "call" and q.tail(d.a[0].d) == "_cross_diff" and d.a[0].a[0] is X and select(dist, "d") is d
        ctx.ob(ok, "fit:correlations", f"GpValidParams::fit trains with the correlations {E.show(rxx, 4)} which are not those of the stored hyperparameters, weights and normalised inputs", f.span)
        ctx.ob(yn is select(v, "yt_norm") or all(select(yn, g) is select(select(v, "yt_norm"), g) for g in ("data", "mean", "std")), "fit:outputs", f"GpValidParams::fit trains on {E.show(yn, 4)} but stores other normalised outputs", f.span)
        ctx.ob(nug is select(S, "nugget"), "fit:nugget", f"GpValidParams::fit uses {E.show(nug, 4)} as nugget", f.span)
    ps = select(v, "params")
    ctx.ob(all(select(ps, g) is select(S, g) for g in ("mean", "corr")), "fit:params", "GpValidParams::fit keeps a mean or correlation model it was not trained with", f.span)

    f = ctx.fn("algorithm::reduced_likelihood", "egobox_gp")
    r = ctx.eval(f)
    v = payload(r.val())
    dm = P[2]
    L = {P[0]: T(("t", "m"), atom("F")), select(P[3], "data"): T(("t", "1"), atom("Y")), select(P[3], "std"): T(("1",), atom("sy")), select(P[3], "mean"): T(("1",), atom("my")), select(dm, "n_obs"): T((), atom("n"))}
    m = Model(r.eng, L.get, None, None)
    ft, yt = m.solve("C", "Lower", atom("F")), m.solve("C", "Lower", atom("Y"))
    Q, R = atom(f"Q{{{show(ft)}}}"), f"R{{{show(ft)}}}"
    beta = m.solve(R, "Upper", m.sum("t", pmul(Q, yt)))
    rho = padd(yt, m.sum("m", pmul(ft, beta)), -1)
    gamma = m.solve("Cᵀ", "Upper", rho)
    s2 = pmul(m.sum("t", pmul(rho, rho)), {(("n", -1),): 1})
    ip = select(v, "1")
    for fld, exp, lab in (("ft", ft, ("t", "m")), ("ft_qr_r", atom(R), ("m", "m")), ("beta", beta, ("m", "1")), ("gamma", gamma, ("t", "1")), ("r_chol", atom("C"), ("t", "t")),
                          ("sigma2", pmul(s2, {(("sy", 2),): 1}), ())):
        check(f, select(ip, fld), m, exp, lab, f"reduced_likelihood:{fld}", fld)
    logdet = pmul(m.sum("t", atom("log10(diag(C))")), {(("n", -1),): 2})
    check(f, select(v, "0"), m, pmul(padd(atom(f"log10({show(s2)})"), logdet), {(("n", 1),): -1}), (), "reduced_likelihood:likelihood", "likelihood")


def zero_guard(phi, sd):
    """1 exactly where sd is 0"""
    for g, v in zip(phi.d, phi.a):
        for alt in g:
            for c, e in alt:
                if not (c.k == "op" and c.d in ("Eq", "Ne") and sd in c.a and any(E.is_num(x, 0) for x in c.a)):
                    return False
                if (q.lit(E.boolc(c.d == "Eq"), e)) is not (v is not sd):
                    return False
    return True


def strip(x):
    while x.k == "call" and q.tail(x.d) in ("insert_axis", "remove_axis", "to_owned", "view", "clone", "into_owned"):
        x = x.a[0]
    return x


def one_fit(ctx, ty):
    fs = [f for f in ctx.prog.fns.values() if f.name == "fit" and f.crate == "egobox_gp" and (f.selfh or "").endswith(ty) and not f.generated()]
    if len(fs) != 1:
        raise LookupError(f"{ty}::fit matches {len(fs)} functions")
    return fs[0]
