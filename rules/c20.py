"""C20: setting one option changes that option only."""
import re
from vp import engine as E, q
from vp.engine import mk, select, num
from vp.facts import last_ident
from rules.c16 import payload

ASSUMPTIONS = ["conversions of the given value (into, to_owned, Box) are exact"]
A = [mk("param", f"a{i}") for i in range(5)]
# receiver types, the setters confirmed by reading, and the options they are named after when the name differs
TYPES = {
    ("egobox_gp", "GpParams"): "mean corr theta_init theta_bounds theta_tuning kpls_dim n_start max_eval nugget",
    ("egobox_gp", "SgpParams"): "corr theta_init theta_bounds theta_tuning kpls_dim n_start max_eval nugget sparse_method noise_variance inducings n_inducings seed",
    ("egobox_moe", "GpMixtureParams"): "gp_type n_clusters recombination regression_spec correlation_spec theta_tunings kpls_dim n_start max_eval gmm gmx with_rng",
    ("egobox_ego", "GpMixtureParams"): "set_kpls_dim set_regression_spec set_correlation_spec set_n_clusters set_recombination set_theta_tunings set_optim_params",
    ("egobox_ego", "MixintGpMixtureParams"): "set_kpls_dim set_regression_spec set_correlation_spec set_n_clusters set_recombination set_theta_tunings set_optim_params",
    ("egobox_ego", "GpConfig"): "regression_spec correlation_spec kpls_dim kpls no_kpls n_clusters recombination theta_tuning n_start max_eval",
    ("egobox_ego", "EgorConfig"): "infill_criterion max_iters n_start n_doe n_cstr cstr_tol doe default_doe qei_strategy q_optmod q_points infill_strategy infill_optimizer configure_gp target outdir no_outdir warm_start hot_start seed xtypes trego coego cstr_infill cstr_strategy",
    ("egobox_ego", "EgorFactory"): "configure subject_to run_info",
    ("egobox_ego", "EgorServiceFactory"): "configure",
    ("egobox_ego", "ObjFunc"): "subject_to",
    ("egobox_ego", "Egor"): "run_info",
    ("egobox_moe", "GpMixture"): "set_recombination set_gmx set_experts",
    ("egobox_moe", "GaussianMixture"): "heaviside_factor",
    ("egobox_doe", "Lhs"): "kind with_rng",
    ("egobox_doe", "Random"): "with_rng",
}
FIELD = {"kpls": "kpls_dim", "no_kpls": "kpls_dim", "no_outdir": "outdir", "default_doe": "doe", "qei_strategy": "q_ei", "infill_strategy": "infill_criterion",
         "noise_variance": "noise", "sparse_method": "method", "inducings": "z", "n_inducings": "z", "theta_init": "theta_tuning", "theta_bounds": "theta_tuning",
         "configure": "config", "configure_gp": "gp", "subject_to": "fcstrs"}


def base(t):
    return last_ident((t or "").split("<")[0])


def bare(ty):
    """path of a type without references and generics"""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    return ty.split("<")[0]


def leaves(prog, v, o, ty, crate, path=()):
    """[(path, new value)] of every field of `o` which `v` changes"""
    if v is o:
        return []
    a = [x for x in prog.adt(last_ident(ty), crate) or prog.adt(last_ident(ty))] if ty else []
    if len(a) > 1:
        a = [x for x in a if x["path"] == ty] or a
    if a and a[0]["kind"] == "Struct" and v.k in ("upd", "agg", "wr") and (v.k != "agg" or last_ident(str(v.d[0])) == last_ident(ty)):
        out = []
        for f, t in a[0]["vs"][0]["fs"]:
            if "PhantomData" in t:
                continue
            out += leaves(prog, select(v, f), select(o, f), bare(t), crate, path + (f,))
        return out
    return [(path, v)]


def given(v, i=1):
    """the value is the given one (possibly through an exact conversion or as Some)"""
    for _ in range(6):
        if v is A[i]:
            return True
        if v.k == "agg" and v.d[1] in ("Some", "Ok") and len(v.a) == 1:
            v = v.a[0]
        elif v.k == "call" and len(v.a) == 1 and q.tail(v.d) in ("into", "from", "to_owned", "to_vec", "clone", "to_string", "new", "unsize", "into_boxed_slice"):
            v = v.a[0]
        else:
            return False
    return False


def tuning(v, part):
    """the tuning keeps its kind, components and other parts; `part` is the given one"""
    o = [n for n in q.walk(v, control=True) if n.k == "discr"]
    bad = []
    for i, (var, fs) in enumerate((("Fixed", ("0",)), ("Full", ("init", "bounds")), ("Partial", ("init", "bounds", "active")))):
        w = q.assume(v, {d: num(i) for d in o})
        if w.k == "phi" or w.k != "agg":
            bad.append(f"{var} becomes {E.show(w, 5)}")
            continue
        if w.d[1] != var:
            bad.append(f"{var} becomes {w.d[1]}")
            continue
        for f in fs:
            g = select(w, f)
            mine = f == part or (var == "Fixed" and part == "init")
            if mine and g is not A[1] or not mine and not E.show(g, 9).endswith(f"theta_tuning.{var}.{f}"):
                bad.append(f"{var}.{f} becomes {E.show(g, 5)}")
    return bad


def run(ctx):
    ctx.rule = ("For every setter of the builders: compared with its receiver field by field, the result may differ only in the option the setter is named after, which must hold the given value; "
                "changing the kind of model and validating or finalising a builder must hand over every option unchanged.")
    prog = ctx.prog
    seen = {}
    nf = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.kind != "AssocFn" or f.generated() or not f.blocks or f.argc < 1:
            continue
        k = (f.crate, base(f.selfh))
        if k not in TYPES:
            continue
        st, rt = f.locals[1][0], f.locals[0][0]
        own = not st.startswith("&") and base(st) == k[1] and base(rt) == k[1]
        mut = st.startswith("&mut") and rt == "()" and base(st[5:]) == k[1]
        if not (own or mut) or f.trait and last_ident(f.trait) not in ("SurrogateBuilder",):
            continue
        if f.name not in TYPES[k].split():
            ctx.count("other methods of the builders")
            continue
        key = f"{k[1]}::{f.name}"
        r = ctx.eval(f, selfty=f.selfh)
        v = r.val() if own else r.arg_final(0)
        seen.setdefault(k, set()).add(f.name)
        ls = leaves(prog, v, A[0], bare(rt if own else st), f.crate)
        nf += 1
        name = re.sub(r"^(set|with)_", "", f.name)
        name = FIELD.get(name, name)
        if name == "optim_params":
            got = {(p or ('',))[-1]: x for p, x in ls}
            ctx.ob(set(got) == {"n_start", "max_eval"} and got["n_start"] is A[1] and got["max_eval"] is A[2], key, f"{key}(n_start, max_eval) sets {show(ls)}", f.span)
            continue
        if name in ("trego", "coego"):
            got = {p[-2:]: x for p, x in ls}
            if name == "trego":
                ctx.ob(set(got) == {("trego", "activated")} and got[("trego", "activated")] is A[1], key, f"{key} sets {show(ls)}", f.span)
            else:
                ok = set(got) == {("coego", "activated"), ("coego", "n_coop")}
                w = []
                if ok:
                    ds = [n for n in q.walk(v, control=True) if n.k == "discr"]
                    en, di = ({p: q.assume(x, {d: num(i) for d in ds}) for p, x in got.items()} for i in (1, 0))
                    n_on, n_off = en[("coego", "n_coop")], di[("coego", "n_coop")]
                    ok = E.is_num(en[("coego", "activated")], 1) or E.show(en[("coego", "activated")]) == "True"
                    ok = ok and (E.is_num(di[("coego", "activated")], 0) or E.show(di[("coego", "activated")]) == "False")
                    ok = ok and q.params(n_on) == {"a1"} and n_on.k == "sel" and n_off.k == "sel" and n_off.d == "n_coop" and q.params(n_off) == {"a0"}
                ctx.ob(ok, key, f"{key} sets {show(ls)}", f.span)
            continue
        if k[1] == "GaussianMixture" and name == "heaviside_factor":
            # the determinants are a cache derived from the factor
            ls = [x for x in ls if x[0] != ("log_det",)]
        # an option which is itself a structure changes as a whole
        if ls and all(name in p for p, _ in ls):
            p = ls[0][0][:ls[0][0].index(name) + 1]
            g = v
            for x in p:
                g = select(g, x)
            ls = [(p, g)] if all(x[:len(p)] == p for x, _ in ls) else ls
        paths = {p[-1] if p else "" for p, _ in ls}
        if not ctx.ob(len(ls) == 1 and paths == {name}, key, f"{key} changes {sorted('.'.join(p) for p, _ in ls)} instead of {name} only: {show(ls)}", f.span):
            continue
        x = ls[0][1]
        if f.name in ("theta_init", "theta_bounds"):
            bad = tuning(x, "init" if f.name == "theta_init" else "bounds")
            ctx.ob(not bad, key + ":tuning", f"{key}: {'; '.join(bad)}", f.span)
        elif f.name in ("no_kpls", "no_outdir", "default_doe"):
            ctx.ob(x.k == "agg" and x.d[1] == "None", key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name in ("inducings", "n_inducings"):
            ctx.ob(x.k == "agg" and x.d[1] == ("Located" if f.name == "inducings" else "Randomized") and x.a[0] is A[1], key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name in ("configure", "configure_gp"):
            ok = x.k == "call" and "apply" in x.d and x.a[0] is A[1] and len(x.a) == 2 and E.show(x.a[1], 6) in ("a0.config", "a0.0.gp")
            ctx.ob(ok, key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name == "infill_strategy":
            ctx.ob("a0" not in q.params(x), key + ":value", f"{key} stores {E.show(x, 5)}", f.span)  # which criterion: C24
        elif f.name in ("gmx", "set_gmx"):
            g = x.a[0] if x.k == "agg" and x.d[1] == "Some" else x
            ok = g.k == "agg" and all(select(g, n) is A[i] for i, n in ((1, "weights"), (2, "means"), (3, "covariances")))
            ctx.ob(ok, key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name == "with_rng":
            while x.k == "call" and len(x.a) == 1 and q.tail(x.d) == "new":
                x = x.a[0]
            ctx.ob(x is A[1], key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name == "max_eval" and k[0] == "egobox_gp":
            # documented floor of the evaluation budget
            ok = x is A[1] or x.k in ("op", "call") and "max" in str(x.d) and A[1] in x.a and all(y is A[1] or y.k == "const" for y in x.a)
            ctx.ob(ok, key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        elif f.name == "set_recombination" and k[1] == "GpMixture":
            # an unspecified smoothness is one
            w = [y for y in alts(x)]
            ok = any(y is A[1] for y in w) and all(y is A[1] or E.show(y, 6) == "Recombination::Smooth(Option::Some(1))" for y in w)
            ctx.ob(ok, key + ":value", f"{key} stores {E.show(x, 5)}", f.span)
        else:
            ctx.ob(given(x), key + ":value", f"{key} stores {E.show(x, 6)} instead of the given value", f.span)
    for k, names in TYPES.items():
        miss = set(names.split()) - seen.get(k, set())
        ctx.ob(not miss, f"setters:{k[1]}", f"setters of {k[1]} not found: {sorted(miss)}")
    ctx.floor("setters compared with their receiver", nf, 95)
    # validation and finalisation hand over the options
    n = 0
    for f in prog.fns.values():
        if f.generated() or not f.blocks:
            continue
        if f.name in ("check", "check_ref") and (f.crate, base(f.selfh)) in TYPES:
            v = payload(ctx.eval(f, selfty=f.selfh).val())
            n += 1
            ctx.ob(v is select(A[0], "0"), f"{base(f.selfh)}::{f.name}", f"{base(f.selfh)}::{f.name} hands over {E.show(v, 5)}", f.span)
        if f.name in ("min_within", "min_within_mixint_space") and base(f.selfh) in ("EgorFactory", "EgorServiceFactory"):
            v = payload(ctx.eval(f, selfty=f.selfh, opaque=lambda c, fn: fn.name in ("new_with_xtypes", "to_xtypes", "as_continuous_limits")).val())
            key = f"{base(f.selfh)}::{f.name}"
            n += 1
            ls = leaves(prog, select(select(v, "solver"), "config"), select(select(A[0], "config"), "0"), "ValidEgorConfig", f.crate)
            ok = {p for p, _ in ls} == {("xtypes",)} and q.params(ls[0][1]) == {"a1"}
            ctx.ob(ok, key + ":config", f"{key} changes the configuration: {show(ls)}", f.span)
            if base(f.selfh) == "EgorFactory":
                for x in ("fobj", "fcstrs"):
                    g = select(select(v, "fobj"), x)
                    ctx.ob(g is select(A[0], x), f"{key}:{x}", f"{key}: {x} becomes {E.show(g, 5)}", f.span)
                g = select(v, "run_info")
                ctx.ob(g is select(A[0], "run_info"), f"{key}:run_info", f"{key}: run_info becomes {E.show(g, 5)}", f.span)
        if f.name == "from" and f.trait == "From" and (f.crate, base(f.selfh)) in TYPES and re.match(r"\w*Valid", base(f.locals[1][0])):
            v = ctx.eval(f, selfty=f.selfh).val()
            n += 1
            ctx.ob(select(v, "0") is A[0], f"{base(f.selfh)}::from", f"{base(f.selfh)}::from gives {E.show(v, 5)}", f.span)
    ctx.floor("validations and finalisations", n, 12)


def alts(v):
    return [w for _, w in q.alts(v)]


def show(ls):
    return ", ".join(f"{'.'.join(p)} := {E.show(x, 4)}" for p, x in ls)[:400]
