"""C14: copies of models, parameters and configurations are complete."""
from vp import engine as E, q
from vp.engine import mk, select
from vp.facts import last_ident, calls, callee_name

ASSUMPTIONS = ["Clone of library types is trusted", "boxed models and callables are cloned through dyn_clone"]
A0 = mk("param", "a0")


def run(ctx):
    ctx.rule = "Every Clone implementation, hand-written or derived, must yield for each field exactly the original's same field and for each variant the same variant."
    prog = ctx.prog
    n = nf = hand = 0
    for f in prog.fns.values():
        if f.trait != "Clone" or f.name not in ("clone", "clone_from") or not f.blocks or f.crate not in ("egobox_gp", "egobox_moe", "egobox_ego", "egobox_doe", "egobox"):
            continue
        if (f.selfh or "").startswith("std::boxed::Box"):  # dyn_clone
            ctx.count("boxed callables and models cloned through dyn_clone")
            continue
        if "::_::" in f.path and "InternalBitFlags" in f.path:
            continue
        ty = last_ident((f.selfh or "").split("<")[0])
        if f.name == "clone_from":
            raise LookupError(f"{f.path}: clone_from is not handled")
        r = ctx.eval(f, selfty=f.selfh)
        v = r.val()
        n += 1
        a = [x for x in prog.adt(ty, f.crate)]
        key = f.selfh
        if v is A0:
            nf += 1
            ctx.ob(True, f"{key}", "", f.span)
            continue
        if len(a) != 1:
            a = [x for x in a if x["path"] == (f.selfh or "").split("<")[0]]
        if len(a) != 1:
            ctx.ob(False, f"{key}:type", f"copied type {f.selfh} not found ({len(a)})", f.span)
            continue
        a = a[0]
        hand += 1
        if a["kind"] != "Enum":
            if not a["vs"][0]["fs"]:
                nf += 1
                ctx.ob(v.k == "agg", key, f"copy of {f.selfh} is {E.show(v, 5)}", f.span)
            for x, t in a["vs"][0]["fs"]:
                nf += 1
                g = select(v, x)
                ctx.ob(copy_of(g, select(A0, x)) or "PhantomData" in t and g.k == "agg", f"{key}:{x}", f"copy of {ty}: field {x} is {E.show(g, 6)} instead of the original's {x}", f.span)
        else:
            ds = [x for x in q.walk(v, r.eng, control=True) if x.k == "discr" and x.a[0] is A0]
            for i, var in enumerate(a["vs"]):
                w = q.assume(v, {d: E.num(i) for d in ds})
                nf += 1
                ok = w.k == "agg" and w.d[1] == var["n"] and all(copy_of(x, select(select(A0, var["n"]), fl[0])) or E.show(x, 6) == f"a0.{var['n']}.{fl[0]}" for x, fl in zip(w.a, var["fs"]))
                ctx.ob(ok or w is A0, f"{key}:{var['n']}", f"copy of {ty}::{var['n']} is {E.show(w, 6)}", f.span)
    ctx.floor("copying implementations", n, 100)
    ctx.floor("fields and variants compared", nf, 280)
    ctx.count("implementations copying field by field", hand)


def copy_of(g, want):
    while g.k == "call" and len(g.a) == 1 and q.tail(g.d) in ("clone_box", "clone_to_uninit", "to_owned", "clone"):
        g = g.a[0]
    return g is want
