"""C30: floats are converted numerically; no memory is reinterpreted or accessed without checks outside the justified sites."""
import re
from vp import engine as E, q
from vp.engine import mk, select
from vp.facts import last_ident, calls

ASSUMPTIONS = ["third-party crates use unsafe code soundly", "code expanded from third-party macros (pyo3, serde, typetag, ndarray) is sound"]
CRATES = ("egobox_doe", "egobox_gp", "egobox_moe", "egobox_ego", "egobox", "gpqa")
A = [mk("param", f"a{i}") for i in range(8)]
# where unsafe code may be written: the in-place permutation of an array, whose obligations are checked below
SITES = {"sort_axis"}
BITS = {"to_bits", "from_bits", "to_ne_bytes", "from_ne_bytes", "to_le_bytes", "from_le_bytes", "to_be_bytes", "from_be_bytes", "integer_decode"}
PERM_OK = {"sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "shuffle", "rotate_left", "rotate_right", "deref_mut", "as_mut_slice", "iter_mut"}


def run(ctx):
    ctx.rule = ("Blocks written as unsafe, hand-written unsafe implementations, transmutations, raw pointer dereferences, bit-pattern conversions of floats, narrowing float casts and dispatch on the identity of the float type are enumerated in "
                "every function of the workspace; none may occur outside the module of the array permutation, whose own obligations are checked: indices are a permutation by construction, are only reordered, and have the length of the axis.")
    prog = ctx.prog
    n = nf = nc = 0
    for f in prog.fns.values():
        if f.crate not in CRATES:
            continue
        nf += 1
        site = bool(SITES & set(re.split(r"[:<> ]+", f.j["path"])) or any(s in (f.span or "") for s in SITES))
        own = [s for s, o in f.j.get("unsafes") or () if o]
        for s in own:
            n += 1
            ctx.ob(site, f"unsafe:{f.short}", f"{f.short} has an unsafe block outside the justified sites", s)
        if f.generated() or not f.blocks:
            continue
        exp = any(not o for _, o in f.j.get("unsafes") or ()) or f.j.get("unsafe") or "__py" in f.j["path"] or "_::" in f.j["path"]
        for b in f.blocks:
            for st in b["st"]:
                r = st.get("r") or {}
                if r.get("k") != "cast":
                    continue
                nc += 1
                if r["ck"] == "Transmute" and not exp and not boxed(f, r):
                    ctx.ob(site, f"transmute:{f.short}", f"{f.short} reinterprets a value as {r['ty']}", st["s"])
                if r["ck"] == "FloatToFloat" and r["ty"] == "f32":
                    ctx.ob(False, f"narrow:{f.short}", f"{f.short} narrows a floating-point value to f32", st["s"])
                if r["ck"] == "PtrToPtr" and not exp:
                    ctx.ob(site, f"ptr:{f.short}", f"{f.short} casts a pointer to {r['ty']}", st["s"])
        for i, t, c in calls(f):
            if not c or exp:
                continue
            nm = c.get("name") or ""
            if nm in BITS and re.match(r"^(core|std)::(f32|f64|num)|^(core|std)::.*<impl f(32|64)>|^num_traits|.*<impl f(32|64)>", c["path"]):
                ctx.ob(False, f"bits:{f.short}", f"{f.short} works on the bit pattern of a float ({nm})", t["s"])
            if ("TypeId" in c["path"] or nm in ("type_id", "type_name", "type_name_of_val")) and "any" in c["path"]:
                ctx.ob(False, f"type:{f.short}", f"{f.short} behaves according to the identity of a type ({c['path']})", t["s"])
            if nm in ("to_f32", "transmute", "transmute_copy") or (nm == "from" and "NumCast" in c["path"] and "f32" in str(c.get("self"))):
                ctx.ob(False, f"conv:{f.short}:{nm}", f"{f.short} converts a value with {nm}", t["s"])
            if nm in ("as_", "cast", "to_f64") or nm == "from_f64":
                n += 1
                ctx.ob(True, f"numeric:{f.short}:{nm}:{t['s']}", "", t["s"])
    for im in prog.impls:
        if im.get("unsafe") and not im.get("exp"):
            ctx.ob(False, f"impl:{im['self']}:{last_ident(im['trait'])}", f"unsafe implementation of {im['trait']} for {im['self']}", im["span"])
    ctx.count("functions scanned", nf)
    ctx.count("casts scanned", nc)
    ctx.floor("functions scanned for unsafe code", nf, 1500)
    # ---- obligations of the permutation
    np = 0
    adt = prog.adt("Permutation")
    if adt:
        for f in prog.fns.values():
            if not f.blocks or f.generated() or f.crate != "egobox_ego" or f.j.get("traitref", "").startswith("std::clone"):
                continue
            for b in f.blocks:
                for st in b["st"]:
                    r = st.get("r") or {}
                    if r.get("k") == "agg" and last_ident(str(r.get("adt"))) == "Permutation" and f.name not in ("clone", "fmt"):
                        np += 1
                        v = ctx.eval(f).val()
                        vs = [x for x in q.walk(v, control=False) if x.k == "agg" and x.d[1] == "Permutation"]
                        ok = vs and all(built(f, x, v) for x in vs)
                        ctx.ob(ok, f"perm:{f.short}", f"{f.short} builds a permutation that is not one by construction", st["s"])
            # mutable access to the indices
            muts = set()
            for b in f.blocks:
                for st in b["st"]:
                    r = st.get("r") or {}
                    d = st.get("d")
                    if r.get("k") == "ref" and r.get("mut") and field(r["pl"]):
                        muts.add(d["l"])
                    if d and field(d):
                        ctx.ob(False, f"perm:write:{f.short}", f"{f.short} overwrites the indices of a permutation", st["s"])
            if muts:
                np += 1
                work = True
                bad = None
                while work:
                    work = False
                    for b in f.blocks:
                        for st in b["st"]:
                            r = st.get("r") or {}
                            src = [r.get("pl")] + [o.get("pl") for o in r.get("o") or ()]
                            if any(p and p["l"] in muts for p in src) and st["d"]["l"] not in muts:
                                muts.add(st["d"]["l"])
                                work = True
                        t = b["t"]
                        if t["k"] == "call" and any((a.get("pl") or {}).get("l") in muts for a in t["a"][:1]):
                            nm = t["f"].get("fn", {}).get("name")
                            if nm not in PERM_OK:
                                bad = nm
                            if nm in ("deref_mut", "as_mut_slice") and t["d"]["l"] not in muts:
                                muts.add(t["d"]["l"])
                                work = True
                ctx.ob(bad is None, f"perm:mut:{f.short}", f"{f.short} changes the indices of a permutation with {bad}", f.span)
        ctx.floor("constructions and updates of permutations", np, 3)
        for f in prog.fns.values():
            if f.crate == "egobox_ego" and f.name == "permute_axis" and f.blocks and not f.j.get("traitdef"):
                r = ctx.eval(f)
                ev = [e for e in r.events() if q.tail(e.name) in ("stride_offset", "copy_nonoverlapping", "assume_init", "set_len", "get_unchecked", "uget", "offset", "add")]
                ctx.floor("unsafe operations of the permutation", len(ev), 3)
                for e in ev:
                    ok = any(samelen(c, ed) for c, ed in e.guards())
                    ctx.ob(ok, f"perm:len:{q.tail(e.name)}", f"{f.short} calls {q.tail(e.name)} without having checked that the permutation has the length of the axis", e.span)


def boxed(f, r):
    """what the compiler makes of dereferencing a Box"""
    return r["ty"].startswith("*const ") and all(re.match(r"(std::|core::)?(ptr::)?(NonNull|Unique|boxed::Box)\b", f.locals[o["pl"]["l"]][0]) or "NonNull" in f.locals[o["pl"]["l"]][0] or "Box" in f.locals[o["pl"]["l"]][0]
                                                 for o in r["o"] if o.get("pl"))


def field(pl):
    return any(isinstance(p, dict) and p.get("n") == "indices" and last_ident(str(p.get("adt"))) == "Permutation" for p in pl["p"])


def built(f, x, v):
    i = select(x, "indices")
    while i.k in ("eff",) or (i.k == "call" and q.tail(i.d) in ("collect", "from_iter", "to_vec", "clone", "into_iter", "rev")):
        if i.k == "eff" and q.tail(i.d[0]) not in PERM_OK:
            return False
        i = i.a[0]
    if i.k == "agg" and i.d[1] == "Range" and q.same(select(i, "start"), E.num(0)):
        return True
    # given indices are checked
    return f.name == "from_indices" and v.k == "phi" and len(v.a) == 2


def samelen(c, ed):
    if q.lit(E.num(1), ed) is not True and ed[0] != "notin":
        return False
    return c.k == "op" and c.d == "Eq" and {q.tail(x.d) if x.k == "call" else x.k for x in c.a} == {"len_of", "len"}
