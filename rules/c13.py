"""C13: what is saved is what is loaded."""
from vp import engine as E, q
from vp.engine import mk, select
from vp.facts import last_ident, short_path, callee_name, calls

ASSUMPTIONS = ["serde, serde_json, bincode, typetag, bitflags and the serialisation of library types (ndarray, linfa, rand) are trusted to round-trip the values they are given",
               "numbers are finite: JSON has no form for infinities and NaN"]
A0 = mk("param", "a0")
ENC = {"to_vec": "json", "to_string": "json", "to_string_pretty": "json", "to_vec_pretty": "json", "to_writer": "json", "encode_to_vec": "bincode", "encode_into_std_write": "bincode"}
DEC = {"from_slice": "json", "from_str": "json", "from_reader": "json", "decode_from_slice": "bincode", "decode_from_std_read": "bincode"}


def bare(ty):
    ty = (ty or "").strip()
    while True:
        t = ty
        for p in ("&mut ", "&"):
            if t.startswith(p):
                t = t[len(p):].strip()
        if t.startswith("'") and " " in t:
            t = t.split(" ", 1)[1]
        if t.startswith("(") and t.endswith(")"):
            t = "(" + ", ".join(bare(x) for x in t[1:-1].split(", ")) + ")"
        for p in ("std::boxed::Box<", "alloc::boxed::Box<"):
            if t.startswith(p):
                t = t[len(p):-1]
        t = t.replace(" + 'static", "").replace("crate::", "")
        if t == ty:
            return t
        ty = t


def is_codec(n, tab):
    return n.k == "call" and q.tail(n.d) in tab and ("serde" in n.d or "json" in n.d or "bincode" in n.d)


def last_ty(ty):
    return ", ".join(last_ident(x) for x in bare(ty).strip("()").split(", "))


def discrs(v, eng):
    return list(dict.fromkeys(n for n in q.walk(v, eng, control=True) if n.k == "discr"))


class Side:
    """one direction of one file kind: the codec, its configuration, the type, and what else is computed on the way"""

    def __init__(s, ctx, fn, kind, selfty=None):
        s.fn, s.kind = fn, kind
        r = ctx.eval(fn, selfty=selfty or fn.selfh, opaque=lambda c, f: f.crate not in ("egobox_moe", "egobox_ego", "egobox") or f.name in ("extend_max_iters",))
        s.r, s.eng = r, r.eng
        tab = ENC if kind == "w" else DEC
        s.types = {}
        for e in r.events():
            if q.tail(e.name) in tab:
                for t in (e.callee.get("targs") or []):
                    if "config" not in t and "BufReader" not in t:
                        s.types.setdefault(q.tail(e.name), set()).add(last_ty(t))
        if kind == "w":
            ws = [e for e in r.events() if q.tail(e.name) in ("write_all", "write") and len(e.args) >= 2]
            s.n = len(ws)
            s.v = ws[-1].args[1] if ws else mk("const", "nothing")
            s.path = ws[-1].args[0] if ws else None
        else:
            s.n = 1
            s.v = select(select(r.val(), "Ok"), "0") if False else r.val()
            s.path = None
        s.fmt = [i for i in range(fn.argc) if "GpFileFormat" in fn.locals[i + 1][0]]

    def case(s, fmt):
        """the codec call in a format (None: the only one)"""
        v = s.v
        ds = [n for n in discrs(v, s.eng) if (s.fmt and n.a[0] is mk("param", f"a{s.fmt[0]}"))]
        if fmt is not None:
            v = q.assume(v, {n: E.num(fmt) for n in ds})
        tab = ENC if s.kind == "w" else DEC
        return list(dict.fromkeys(n for n in q.walk(v, s.eng) if is_codec(n, tab))), v, ds


def run(ctx):
    ctx.rule = ("For each file kind and format, writer and reader must go through the same codec with the same configuration and the same serialised type, the writer must write exactly the encoding of the saved value and the reader must return exactly what it decoded; "
                "every field of every serialisable structure must be written under its own name and read back into the same field, and every text form of a kernel or trend must be read back as itself.")
    prog = ctx.prog
    codecs(ctx, prog)
    derived(ctx, prog)
    textual(ctx, prog)
    tags(ctx, prog)


def codecs(ctx, prog):
    def one(name, crate, **kw):
        r = [f for f in prog.fns.values() if f.crate == crate and f.short == name and f.kind in ("Fn", "AssocFn") and not f.generated()]
        if len(r) != 1:
            raise LookupError(f"anchor {crate}:{name} matches {len(r)}")
        return r[0]
    pairs = [(one("GpMixture::save", "egobox_moe"), one("GpMixture::load", "egobox_moe"), True),
             (one("MixintGpMixture::save", "egobox_ego"), one("MixintGpMixture::load", "egobox_ego"), True),
             (one("HotStartCheckpoint::save", "egobox_ego"), one("HotStartCheckpoint::load", "egobox_ego"), False),
             (one("run_recorder::save_run", "egobox_ego"), one("run_recorder::load_run", "egobox_ego"), False)]
    load = one("surrogates::load", "egobox_moe")
    known = {f.h for p in pairs for f in p[:2]}
    for f in prog.fns.values():
        if f.crate == "egobox_moe" and f.trait == "GpSurrogate" and f.name == "save" and f.blocks and f.h not in known and not f.generated():
            pairs.append((f, load, True))
    sides = {}
    n = 0
    vi = {v["n"]: i for i, v in enumerate(prog.adt("GpFileFormat", "egobox_moe")[0]["vs"])}
    for w, r, formats in pairs:
        W = sides.setdefault(w.h, None) or Side(ctx, w, "w")
        R = sides.setdefault(r.h, None) or Side(ctx, r, "r")
        sides[w.h], sides[r.h] = W, R
        ctx.ob(W.n == 1, f"{w.short}:writes", f"{w.short} writes its file {W.n} times", w.span)
        want = set()
        for f in ("Json", "Binary") if formats else (None,):
            n += 1
            key = f"{w.short}:{r.short}:{f or 'json'}"
            i = vi[f] if f else None
            (cw, vw, dw), (cr, vr, dr) = W.case(i), R.case(i)
            if len(cw) != 1 or len(cr) != 1:
                ctx.ob(False, key + ":codec", f"{w.short} encodes with {[E.show(x, 3) for x in cw]} and {r.short} decodes with {[E.show(x, 3) for x in cr]} in {f or 'its only'} format: one codec each expected", w.span)
                continue
            cw, cr = cw[0], cr[0]
            ctx.ob(ENC[q.tail(cw.d)] == DEC[q.tail(cr.d)], key + ":codec", f"in {f or 'its only'} format {w.short} encodes with {cw.d} but {r.short} decodes with {cr.d}", w.span)
            if formats:
                ctx.ob((ENC[q.tail(cw.d)] == "json") == (f == "Json"), key + ":format", f"{w.short} encodes with {cw.d} in {f} format", w.span)
            if len(cw.a) > 1 or len(cr.a) > 1:
                ctx.ob(len(cw.a) > 1 and len(cr.a) > 1 and cw.a[1] is cr.a[1], key + ":configuration",
                       f"{w.short} and {r.short} use different codec configurations: {E.show(cw.a[-1], 4)} / {E.show(cr.a[-1], 4)}", w.span)
            tw, tr = W.types.get(q.tail(cw.d), set()), R.types.get(q.tail(cr.d), set())
            ctx.ob(tw == tr and len(tw) == 1, key + ":type", f"{w.short} encodes a {sorted(tw)} but {r.short} decodes a {sorted(tr)}", w.span)
            # the whole value, and nothing else
            val = cw.a[0]
            src = {0: A0, 1: mk("param", "a1")}
            okv = val is A0 or val is src[1] or (val.k == "agg" and all(x.k == "param" for x in val.a))
            ctx.ob(okv, key + ":value", f"{w.short} encodes {E.show(val, 5)} instead of the saved value", w.span)
            ctx.ob(vw is select(cw, "!"), key + ":bytes", f"{w.short} writes {E.show(vw, 5)} instead of the encoded bytes", w.span)
            got = payload(vr)
            dec = select(cr, "!")
            if DEC[q.tail(cr.d)] == "bincode":
                dec = select(dec, "0")
            if w.short.startswith("HotStart"):
                # the state may have its iteration budget extended (C10); nothing else may change
                some = [x for _, x in q.alts(got) or [(None, got)] if x.k == "agg" and "Some" in str(x.d)]
                got = some[0].a[0] if len(some) == 1 else got
                ok = select(got, "0") is select(dec, "0") and only_field_changed(select(got, "1"), select(dec, "1"), "max_iters")
            else:
                ok = got is dec
            ctx.ob(ok, key + ":decoded", f"{r.short} returns {E.show(got, 6)} instead of what it decoded ({E.show(dec, 4)})", r.span)
            # same file
            pr = [x for x in q.walk(cr.a[0], R.eng) if x.k == "call" and q.tail(x.d) in ("read", "open", "read_to_string")]
            okp = bool(pr)
            ctx.ob(okp, key + ":file", f"{r.short} decodes {E.show(cr.a[0], 5)}, not the content of a file", r.span)
            if okp:
                p = pr[-1].a[0]
                pw = W.path
                pwn = [x for x in q.walk(pw, W.eng) if x.k == "call" and q.tail(x.d) in ("create", "create_new")]
                pw = pwn[0].a[0] if pwn else pw
                ctx.ob(shape(pw) == shape(p) or pw.k == p.k == "param" and W.fn.locals[int(pw.d[1:]) + 1][0] == R.fn.locals[int(p.d[1:]) + 1][0], key + ":path", f"{w.short} writes to {E.show(pw, 5)} but {r.short} reads {E.show(p, 5)}", r.span)
    ctx.floor("file kinds and formats compared", n, 38)
    # python front ends: the same extension selects the same format on both sides
    m = 0
    for cls in ("Gpx", "SparseGpx"):
        s, l = one(cls + "::save", "egobox"), one(cls + "::load", "egobox")
        opq = dict(opaque=lambda c, f: f.crate != "egobox")
        rs, rl = ctx.eval(s, selfty=s.selfh, **opq), ctx.eval(l, args={0: mk("param", "a1")}, selfty=l.selfh, **opq)
        es = [e for e in rs.events() if q.tail(e.name) == "save"]
        el = [e for e in rl.events() if q.tail(e.name) == "load"]
        ctx.ob(len(es) == 1 and len(el) == 1, cls + ":calls", f"python {cls} saves {len(es)} and loads {len(el)} models", s.span)
        if len(es) == 1 and len(el) == 1:
            m += 1
            fs, fl = es[0].args[2], el[0].args[1]
            ctx.ob(q.same(fs, fl), cls + ":format", f"python {cls}.save chooses its format by {E.show(fs, 6)}, load by {E.show(fl, 6)}", s.span)
            ctx.ob(es[0].args[1] is mk("param", "a1") and el[0].args[0] is mk("param", "a1"), cls + ":path", f"python {cls} saves to {E.show(es[0].args[1], 4)} and loads from {E.show(el[0].args[0], 4)}", s.span)
            got = payload(rl.val())
            w = select(el[0].res, "!")
            ok = got.k in ("agg", "call") and len(got.a) == 1 and strip(got.a[0]) is w
            ctx.ob(ok, cls + ":model", f"python {cls}.load wraps {E.show(got, 5)} instead of the loaded model", l.span)
            ctx.ob(strip(es[0].args[0]) is select(A0, "0") or shape(es[0].args[0]).startswith("a0.0"), cls + ":saved", f"python {cls}.save saves {E.show(es[0].args[0], 5)}", s.span)
    ctx.floor("python front ends", m, 2)


def strip(v):
    while v.k in ("sel", "call") and len(v.a) == 1 and (v.k == "sel" and v.d == "0" and v.a[0].k == "call" and q.tail(v.a[0].d) == "new" or v.k == "call" and q.tail(v.d) == "new"):
        v = v.a[0]
    return v


def shape(n):
    return E.show(n, 12)


def payload(v):
    """the success value of a Result"""
    p = select(v, "!")
    return p


def only_field_changed(n, base, fld):
    if n is base:
        return True
    if n.k == "phi":
        return all(only_field_changed(x, base, fld) for _, x in q.alts(n))
    if n.k in ("upd", "wr"):
        return n.a[0] is base and str(n.d).strip(".") == fld or (only_field_changed(n.a[0], base, fld) and fld in str(n.d))
    if n.k == "eff" and "extend_max_iters" in str(n.d):
        return n.a[0] is base
    return False


def derived(ctx, prog):
    """field coverage of derived serialisers"""
    ser = {}
    for f in prog.fns.values():
        if f.trait == "Serialize" and f.name == "serialize" and f.selfh and not f.selfh.startswith("dyn ") and f.blocks:
            ser[(f.crate, f.selfh)] = f
    vis = {}
    for f in prog.fns.values():
        if f.trait == "Visitor" and f.name in ("visit_seq", "visit_map", "visit_newtype_struct", "visit_enum") and "::__Visitor" in (f.selfh or "") and f.blocks:
            vis.setdefault((f.crate, target(f.path)), {}).setdefault(f.name, []).append(f)
    ns = nf = ne = nw = 0
    for (crate, ty), f in sorted(ser.items()):
        a = [x for x in prog.adt(last_ident(ty), crate)]
        if last_ident(ty) in ("InternalBitFlags", "OtherParams"):
            continue
        a = [x for x in a if x["path"] == ty or last_ident(x["path"]) == last_ident(ty)]
        if not a:
            ctx.ob(False, f"{ty}:adt", f"serialisable type {ty} not found", f.span)
            continue
        a = a[0]
        v = {k: x for (c, t), x in vis.items() if c == crate and t == last_ident(ty) for k, x in x.items()}
        r = ctx.eval(f, selfty=f.selfh)
        ev = lambda *n: [e for e in r.events() if q.tail(e.name) in n]
        if ev("into") or any(q.tail(e.name) in ("from",) for e in r.events()) and not ev("serialize_field"):
            continue  # textual form
        if last_ident(ty) in ("RegressionSpec", "CorrelationSpec"):  # bitflags: one transparent value
            continue
        if len(a["vs"]) == 1 and a["kind"] != "Enum" and not any(q.tail(e.name).endswith("variant") for e in r.events()):
            fields = [x[0] for x in a["vs"][0]["fs"]]
            if ev("serialize_newtype_struct"):
                nw += 1
                e = ev("serialize_newtype_struct")[-1]
                ctx.ob(e.args[2] is select(A0, fields[0]) and len(fields) == 1, f"{ty}:newtype", f"{ty} is written as {E.show(e.args[2], 4)}", f.span)
                for g in v.get("visit_newtype_struct", []):
                    rr = ctx.eval(g, selfty=g.selfh)
                    p = select(rr.val(), "!")
                    ok = p.k == "agg" and len(p.a) == 1 and p.a[0].k in ("sel",) and "deserialize" in E.show(p.a[0], 3)
                    ctx.ob(ok, f"{ty}:newtype-read", f"{ty} is read back as {E.show(p, 5)}", g.span)
                continue
            fe = ev("serialize_field")
            if not fields and not fe:
                continue
            if not fe:
                if len(fields) == 1 and ev("serialize"):  # transparent
                    ctx.ob(any(e.args[0] is select(A0, fields[0]) for e in ev("serialize")), f"{ty}:transparent", f"{ty} is written without its content", f.span)
                    continue
                ctx.ob(False, f"{ty}:fields", f"{ty} is written without any of its fields", f.span)
                continue
            ns += 1
            names = {}
            order = []
            for e in fe:
                nm, val = const(e.args[1]), e.args[2]
                hit = [x for x in fields if val is select(A0, x)]
                if len(hit) == 1:
                    names[hit[0]] = nm
                    order.append(hit[0])
                else:
                    ctx.ob(False, f"{ty}:{nm}:value", f"{ty} writes {E.show(val, 5)} under the name {nm}", e.span)
            head = ev("serialize_struct", "serialize_tuple_struct")
            lit = head and head[0].args[-1].k == "const"
            ctx.ob(bool(lit), f"{ty}:count", f"{ty}: the number of written fields depends on the value; positional formats cannot read it back", f.span)
            miss = [x for x in fields if x not in names and not phantom(a, x)]
            ctx.ob(not miss, f"{ty}:missing", f"{ty}: field(s) {miss} are not written", f.span)
            ctx.ob(len(set(names.values())) == len(names), f"{ty}:names", f"{ty}: two fields are written under the same name", f.span)
            for g in v.get("visit_seq", []):
                rr = ctx.eval(g, selfty=g.selfh)
                p = select(rr.val(), "!")
                for i, x in enumerate(order):
                    nf += 1
                    ctx.ob(elem_index(select(p, x)) == {i}, f"{ty}:{x}:seq", f"{ty}: field {x}, written at position {i}, is read back as {E.show(select(p, x), 5)}", g.span)
            for g in v.get("visit_map", []):
                rr = ctx.eval(g, selfty=g.selfh)
                p = select(rr.val(), "!")
                slots = {}
                for x in order:
                    nf += 1
                    val = select(p, x)
                    al = [y for _, y in q.alts(val)] or [val]
                    mus = [y for y in al if any(z.k == "mu" for z in q.walk(y))]
                    ctx.ob(len(mus) >= 1, f"{ty}:{x}:map", f"{ty}: field {x} is not read back from the file: {E.show(val, 5)}", g.span)
                    mf = [const(z.a[0]) for y in al for z in q.walk(y) if z.k == "call" and q.tail(z.d) == "missing_field"]
                    ctx.ob(all(z == names[x] for z in mf), f"{ty}:{x}:name", f"{ty}: field {x} is written as {names[x]} but read as {mf}", g.span)
                    for y in mus:
                        slots.setdefault(id(y), []).append(x)
                for xs in slots.values():
                    ctx.ob(len(xs) == 1, f"{ty}:{'/'.join(xs)}:slot", f"{ty}: fields {xs} are read back from the same entry", g.span)
            if not (v.get("visit_seq") and v.get("visit_map")):
                ctx.ob("visit_seq" in v, f"{ty}:reader", f"{ty} has no generated reader", f.span)
        else:
            ne += 1
            enum_case(ctx, prog, crate, ty, a, f, r, v)
    ctx.floor("structures with every field compared", ns, 26)
    ctx.floor("field readings compared", nf, 220)
    ctx.floor("newtype wrappers compared", nw, 16)
    ctx.floor("enumerations compared", ne, 12)


def phantom(a, x):
    return any(y[0] == x and "PhantomData" in y[1] for y in a["vs"][0]["fs"])


def const(n):
    return n.d[0] if n.k == "const" else E.show(n, 3)


def elem_index(n):
    """positions of the sequence a value was read from"""
    out = set()
    for _, x in q.alts(n) or [(None, n)]:
        while x.k == "sel":
            x = x.a[0]
        if x.k == "call" and q.tail(x.d) == "next_element":
            i, y = 0, x.a[0]
            while y.k == "eff" and "next_element" in str(y.d):
                i += 1
                y = y.a[0]
            out.add(i if y.k == "param" else -1)
        elif x.k == "call" and q.tail(x.d) == "missing_field" or x.k == "call" and q.tail(x.d) in ("default", "max_value", "one", "zero", "min_value") or x.k == "const":
            pass
        else:
            out.add(-2)
    return out


def target(path):
    """type a visitor's impl is generated for"""
    i = path.find(" for ")
    if i < 0:
        return ""
    s = path[i + 5:]
    d = 0
    for j, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
            if d < 0:
                return last_ident(s[:j])
    return last_ident(s)


def enum_case(ctx, prog, crate, ty, a, f, r, v):
    """each variant is written in one form under its own number and name, and the reader maps that number and name back to that variant"""
    names, content = {}, {}
    for e in r.events():
        t = q.tail(e.name)
        if t in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_tuple_variant", "serialize_struct_variant"):
            i = int(const(e.args[2]))
            names.setdefault(i, set()).add(const(e.args[3]))
            if t == "serialize_newtype_variant":
                content.setdefault(i, []).append(e.args[4])
        elif t == "serialize_field":
            hit = [y for y in q.walk(e.args[0], r.eng) if y.k == "call" and q.tail(y.d) in ("serialize_tuple_variant", "serialize_struct_variant")]
            if hit:
                content.setdefault(int(const(hit[-1].a[2])), []).append(e.args[-1])
    vs = [x["n"] for x in a["vs"]]
    wn = {}
    for i, nm in enumerate(vs):
        got = names.get(i, set())
        ctx.ob(len(got) == 1, f"{ty}:{nm}:written", f"{ty}::{nm} is written as {sorted(got)}: exactly one form expected", f.span)
        if len(got) == 1:
            wn[i] = next(iter(got))
        fs = [x[0] for x in a["vs"][i]["fs"]]
        have = [x for x in fs if any(E.show(c, 6) == f"a0.{nm}.{x}" for c in content.get(i, []))]
        ctx.ob(len(have) == len(fs), f"{ty}:{nm}:content", f"{ty}::{nm} has fields {fs} but writes {[E.show(c, 4) for c in content.get(i, [])]}", f.span)
    ctx.ob(len(set(wn.values())) == len(wn), f"{ty}:names", f"{ty}: two variants are written under the same name", f.span)
    n = 0
    for g in prog.fns.values():
        if g.trait == "Visitor" and g.crate == crate and g.name in ("visit_str", "visit_u64") and "deserialize::__FieldVisitor" in (g.selfh or "") and g.blocks and target(g.path) == last_ident(ty):
            n += 1
            for i, nm in wn.items():
                arg = E.num(i) if g.name == "visit_u64" else const_str(nm)
                rr = ctx.eval(g, args={1: arg}, selfty=g.selfh)
                p = E.show(select(rr.val(), "!"), 6)
                ctx.ob(f"__field{i}()" in p and p.count("__field") == 1, f"{ty}:{nm}:{g.name}", f"{ty}::{nm}, written as {i} / {nm}, is read back as {p}", g.span)
    ctx.ob(n >= 2, f"{ty}:reader", f"{ty} has {n} generated identifier readers", f.span)
    ctx.ob(len(v.get("visit_enum", [])) == 1, f"{ty}:visit", f"{ty} has {len(v.get('visit_enum', []))} generated readers", f.span)
    for g in v.get("visit_enum", []):
        rr = ctx.eval(g, selfty=g.selfh)
        ds = [x for x in discrs(rr.val(), rr.eng) if "variant(a1)" in E.show(x.a[0], 6) and E.show(x.a[0], 6).endswith(".0")]
        for i, nm in enumerate(vs):
            w = q.assume(rr.val(), {x: E.num(i) for x in ds}) if len(vs) > 1 else rr.val()
            al = [x for _, x in q.alts(w) or [(None, w)]]
            good = [x for x in al if reads(x, nm)]
            other = [x for x in al if any(reads(x, m) for m in vs if m != nm)]
            struct = [x for x in al if x.k == "call" and q.tail(x.d) in ("struct_variant", "tuple_variant")]
            ctx.ob(len(good) + len(struct) == 1 and not other, f"{ty}:{nm}:read", f"{ty}::{nm} is read back as {E.show(w, 6)}", g.span)


def reads(x, nm):
    """a result that yields the variant"""
    s = [y for y in q.walk(x) if y.k == "agg" and len(y.d) > 1 and y.d[1] == nm] + [y for y in q.walk(x) if y.k in ("call", "fn") and str(y.d if y.k == "call" else y.d).endswith("::" + nm)]
    return bool(s)


def const_str(s):
    return E.mk("const", (s, "str"))


def textual(ctx, prog):
    """types written as text: reading back the written text yields the type"""
    n = 0
    for f in list(prog.fns.values()):
        if f.trait == "From" and f.name == "from" and f.blocks and f.locals[0][0] in ("std::string::String", "alloc::string::String") and not f.generated() and f.crate == "egobox_gp":
            src = last_ident(f.locals[1][0])
            back = [g for g in prog.fns.values() if g.trait == "TryFrom" and g.name == "try_from" and g.crate == f.crate and last_ident((g.selfh or "").split("<")[0]) == src and g.blocks]
            r = ctx.eval(f, selfty=f.selfh)
            text = [x for x in q.walk(r.val(), r.eng) if x.k == "const" and x.d[1] == "str"]
            if not text:  # through its textual representation
                for g in prog.fns.values():
                    if g.trait == "Display" and g.name == "fmt" and g.crate == f.crate and last_ident((g.selfh or "").split("<")[0]) == src and g.blocks:
                        rd = ctx.eval(g, selfty=g.selfh)
                        text = [x for x in q.walk(rd.val(), rd.eng) if x.k == "const" and x.d[1] == "str"]
            ctx.ob(len(text) == 1, f"{src}:text", f"{src} is written as {E.show(r.val(), 5)}: a fixed text expected", f.span)
            ctx.ob(len(back) >= 1, f"{src}:reader", f"{src} cannot be read back from text", f.span)
            for g in back:
                n += 1
                rr = ctx.eval(g, args={0: text[0]} if text else {}, selfty=g.selfh)
                p = rr.val()
                ok = p.k == "agg" and "Ok" in str(p.d)
                ctx.ob(ok, f"{src}:text-read", f"{src} is written as {E.show(r.val(), 5)}, which is read back as {E.show(p, 5)}", g.span)
    ctx.floor("kernels and trends written as text", n, 7)


def tags(ctx, prog):
    """type tags of boxed models are distinct per trait"""
    seen, n = {}, 0
    for f in prog.fns.values():
        if f.name == "typetag_name" and f.blocks:
            r = ctx.eval(f, selfty=f.selfh)
            v = r.val()
            if v.k != "const":
                continue
            n += 1
            seen.setdefault((f.crate, f.trait, const(v)), []).append(f)
    for k, fs in seen.items():
        ctx.ob(len(fs) == 1, f"tag:{k[1]}:{k[2]}", f"{len(fs)} types are written under the same tag {k[2]}: {[x.selfh for x in fs]}", fs[0].span)
    ctx.count("type tags", n)
    ctx.floor("type tags", n, 40)
