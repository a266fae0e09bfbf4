"""C04: mixed-integer encoding and decoding agree on columns: limits, unfold, cast and fold."""
from vp import engine as E, q
from vp.engine import mk, select, elem, num
from vp.facts import last_ident

ASSUMPTIONS = ["points handed to the decoding have the declared number of columns", "argmin/argmax of ndarray-stats and f64::round behave as documented"]


def variants(ctx):
    a = ctx.prog.adt("XType", "egobox_ego")
    if len(a) != 1:
        raise LookupError("anchor enum XType")
    return {v["n"]: i for i, v in enumerate(a[0]["vs"])}


class Case:
    """one variable kind of one coding function: everything restricted to `the current variable is of that kind`"""

    def __init__(self, eng, root, xt, idx):
        self.eng, self.idx = eng, idx
        ds = [n for n in q.walk(root, eng, control=True) if n.k == "discr" and self.is_var(n.a[0], xt)]
        self.facts = {d: num(idx) for d in ds}
        self.vars = {d.a[0] for d in ds}

    @staticmethod
    def is_var(n, xt):
        return n.k == "elem" and n.a[0] is xt

    def of(self, n):
        return q.assume(n, self.facts)

    def inside(self, n, stop):
        """nodes n is made of in this case, through inner loops, not below the loop-carried values in stop"""
        seen, out, st = set(), [], [self.of(n)]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            if x in stop:
                continue
            if x.k == "mu":
                st.extend(self.of(y) for y in E.MU.get(x, ()))
            st.extend(x.a)
        return out


def cursor_of(root, eng, xt, vs, vname):
    """loop-carried counters over the variables: {mu: {kind: step}}"""
    out = {}
    for m in {n for n in q.walk(root, eng) if n.k == "mu"}:
        ops = E.MU.get(m, ())
        if len(ops) != 2 or not any(E.is_num(o, 0) for o in ops):
            continue
        nxt = [o for o in ops if not E.is_num(o, 0)]
        if len(nxt) != 1:
            continue
        steps = {}
        for k, i in vs.items():
            c = Case(eng, root, xt, i)
            p = q.padd(q.poly(c.of(nxt[0])), q.poly(m), -1)
            steps[k] = p
        if any(m in dict(mono) for p in steps.values() for mono in p):
            continue
        out[m] = steps
    return out


def width_ok(p, kind, xt):
    if kind != "Enum":
        return p == {(): 1}
    return len(p) == 1 and all(c == 1 and len(m) == 1 and m[0][1] == 1 and is_levels(m[0][0], xt, "Enum") for m, c in p.items())


def is_levels(n, xt, kind):
    """payload of the current variable's specification"""
    return n.k == "sel" and n.d == kind + ".0" and n.a[0].k == "elem" and n.a[0].a[0] is xt


def colform(c, cur, xt):
    """column expression relative to the cursor: 'cursor', 'cursor..+width', 'variable', or text"""
    if q.poly(c) == q.poly(cur):
        return "cursor"
    if c.k == "agg" and last_ident(c.d[0]) == "Range":
        s, e = c.a[0], c.a[1]
        w = q.padd(q.poly(e), q.poly(s), -1)
        ws = "+width" if width_ok(w, "Enum", xt) else "+" + q.pshow(w)
        return colform(s, cur, xt) + ".." + ws
    if c is E.STAR or (c.k == "call" and c.d == "index"):
        return "variable"
    if c.k == "elem" and c.a[0].k == "call" and c.a[0].d == "range":
        r = c.a[0]
        return colform(E.agg("Range", "", 0, ("start", "end"), (r.a[0], r.a[1])), cur, xt)
    return E.show(c, 6)


def cols_read(nodes, base, cur, xt):
    """columns of base read by nodes"""
    out = set()
    for n in nodes:
        if n.k != "elem":
            continue
        b, ix = n.a[0], n.a[1:]
        if b in base and len(ix) == 2:
            out.add(colform(ix[1], cur, xt))
        elif b.k == "elem" and b.a[0] in base and len(b.a) == 2 and len(ix) == 1:
            out.add(colform(ix[0], cur, xt))
    return out


def cols_written(n, base, case, cur, xt):
    """columns of the array written between the loop-carried value and n"""
    out, seen, st = set(), set(), [n]
    while st:
        x = case.of(st.pop())
        if x in seen or x in base:
            continue
        seen.add(x)
        if x.k == "wr":
            ix = x.a[2:]
            out.add(colform(ix[-1], cur, xt))
            st.append(x.a[0])
        elif x.k == "mu":
            st.extend(E.MU.get(x, ()))
        elif x.k == "phi":
            st.extend(x.a)
    return out


def run(ctx):
    ctx.rule = ("For each variable kind, the value graphs of the continuous limits, unfold, cast and fold functions restricted to that kind must read and write exactly the columns at a running cursor "
                "that starts at 0 and advances by the kind's width (1, or the number of categories), write the kind's own value there, and agree on the total width.")
    vs = variants(ctx)
    ctx.floor("variable kinds", len(vs), 4)
    if set(vs) != {"Float", "Int", "Ord", "Enum"}:
        ctx.fail("kinds", f"variable kinds are {sorted(vs)}: the rule knows Float, Int, Ord, Enum", "crates/ego/src/types.rs")
    A0, A1 = mk("param", "a0"), mk("param", "a1")
    ncur = 0

    # ---------------------------------------------------------------- columns of fold, unfold, cast
    spec = {
        "fold_with_enum_index": dict(reads={k: "cursor" for k in ("Float", "Int", "Ord")} | {"Enum": "cursor..+width"}, writes="variable"),
        "unfold_with_enum_mask": dict(reads={k: "variable" for k in vs}, writes={k: "cursor" for k in ("Float", "Int", "Ord")} | {"Enum": "cursor..+width"}),
        "cast_to_discrete_values_mut": dict(reads={"Float": None, "Int": "cursor", "Ord": "cursor", "Enum": "cursor..+width"}, writes={"Float": None, "Int": "cursor", "Ord": "cursor", "Enum": "cursor..+width"}),
    }
    for name, sp in spec.items():
        f = ctx.fn("mixint::" + name, "egobox_ego")
        r = ctx.eval(f)
        eng = r.eng
        inplace = name.startswith("cast")
        root = r.arg_final(1) if inplace else r.val()
        cur = cursor_of(root, eng, A0, vs, name)
        good = {m: s for m, s in cur.items() if all(width_ok(s[k], k, A0) for k in vs)}
        if not ctx.ob(len(good) == 1, f"{name}:cursor", f"{f.short}: no running column cursor advancing by 1 for scalar variables and by the number of categories for categorical ones "
                      f"(counters found: {[{k: q.pshow(p) for k, p in s.items()} for s in cur.values()]})", f.span):
            continue
        ncur += 1
        C = next(iter(good))
        R = root
        while R.k != "mu" and R.a:  # the loop-carried result
            R = R.a[0]
        if not ctx.ob(R.k == "mu", f"{name}:loop", f"{f.short}: the result is not built by a loop over the variables ({E.show(root, 5)})", f.span):
            continue
        part = [x for x in (q.Keyer().loopsrc(m) for m in (R, C)) if x]
        ctx.ob(not part, f"{name}:complete", f"{f.short}: the loop over the variables is partial: {part}", f.span)
        ops = [o for o in E.MU[R] if any(n is C for n in q.walk(o, eng)) or any(n.k == "wr" for n in q.walk(o, eng))]
        for k, i in vs.items():
            case = Case(eng, root, A0, i)
            nxt = [case.of(o) for o in ops if case.of(o) is not R]
            nodes = [n for o in nxt for n in case.inside(o, {R, C})]
            src = {R} | {n for n in nodes if n.k == "mu" and R in E.MU.get(n, ())} if inplace else {A1}
            # points read: below value positions only
            rd = cols_read(nodes, src, C, A0)
            wr = set()
            for o in nxt:
                wr |= cols_written(o, {R}, case, C, A0)
            want = sp["reads"][k]
            wantw = sp["writes"] if isinstance(sp["writes"], str) else sp["writes"][k]
            ctx.ob(rd == ({want} if want else set()), f"{name}:{k}:reads:{','.join(sorted(rd))}",
                   f"{f.short} reads columns {{{', '.join(sorted(rd)) or 'none'}}} for a {k} variable instead of {want or 'none'}", f.span)
            ctx.ob(wr == ({wantw} if wantw else set()), f"{name}:{k}:writes:{','.join(sorted(wr))}",
                   f"{f.short} writes columns {{{', '.join(sorted(wr)) or 'none'}}} for a {k} variable instead of {wantw or 'none'}", f.span)
            # what is written
            vals = [x for o in nxt for x in written(o, R, case)]
            txt = [E.show(v, 7) for v in vals]
            if wantw:
                ctx.ob(value_ok(name, k, vals, case, {R, C}, A0), f"{name}:{k}:value", f"{f.short} writes {txt} for a {k} variable", f.span)
        if not inplace:
            z = [o for o in E.MU[R] if o.k == "call" and q.tail(o.d) == "zeros"]
            sh = z[0].a[0] if z else None
            if ctx.ob(sh is not None and sh.k == "agg" and len(sh.a) == 2, f"{name}:shape", f"{f.short}: result shape not recognised", f.span):
                n2 = sh.a[1]
                if name.startswith("fold"):
                    ctx.ob(n2.k == "call" and q.tail(n2.d) == "len" and n2.a[0] is A0, f"{name}:ncols", f"{f.short}: number of columns is {E.show(n2, 6)}, not the number of variables", f.span)
                else:
                    ctx.ob(total_width(n2, vs, A0, eng), f"{name}:ncols", f"{f.short}: number of columns is {E.show(n2, 8)}, not the sum of the widths", f.span)
                ctx.ob(q.tail(sh.a[0].d) == "nrows" if sh.a[0].k == "call" else False, f"{name}:nrows", f"{f.short}: number of rows is {E.show(sh.a[0], 5)}", f.span)

    # ---------------------------------------------------------------- limits
    f = ctx.fn("mixint::as_continuous_limits", "egobox_ego")
    r = ctx.eval(f)
    root = r.val()
    cur = cursor_of(root, r.eng, A0, vs, "limits")
    good = {m: s for m, s in cur.items() if all(width_ok(s[k], k, A0) for k in vs)}
    shape = [n for n in q.walk(root, r.eng) if n.k == "call" and q.tail(n.d) == "from_shape_vec"]
    if ctx.ob(len(shape) == 1, "limits:shape", f"{f.short}: the limits are not one reshaped list ({E.show(root, 5)})", f.span):
        sh, lst = shape[0].a
        nd = sh.a[0] if sh.k == "agg" and len(sh.a) == 2 else None
        ctx.ob(nd is not None and (nd in good or total_width(nd, vs, A0, r.eng)) and E.is_num(sh.a[1], 2), "limits:dims", f"{f.short}: the shape of the limits is {E.show(sh, 6)} instead of (total width, 2)", f.span)
        ncur += 1
        for k, i in vs.items():
            case = Case(r.eng, root, A0, i)
            nodes = set()
            for o in (E.MU.get(lst, ()) if lst.k == "mu" else [lst]):
                nodes |= set(case.inside(o, {lst}))
            pushes = []
            for n in nodes:
                if n.k == "eff" and q.tail(n.d[0]) in q.ADD and n.d[1] == 0:
                    pushes.append(n.a[-1])
            ctx.ob(limits_ok(k, pushes, A0), f"limits:{k}", f"{f.short}: limits of a {k} variable are {[E.show(p, 7) for p in pushes]}", f.span)
            if k == "Enum":
                loops = [n for n in nodes if n.k == "eff" and q.tail(n.d[0]) in q.ADD and n.a[0].k == "mu" and n.a[0] is not lst]
                ctx.ob(len(loops) == 1 and counted(loops[0], r.eng, A0, f), "limits:Enum:count", f"{f.short}: one (0, 1) interval per category is expected", f.span)
    # ---------------------------------------------------------------- widths
    f = ctx.fn("mixint::compute_continuous_dim", "egobox_ego")
    r = ctx.eval(f)
    ctx.ob(total_width(r.val(), vs, A0, r.eng), "width", f"{f.short}: the continuous dimension is {E.show(r.val(), 8)}, not the sum of the widths of the variables", f.span)
    ctx.floor("column cursors", ncur, 4)
    # ---------------------------------------------------------------- public compositions
    keep = lambda c, fn: fn.name in spec
    comp = {"to_discrete_space": lambda: mk("call", "mixint::fold_with_enum_index", (A0, mk("eff", ("mixint::cast_to_discrete_values_mut", 1), (A0, A1)))),
            "to_continuous_space": lambda: mk("call", "mixint::unfold_with_enum_mask", (A0, A1)),
            "cast_to_discrete_values": lambda: mk("eff", ("mixint::cast_to_discrete_values_mut", 1), (A0, A1))}
    for name, want in comp.items():
        f = ctx.fn("mixint::" + name, "egobox_ego")
        v = ctx.eval(f, opaque=keep).val()
        ctx.ob(q.same(v, want()), name, f"{f.short} computes {E.show(v, 7)} instead of {E.show(want(), 7)}", f.span)


def counted(n, eng, xt, f):
    """the interval of a category is pushed once per category: the loop it is pushed in runs that many times"""
    m = n.a[0]
    srcs = E.LOOPS.get(m.d[:2]) or (E.LOOPS.get(m.d[0]) if m.d[1] == "clo" else None) or ()
    return bool(srcs) and all(range_len(x, xt) for x in srcs)


def range_len(a, xt):
    if a.k == "call" and a.d == "RangeInclusive::new":
        return width_ok(q.padd(q.padd(q.poly(a.a[1]), q.poly(a.a[0]), -1), {(): 1}), "Enum", xt)
    if a.k == "agg" and last_ident(a.d[0]) == "Range":
        return width_ok(q.padd(q.poly(a.a[1]), q.poly(a.a[0]), -1), "Enum", xt)
    return False


def written(n, R, case):
    """values written on the way from the loop-carried result to n"""
    out, seen, st = [], set(), [n]
    while st:
        x = case.of(st.pop())
        if x in seen or x is R:
            continue
        seen.add(x)
        if x.k == "wr":
            out.append(case.of(x.a[1]))
            st.append(x.a[0])
        elif x.k == "mu":
            st.extend(E.MU.get(x, ()))
        elif x.k == "phi":
            st.extend(x.a)
    return out


def opsin(nodes):
    return {n.d if n.k == "op" else q.tail(n.d if n.k == "call" else n.d[0]) for n in nodes if n.k in ("op", "call", "eff")}


def value_ok(name, kind, vals, case, stop, xt):
    vals = [v.a[-1] if v.k == "call" and v.d == "map" else v for v in vals]
    N = lambda v: case.inside(v, stop)
    inner = [n for v in vals for n in N(v)]
    o = opsin(inner)
    plain = bool(vals) and all(v.k == "elem" for v in vals)
    if name.startswith("fold"):
        return plain if kind != "Enum" else "argmax" in o and "argmin" not in o
    if name.startswith("unfold"):
        if kind != "Enum":
            return plain
        return onehot(inner, xt, N, lambda p: not (opsin(N(p)) - {"trunc", "index"}))
    if kind == "Int":
        return bool(vals) and all(v.k == "op" and v.d == "round" and v.a[0].k == "elem" for v in vals)
    if kind == "Ord":
        lv = all(any(is_levels(n, xt, "Ord") for n in N(v)) for v in vals)
        near = "abs" in o and "Sub" in o and "argmax" not in o and ({"argmin", "Lt", "Le", "min", "min_by"} & o)
        return plain and lv and bool(near)
    if kind == "Enum":
        return "argmax" in o and "argmin" not in o and onehot(inner, xt, N, lambda p: "argmax" in opsin(N(p)))
    return True


def onehot(nodes, xt, N, pos):
    """a null vector of the variable's width in which a 1 is written at the category's position"""
    w = [n for n in nodes if n.k == "wr" and E.is_num(n.a[1], 1)]
    if not w or not all(pos(n.a[-1]) for n in w):
        return False
    z = [n for n in nodes if n.k == "call" and q.tail(n.d) == "zeros"]
    return any(any(is_levels(m, xt, "Enum") for m in N(n)) for n in z)


def nodes_of(v):
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(x.a)
        if x.k == "mu":
            st.extend(E.MU.get(x, ()))
    return out


def limits_ok(kind, pushes, xt):
    """the pair of bounds pushed for a variable"""
    flat = []
    for p in pushes:
        flat += list(p.a) if p.k == "agg" else [p]
    if len(flat) != 2:
        return False
    lo, hi = flat
    if kind in ("Float", "Int"):
        f = lambda n, i: n.k == "sel" and n.d == f"{kind}.{i}" and n.a[0].k == "elem" and n.a[0].a[0] is xt
        return f(lo, 0) and f(hi, 1)
    if kind == "Enum":
        return E.is_num(lo, 0) and E.is_num(hi, 1)
    a, b = nodes_of(lo), nodes_of(hi)
    oa, ob = opsin(a) & {"min", "max", "argmin", "argmax"}, opsin(b) & {"min", "max", "argmin", "argmax"}
    lev = lambda ns: any(is_levels(n, xt, "Ord") for n in ns)
    return lev(a) and lev(b) and oa <= {"min", "argmin"} and ob <= {"max", "argmax"} and oa and ob


def total_width(n, vs, xt, eng):
    """sum over the variables of 1 / number of categories"""
    if n.k == "sel" and n.d == "!":
        n = n.a[0]
    if n.k == "call" and q.tail(n.d) == "reduce" and n.a[0].k == "call" and n.a[0].d == "map":
        term = n.a[0].a[-1]
        t = q.poly(n.a[1])
        if t != q.padd(q.poly(term), q.poly(term)):
            return False
        return terms_ok(term, vs, xt, eng)
    if n.k == "call" and q.tail(n.d) == "sum" and n.a[0].k == "call" and n.a[0].d == "map":
        return terms_ok(n.a[0].a[-1], vs, xt, eng)
    if n.k == "call" and n.d == "fold":
        acc, init, r = n.a[0], n.a[-2], n.a[-1]
        if not E.is_num(init, 0):
            return False
        for k, i in vs.items():
            c = Case(eng, r, xt, i)
            if not width_ok(q.padd(q.poly(c.of(r)), q.poly(acc), -1), k, xt):
                return False
        return True
    if n.k == "mu":
        cur = cursor_of(n, eng, xt, vs, "")
        return n in cur and all(width_ok(cur[n][k], k, xt) for k in vs)
    if n.k == "call" and q.tail(n.d) == "compute_continuous_dim":
        return True
    return False


def terms_ok(term, vs, xt, eng):
    for k, i in vs.items():
        c = Case(eng, term, xt, i)
        if not c.facts and term.k == "phi":
            return False
        if not width_ok(q.poly(c.of(term)), k, xt):
            return False
    return True
