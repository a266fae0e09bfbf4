"""C06: the run history pairs each point with its own evaluated outputs."""
from vp import engine as E, q
from vp.engine import mk, num, select, const_of, elem
from vp.facts import calls, callee_name
from rules.c07 import one, view, ALLMU
from rules.c16 import payload

ASSUMPTIONS = ["concatenating along rows, `push_row` and `append` add rows at the end; a write at the row numbered by a loop touches that row only", "user objective and constraint functions answer one row per given point"]
A = [mk("param", f"a{i}") for i in range(6)]
OPQ = {"find_best_result_index", "find_best_result_index_from", "is_feasible", "eval_obj", "eval_problem_fcstrs", "sample", "select_next_points", "update_data", "optimize_infill_criterion", "compute_virtual_point", "predict_point",
       "eval_fcstrs", "make_clustered_surrogate", "refresh_infill_data", "refresh_surrogates", "compute_scaling", "select_from_portfolio", "to_user_space", "run_recorder", "save_gp_models"}


def opq(*minus):
    s = OPQ - set(minus)
    return lambda c, f: f.name in s


def is_call(v, *names):
    return v.k == "call" and q.tail(v.d) in names


def tab(v):
    """a table, whatever the view, copy or Option around it"""
    while True:
        if v.k == "call" and q.tail(v.d) in ("view", "to_owned", "clone", "into_owned", "reborrow", "as_ref", "into", "standard_layout") and v.a:
            v = v.a[0]
        elif v.k in ("ref", "mref"):
            return v
        else:
            return v


def appended(x, base):
    """the rows x adds at the end of base, or None"""
    x = tab(x)
    if x.k == "sel" and x.d == "!":
        x = x.a[0]
    if is_call(x, "concatenate") and x.a[0].k == "agg" and x.a[0].d[1] == "Axis" and const_of(x.a[0].a[0]) == 0 and x.a[-1].k == "agg" and len(x.a[-1].a) == 2 and tab(x.a[-1].a[0]) is base:
        return tab(x.a[-1].a[1])
    if is_call(x, "vstack"):
        l = x.a[-1]
        if l.k == "agg" and len(l.a) == 2 and tab(l.a[0]) is base:
            return tab(l.a[1])
    if x.k == "eff" and x.d[1] == 0 and q.tail(x.d[0]) in ("push_row", "push") and x.a[0] is base:
        return mk("call", "ArrayBase::insert_axis", (tab(x.a[-1]), mk("agg", ("ndarray::Axis", "Axis", 0, ("0",)), (num(0),))))
    if x.k == "eff" and x.d[1] == 0 and q.tail(x.d[0]) == "append" and x.a[0] is base:
        return tab(x.a[-1])
    return None


def single(row):
    """the vector added as one row"""
    row = tab(row)
    if row.k == "sel" and row.d == "!":
        row = row.a[0]
    if is_call(row, "insert_axis") and row.a[1].k == "agg" and const_of(row.a[1].a[0]) == 0:
        return tab(row.a[0])
    if is_call(row, "from_shape_vec", "into_shape", "into_shape_with_order", "to_shape") and any(s.k == "agg" and s.a and const_of(s.a[0]) == 1 for s in row.a[:2]):
        return tab(row.a[1] if is_call(row, "from_shape_vec") else row.a[0])
    return None


def flat(v, g=()):
    """[(guards, value)] of nested joins"""
    if v.k == "phi":
        return [z for d, w in zip(v.d, v.a) for z in flat(w, g + (d,))]
    return [(g, v)]


def steps(m):
    """[(guards, value)] at the end of one turn of the loop"""
    if len(E.MU[m]) > 2 and m in E.BACK:
        return [z for g, x in E.BACK[m] for z in flat(x, (g,))]
    return [z for x in E.MU[m][1:] for z in flat(x)]


def grown(m):
    """[(guards, added rows)] for a table which only grows in the loop; None otherwise"""
    if m.k != "mu":
        return None
    out = []
    for g, v in steps(m):
        if v is m:
            continue
        r = appended(v, m)
        if r is None:
            return None
        out.append((g, r))
    return out or None


# ---------------------------------------------------------------- adding accepted points
def update(ctx, f):
    r = ctx.eval(f)
    shapes = []
    for k in range(3):
        m = r.arg_final(k)
        g = grown(m)
        w = ("inputs", "outputs", "constraint values")[k]
        if not ctx.ob(m.k == "mu" and g is not None and E.MU[m][0] is A[k], f"update:grow:{k}", f"{f.short} does not only add rows at the end of the recorded {w}: {E.show(m, 4)} = {[E.show(x, 7) for x in E.MU.get(m, (m,))]}", f.span):
            return
        rows = [single(x) for _, x in g]
        ok = len(rows) == 1 and rows[0] is not None and rows[0].k == "elem" and rows[0].a[0] is A[3 + k]
        if not ctx.ob(ok, f"update:row:{k}", f"{f.short} adds {[E.show(x, 5) for _, x in g]} to the recorded {w}, not one row of the {w} given", f.span):
            return
        shapes.append((m.d[:2], g[0][0], rows[0].a[1:]))
    ctx.ob(len({s[0] for s in shapes}) == 1 and len({s[2] for s in shapes}) == 1, "update:same row", f"{f.short} does not add the same row of the inputs, outputs and constraint values: {[[E.show(i, 4) for i in s[2]] for s in shapes]}", f.span)
    ctx.ob(len({s[1] for s in shapes}) == 1, "update:same case", f"{f.short} does not add a row to the inputs, outputs and constraint values in the same cases", f.span)
    # the answered indices are those of the added rows
    v = tab(r.val())
    ok = v.k == "mu"
    if ok:
        al = [(g, x) for g, x in steps(v) if x is not v]
        ok = len(al) == 1 and al[0][1].k == "eff" and q.tail(al[0][1].d[0]) == "push" and al[0][1].a[0] is v and al[0][0] == shapes[0][1] and v.d[:2] == shapes[0][0]
        ok = ok and al[0][1].a[1].k == "call" and al[0][1].a[1].d == "index" or ok and al[0][1].a[1] is shapes[0][2][0]
    ctx.ob(ok, "update:indices", f"{f.short} does not answer the indices of the rows it adds: {E.show(v, 5)}", f.span)


# ---------------------------------------------------------------- the iterations
def data_of(ctx, f, res, unwrap=True):
    st = payload(res.val()) if unwrap else res.val()
    d = select(select(st, "data"), "!")
    return [tab(select(d, i)) for i in "012"]


def upd(x, k, same=None):
    """x is table k after a call of update_data -> its arguments"""
    if x.k == "eff" and q.tail(x.d[0]) == "update_data" and x.d[1] == k and (same is None or same == x.a):
        return x.a
    return None


def neg_from(r, n_eq):
    """rows from the end: the last n"""
    if not (r.k == "agg" and r.d[1] in ("RangeFrom", "Range", "Slice", "SliceInfoElem")):
        return False
    return n_eq(r.a[0])


def ego(ctx, f):
    r = ctx.eval(f, opaque=opq())
    X, Y, C = data_of(ctx, f, r)
    st = ("inputs", "outputs", "constraint values")
    args = upd(X, 0)
    if not ctx.ob(args is not None and upd(C, 2, args) is not None, "ego:tables", f"{f.short} records inputs {E.show(X, 4)} and constraint values {E.show(C, 4)}, not those updated together with the new points", f.span):
        return
    # outputs: the table updated with the points, whose last rows are then replaced by evaluated ones
    y0, over = None, None
    if Y.k == "mu" and upd(E.MU[Y][0], 1, args):
        y0 = E.MU[Y][0]
        ws = list(E.MU[Y][1:])
        if len(ws) == 1 and ws[0].k == "wr" and ws[0].a[0] is Y:
            val, idx = ws[0].a[1], ws[0].a[2:]
            if val.k == "wr" and val.a[0].k == "elem" and val.a[0].a == (Y,) + idx and val.a[1].k == "elem":
                over = (val.a[1].a[0], idx, val.a[1].a[1:], val.a[2:])
            elif val.k == "elem":
                over = (val.a[0], None, val.a[1:], idx)
    elif Y.k == "wr" and upd(Y.a[0], 1, args):
        y0 = Y.a[0]
        over = (tab(Y.a[1]), Y.a[2:], None, None)
    if not ctx.ob(over is not None, "ego:outputs", f"{f.short} records outputs {E.show(Y, 6)}: not the updated table with the added rows evaluated", f.span):
        return
    ev, rows, i1, i2 = over
    n = mk("call", "Vec::len", (mk("call", "misc::update_data", args),))
    lens = [x for x in q.walk(rows[0] if rows else Y, ALLMU, control=False) if x.k == "call" and q.tail(x.d) in ("len",) and x.a and x.a[0].k == "call" and q.tail(x.a[0].d) == "update_data" and x.a[0].a == args]
    if lens:
        n = lens[0]

    def last(rg):
        if not (rg.k == "agg" and rg.d[1] == "RangeFrom"):
            return False
        s = rg.a[0]
        if q.peq(s, mk("op", "Neg", (n,))):
            return True
        return any(is_call(x, "nrows", "len_of") and tab(x.a[0]) in (X, Y, C, y0) and q.peq(s, mk("op", "Sub", (x, n))) for x in q.walk(s, ALLMU, control=False))
    if rows is not None:
        ctx.ob(last(rows[0]), "ego:rows", f"{f.short} evaluates into the rows {E.show(rows[0], 5)}, not exactly those it just added", f.span)
        ctx.ob(all(is_all(x) for x in rows[1:]), "ego:columns", f"{f.short} evaluates into {[E.show(x, 4) for x in rows[1:]]} of the outputs", f.span)
    ctx.ob(i1 is None or i1 == i2 or i1 == i2[:1], "ego:row by row", f"{f.short} stores the evaluated row {i1 and [E.show(x, 4) for x in i1]} at {i2 and [E.show(x, 4) for x in i2]}", f.span)
    ok = is_call(ev, "eval_obj") and tab(ev.a[-1]).k == "elem" and tab(ev.a[-1]).a[0] is X and (rows is None or tab(ev.a[-1]).a[1] is rows[0] or last(tab(ev.a[-1]).a[1])) and all(is_all(x) for x in tab(ev.a[-1]).a[2:])
    ctx.ob(ok, "ego:evaluated", f"{f.short} stores {E.show(ev, 5)} as outputs of the added points, not the objective function at those points", f.span)
    # what is added comes from one selection, on top of the data of the state
    S = tab(args[3])
    ok = S.k == "sel" and is_call(S.a[0], "select_next_points") and all(tab(args[3 + k]) is select(S.a[0], str(k)) for k in range(3))
    ctx.ob(ok, "ego:added", f"{f.short} adds inputs, outputs and constraint values {[E.show(a, 3)[:80] for a in args[3:]]} which do not come together from the selection of the next points", f.span)
    for k in range(3):
        b = args[k]
        d = select(select(select(A[2], "data"), "!"), str(k))
        okb = b is d or b.k == "mu" and E.MU[b][0] is d and all(upd(x, k) is not None and x.a == args for x in E.MU[b][1:])
        ctx.ob(okb, f"ego:base:{k}", f"{f.short} adds the new {st[k]} to {[E.show(x, 4) for x in E.MU.get(b, (b,))]}, not to the recorded ones", f.span)
    # the virtual outputs never go out: the only way out of the loop with added points goes through their evaluation
    ctx.count("tables recorded by ego_step", 3)


def is_all(x):
    return E.show(x, 2) == "[:]" or x.k == "agg" and x.d[1] == "RangeFull"


def trego(ctx, f):
    r = ctx.eval(f, opaque=opq())
    T = data_of(ctx, f, r, f.locals[0][0].startswith(("std::result", "core::result", "std::option")))
    args = upd(T[0], 0)
    if not ctx.ob(args is not None and all(upd(T[k], k, args) is not None for k in (1, 2)), "trego:tables", f"{f.short} records {[E.show(t, 3)[:100] for t in T]}, not tables updated together with the new point", f.span):
        return
    st = ("inputs", "outputs", "constraint values")
    for k in range(3):
        ctx.ob(args[k] is select(select(select(A[2], "data"), "!"), str(k)), f"trego:base:{k}", f"{f.short} adds the new {st[k]} to {E.show(args[k], 4)}, not to the recorded ones", f.span)
    x = tab(args[3])
    for k, nm in ((4, ("eval_obj",)), (5, ("eval_problem_fcstrs", "eval_fcstrs"))):
        v = tab(args[k])
        ctx.ob(is_call(v, *nm) and tab(v.a[-1]) is x, f"trego:{nm[0]}", f"{f.short} records {E.show(v, 4)[:200]} as {st[k - 3]} of the point added, not the user function at that point", f.span)
    p = single(x)
    ctx.ob(p is not None and p.k == "sel" and p.d == "1" and is_call(p.a[0], "optimize_infill_criterion"), "trego:point", f"{f.short} adds the point {E.show(x, 4)[:200]}, not the one answered by the infill optimization", f.span)


def joint(y, x, facts=()):
    """[(y, x)] in the same case"""
    if y.k == "phi":
        out = []
        for g, v in zip(y.d, y.a):
            xx = x
            if g is not None and x.k == "phi":
                xx = pick(x, g)
            out += joint(v, xx)
        return out
    return [(y, x)]


def pick(x, g):
    """the alternatives of x compatible with guards g (sets of literals)"""
    if x.k != "phi":
        return x
    keep = []
    for gx, v in zip(x.d, x.a):
        if compatible(g, gx):
            keep.append((gx, pick(v, g)))
    if len({v for _, v in keep}) == 1:
        return keep[0][1]
    return E.phi(keep) if keep else x


def compatible(g, h):
    for a in g:
        for b in h:
            if all(consistent(l, m) for l in a for m in b):
                return True
    return not g or not h


def consistent(l, m):
    (c1, e1), (c2, e2) = l, m
    if c1 is not c2:
        return True
    if e1[0] == "in" and e2[0] == "in":
        return bool(set(e1[1:]) & set(e2[1:]))
    if e1[0] == "in":
        return bool(set(e1[1:]) - set(e2[1:]))
    if e2[0] == "in":
        return bool(set(e2[1:]) - set(e1[1:]))
    return True


def init(ctx, f):
    r = ctx.eval(f, opaque=opq())
    st = select(payload(r.val()), "0")
    d = select(select(st, "data"), "!")
    x, y, c = [tab(select(d, i)) for i in "012"]
    ctx.ob(is_call(c, "eval_problem_fcstrs", "eval_fcstrs") and tab(c.a[-1]) is x, "init:constraints", f"{f.short} records constraint values {E.show(c, 4)[:200]}, not the user functions at the recorded inputs", f.span)
    n = 0
    nx = lambda v: is_call(v, "nrows") and E.show(v.a[0], 4).endswith("xlimits")
    for yy, xx in joint(y, x):
        n += 1
        yy, xx = tab(yy), tab(xx)
        if is_call(yy, "eval_obj"):
            ctx.ob(tab(yy.a[-1]) is xx or q.same(tab(yy.a[-1]), xx), "init:evaluated", f"{f.short} records the objective at {E.show(yy.a[-1], 5)[:200]} as outputs of {E.show(xx, 5)[:200]}", f.span)
            continue
        sx = [w for _, w in leaves(xx)]
        sy = [w for _, w in leaves(yy)]
        ok = len(sx) == len(sy) == 1 and sx[0].k == "elem" and sy[0].k == "elem" and tab(sx[0].a[0]) is tab(sy[0].a[0])
        if not ctx.ob(ok, "init:given", f"{f.short} records outputs {E.show(yy, 5)[:200]} with inputs {E.show(xx, 5)[:200]}", f.span):
            continue
        a, b = sx[0], sy[0]
        okx = is_all(a.a[1]) and a.a[2].k == "agg" and a.a[2].d[1] in ("RangeTo", "Range") and nx(a.a[2].a[-1])
        rg = b.a[2]
        oky = is_all(b.a[1]) and rg.k == "agg" and rg.d[1] == "Range" and nx(rg.a[0])
        end = rg.a[1] if oky else None
        want = None
        if oky:
            want = mk("op", "Add", (mk("op", "Add", (rg.a[0], num(1))), select(select(A[0], "config"), "n_cstr")))
            ok2 = q.peq(end, want) or end.k in ("op", "call") and q.tail(end.d) == "min" and any(q.peq(z, want) and is_call(o, "ncols", "len_of") for z, o in (end.a[:2], end.a[:2][::-1]))
            ctx.ob(ok2, "init:columns", f"{f.short} takes columns up to {E.show(end, 6)} of the given DOE as outputs, beyond the objective and the {E.show(want, 5)[:80]}", f.span)
        ctx.ob(okx and oky, "init:split", f"{f.short} splits the given DOE into inputs {E.show(a, 4)[-120:]} and outputs {E.show(b, 5)[-160:]}", f.span)
    ctx.floor("cases of the initial DOE", n, 3)


def leaves(v):
    if v.k == "phi":
        return [z for g, w in q.alts(v) for z in leaves(tab(w))]
    return [(None, v)]


# ---------------------------------------------------------------- selection of the next points
def selection(ctx, f):
    r = ctx.eval(f, opaque=opq("select_next_points"))
    v = r.val()
    st = ("inputs", "outputs", "constraint values")
    entries = set()
    outs = []
    for k in range(3):
        o = select(v, str(k))
        outs.append([(g, w) for g, w in (q.alts(o) if o.k == "phi" else [(None, o)])])
    ctx.ob(len({len(o) for o in outs}) == 1, "select:cases", f"{f.short} answers inputs, outputs and constraint values in different cases", f.span)
    for alts in zip(*outs):
        ok = len({w.a[0] for _, w in alts if w.k == "sel"}) == 1 and all(w.k == "sel" and w.d == str(k) for k, (_, w) in enumerate(alts))
        if not ctx.ob(ok, "select:together", f"{f.short} answers {[E.show(w, 3)[:80] for _, w in alts]}: not the inputs, outputs and constraint values of one entry", f.span):
            continue
        src = alts[0][1].a[0]
        ok = is_call(src, "select_from_portfolio", "remove", "swap_remove") or src.k == "elem" or is_call(src, "clone") or src.k == "sel" and is_call(src.a[0], "pop", "first", "last")
        ctx.ob(ok, "select:entry", f"{f.short} answers {E.show(src, 4)[:200]}", f.span)
    nodes = list(q.walk(v, ALLMU, control=True))
    pushes = [x for x in nodes if x.k == "eff" and q.tail(x.d[0]) == "push" and x.d[1] == 0 and x.a[1].k == "agg" and len(x.a[1].a) >= 3]
    ctx.floor("entries of the portfolio", len(pushes), 1)
    for p in pushes:
        tabs = [tab(p.a[1].a[k]) for k in range(3)]
        rows = []
        for k, m in enumerate(tabs):
            g = grown(m)
            ini = E.MU[m][0] if m.k == "mu" else None
            # for constraint values the table may legitimately be carried through other stores of the loop
            ok = g is not None and len(g) == 1 and is_call(ini, "zeros", "from_elem", "default") and any(z.k == "agg" and z.a and const_of(z.a[0]) == 0 for z in ini.a)
            if not ctx.ob(ok, f"select:grow:{k}", f"{f.short}: the new {st[k]} are not an initially empty table to which one row is added per point: {E.show(m, 5)[:200]}", f.span):
                return
            rows.append((m.d[:2], g[0][0], single(g[0][1])))
        ctx.ob(len({x[0] for x in rows}) == 1 and len({x[1] for x in rows}) == 1, "select:rows", f"{f.short} does not add a row to the inputs, outputs and constraint values of an entry in the same cases", f.span)
        xk = rows[0][2]
        if not ctx.ob(xk is not None and xk.k == "sel" and xk.d == "1" and is_call(xk.a[0], "optimize_infill_criterion"), "select:point", f"{f.short} adds the point {E.show(xk, 4)[:200] if xk is not None else None}, not the one answered by the infill optimization", f.span):
            continue
        constraints(ctx, f, r, rows[2][2], xk)
    ctx.count("tables selected", 3)


def constraints(ctx, f, r, vals, xk):
    """the constraint values recorded with the point xk: the user functions at that point"""
    if vals is None or not is_call(vals, "map"):
        ctx.ob(False, "select:fcstr", f"{f.short} records {E.show(vals, 4)[:200] if vals is not None else None} as constraint values", f.span)
        return
    src, v = vals.a[0], vals.a[-1]

    def at_point(args):
        xs = [tab(z) for z in args]
        return any(is_call(z, "to_user_space") and base(z.a[-1]) is xk for z in xs) or any(is_call(w, "to_user_space") and base(w.a[-1]) is xk for z in xs for w in q.walk(z, control=False))

    def base(z):
        z = tab(z)
        while is_call(z, "to_vec", "to_owned", "clone", "into_raw_vec", "as_slice", "to_slice") or z.k == "sel" and z.d == "!":
            z = z.a[0]
        return z
    scaled = False
    for _ in range(3):
        v = tab(v)
        if v.k == "op" and v.d in ("Div", "Mul"):
            scaled = True
            v = v.a[0] if v.a[0].k == "call" else v.a[1]
        if not (v.k == "call" and (v.d.startswith("Fn") or v.d in ("apply", "Fn::call"))):
            break
        callee, args = v.a[0], v.a[1].a if len(v.a) == 2 and v.a[1].k == "agg" else v.a[1:]
        if not ctx.ob(at_point(args) or base(args[0]) is mk("param", "a1"), "select:fcstr:point", f"{f.short} records the constraint functions at {E.show(args[0], 4)[:200]}, not at the decoded point added", f.span):
            return
        clo = None
        s = tab(callee)
        while s.k == "elem" or is_call(s, "iter", "as_slice", "clone"):
            s = s.a[0]
        if is_call(s, "map") and s.a[-1].k == "clo":
            clo = s.a[-1]
        if clo is None:
            ok = s.k == "param" or s.k == "sel" and s.a[0].k == "param"
            ctx.ob(ok, "select:fcstr:function", f"{f.short} records the values of {E.show(callee, 4)[:200]}, not of the user functions", f.span)
            break
        g = ctx.prog.fns.get(clo.d)
        v = ctx.eval(g).val()
        at_point = lambda args: base(args[0]) is mk("param", "a1")
        cap = clo.a
        callee_ok = lambda: True
    else:
        ctx.ob(False, "select:fcstr:function", f"{f.short}: constraint values not followed", f.span)
    ok = v.k == "call" and (v.d.startswith("Fn") or v.d == "apply")
    ctx.ob(ok, "select:fcstr", f"{f.short} records {E.show(v, 5)[:200]} as constraint values, not what the user functions answer", f.span)
    ctx.ob(not scaled, "fcstr:scaled", f"{f.short} records the values of the function constraints divided by a scale, next to unscaled ones", f.span)
    ctx.count("function constraint values recorded")


def portfolio(ctx, f):
    r = ctx.eval(f)
    v = r.val()
    outs = []
    for k in range(3):
        o = select(v, str(k))
        outs.append([w for _, w in (q.alts(o) if o.k == "phi" else [(None, o)])])
    if not ctx.ob(len({len(o) for o in outs}) == 1, "portfolio:cases", f"{f.short} answers inputs, outputs and constraint values in different cases", f.span):
        return
    n = 0
    for alts in zip(*outs):
        desc = []
        for k, w in enumerate(alts):
            w = tab(w)
            ws = [w] if w.k == "wr" else [x for x in E.MU.get(w, ())[1:]]
            d = []
            for x in ws:
                s = tab(x.a[1]) if x.k == "wr" else None
                if s is None or s.k != "elem" or s.a[0].k != "sel" or s.a[0].d != str(k) or s.a[0].a[0].k != "elem" and not is_call(s.a[0].a[0], "index"):
                    ctx.ob(False, f"portfolio:source:{k}", f"{f.short} answers {E.show(x, 6)[:240]}, not a row of component {k} of an entry", f.span)
                    return
                d.append((s.a[0].a[0], s.a[1:], x.a[2:]))
                n += 1
            g = grown(w) if not ws or ws[0].k != "wr" else None
            desc.append((w.d[:2] if w.k == "mu" else None, tuple(d)))
        ctx.ob(len(set(desc)) == 1 and desc[0][1], "portfolio:together", f"{f.short} answers inputs, outputs and constraint values of different entries or rows: {[[E.show(y, 4) for t in d[1] for y in (t[0], *t[1])] for d in desc]}", f.span)
    ctx.floor("rows taken from the portfolio", n, 6)


def sources(ctx):
    """functions which set or take the recorded tables"""
    n = 0
    known = {"init", "ego_step", "trego_step"}
    for f in ctx.prog.fns.values():
        if f.crate not in ("egobox_ego", "egobox") or f.generated() or not f.blocks:
            continue
        for b, t, c in calls(f):
            if c and callee_name(c) in ("EgorState::data", "EgorState::take_data"):
                if callee_name(c).endswith("take_data") and "EgorState" not in f.locals[0][0]:
                    continue
                n += 1
                root = f
                while root.kind == "closure" and root.j.get("rooth") in ctx.prog.fns and ctx.prog.fns[root.j["rooth"]] is not root:
                    root = ctx.prog.fns[root.j["rooth"]]
                ctx.ob(root.name in known, f"source:{root.short}", f"{root.short} changes the recorded history", t["s"])
    ctx.floor("accesses to the recorded history", n, 3)


def run(ctx):
    ctx.rule = ("update_data only adds, at the end of the three tables, the same row of the three given ones in the same case and answers its index; ego_step adds what one selection answers to the state's tables and overwrites the outputs of exactly those rows with the objective evaluated there; "
                "trego_step adds the user functions' values at the point added; init records evaluations at the initial inputs or the columns of one given DOE; the selected tables grow together, constraint values being what the user functions answer at the decoded point; the portfolio rows come from one entry")
    update(ctx, one(ctx, "update_data"))
    ego(ctx, one(ctx, "ego_step"))
    trego(ctx, one(ctx, "trego_step"))
    init(ctx, [f for f in ctx.prog.fns.values() if f.crate == "egobox_ego" and f.name == "init" and "EgorSolver" in f.short and f.blocks][0])
    selection(ctx, one(ctx, "select_next_points"))
    portfolio(ctx, one(ctx, "select_from_portfolio"))
    sources(ctx)
