"""C07: feasibility, comparison of evaluations and choice of the best one."""
from vp import engine as E, q
from vp.engine import mk, num, select, const_of
from vp.facts import calls
from rules.c16 import payload

ASSUMPTIONS = ["no comparison involves NaN", "`min_by` answers its first argument when the comparison answers `Less` or `Equal`", "the tables given together have the same number of rows (C06)"]
A = [mk("param", f"a{i}") for i in range(6)]
INF = float("inf")
LESS, EQUAL, GREATER = -1, 0, 1


class ALLMU:
    mu_ops = E.MU


def funcs(ctx, name, crate="egobox_ego"):
    return [f for f in ctx.prog.fns.values() if f.crate == crate and f.name == name and f.blocks and not f.generated()]


def one(ctx, name):
    r = funcs(ctx, name)
    if len(r) != 1:
        raise LookupError(f"{name} matches {len(r)} functions")
    return r[0]


def view(v):
    while v.k == "call" and q.tail(v.d) in ("view", "to_owned", "clone", "into_owned", "iter", "into_iter", "collect", "to_vec") and v.a:
        v = v.a[0]
    return v


# --------------------------------------------------------------- the violation of the constraints
def violation(v):
    """(values, tolerances) when v adds up, over the constraint values exceeding their tolerances, a measure of the excess; else None"""
    if v.k == "mu" and len(E.MU.get(v, ())) == 2 and const_of(E.MU[v][0]) == 0:
        mu, init, body = v, E.MU[v][0], E.MU[v][1]
        if v in E.BACK:
            body = E.phi(list(E.BACK[v]))
        src = mk("call", "loop", ())
        t = "fold"
    elif v.k != "call":
        return None
    elif (t := q.tail(v.d)) == "fold" and len(v.a) == 4:
        mu, src, init, body = v.a
    elif t == "sum" and v.a:
        mu, init = None, num(0)
        src, body = v.a[0], E.elem(v.a[0], E.STAR if hasattr(E, "STAR") else mk("param", "[*]"))
        if v.a[0].k == "call" and q.tail(v.a[0].d) == "map":
            src, body = v.a[0].a[0], v.a[0].a[-1]
    else:
        return None
    if const_of(init) != 0:
        return None
    pair = None
    if src.k == "call" and q.tail(src.d) == "map" and len(src.a) >= 2:
        body = q.subst(body, {x: src.a[-1] for x in q.walk(body, control=True) if x.k == "elem" and x.a[0] is src})
        src = src.a[0]
    if src.k == "call" and q.tail(src.d) == "filter":
        for x in q.walk(src.a[1], control=True):
            if x.k == "op" and x.d in ("Lt", "Le"):
                pair = (x.a[1], x.a[0])
        if pair is None or not table(src.a[1], pair):
            return None
        guarded = True
    else:
        for x in q.walk(body, control=True):
            if x.k == "op" and x.d in ("Lt", "Le") and pair is None:
                pair = (x.a[1], x.a[0])
        if pair is not None and paired(*pair) is None:
            pair = (pair[1], pair[0])
        guarded = False
    if pair is None:
        for x in q.walk(body, control=False):
            if x.k == "op" and x.d == "max":
                d = [y for y in x.a if const_of(y) is None]
                if len(d) == 1 and const_of([y for y in x.a if y is not d[0]][0]) == 0 and d[0].k == "op" and d[0].d == "Sub":
                    pair = d[0].a
                    body = q.subst(body, {x: d[0]})
                    guarded = True
        if pair is None:
            return None
    r = paired(*pair)
    if r is None:
        return None
    c, tol = pair

    def add(b):
        if mu is None:
            return b
        p = q.poly(b)
        m = q.poly(mu)
        d = {k: p.get(k, 0) - m.get(k, 0) for k in {*p, *m}}
        return {k: w for k, w in d.items() if w}
    want = {k: w for k, w in q.poly(mk("op", "Sub", (c, tol))).items() if w}

    def excess(b):
        d = add(b)
        if mu is None:
            d = {k: w for k, w in q.poly(b).items() if w}
        if d == want:
            return True
        if len(d) == 1:
            (k, w), = d.items()
            if w > 0 and len(k) == 1:
                x = k[0]
                x = x[0] if isinstance(x, tuple) else x
                if isinstance(x, E.Node) and (x.k == "op" and x.d == "abs" or x.k == "call" and q.tail(x.d) == "abs"):
                    y = {a: b2 for a, b2 in q.poly(x.a[0]).items() if b2}
                    return y == want or y == {a: -b2 for a, b2 in want.items()}
        return False
    if guarded:
        return r if excess(body) else None
    over = restrict(body, pair, GREATER)
    if not excess(over):
        return None
    for o in (LESS, EQUAL):
        b = restrict(body, pair, o)
        if o == EQUAL and excess(b):
            continue
        if (b is not mu) if mu is not None else const_of(b) != 0:
            return None
    return r


def table(pred, pair):
    """the predicate keeps a value above its tolerance, not one below (on the tolerance: the excess is null)"""
    return truth(restrict(pred, pair, GREATER)) is True and truth(restrict(pred, pair, LESS)) is False


def restrict(v, pair, o):
    c, t = pair
    return q.assume(v, {c: num({LESS: 1, EQUAL: 2, GREATER: 3}[o]), t: num(2)}) if False else q.assume(v, {x: mk("const", (cmp_op(x.d, x.a[0] is c, o), "bool")) for x in q.walk(v, control=True) if x.k == "op" and x.d in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and set(x.a) == {c, t}})


def cmp_op(op, straight, o):
    if not straight:
        o = -o
    return {"Lt": o < 0, "Le": o <= 0, "Gt": o > 0, "Ge": o >= 0, "Eq": o == 0, "Ne": o != 0}[op]


def truth(v):
    c = const_of(v)
    return None if c is None else bool(c)


def paired(c, t):
    """c and t are the values and tolerances of the same constraint -> (all values, all tolerances)"""
    # zip(values, tolerances)
    if c.k == "sel" and t.k == "sel" and c.a[0] is t.a[0] and c.a[0].k == "elem" and c.a[0].a[0].k == "call" and q.tail(c.a[0].a[0].d) == "zip":
        z = c.a[0].a[0]
        src = {"0": z.a[0], "1": z.a[1]}
        if {c.d, t.d} == {"0", "1"}:
            return view(src[c.d]), view(src[t.d])
    # enumerate(values), tolerances[index]
    if c.k == "elem" and t.k == "elem" and len(c.a) == 2 and len(t.a) == 2:
        i, j = c.a[1], t.a[1]
        star = lambda x: x.k == "param" and x.d == "[*]"
        index = lambda x: x.k == "call" and x.d == "index"
        if (star(i) or index(i)) and (index(j) or star(j)) and not (star(i) and star(j) and False):
            return view(c.a[0]), view(t.a[0])
        if i is j:
            return view(c.a[0]), view(t.a[0])
        # values[1 + i], tolerances[i]: i over the tolerances
        d = {k: w for k, w in q.poly(mk("op", "Sub", (i, j))).items() if w}
        if d == {(): 1} and q.is_range(j if j.k != "elem" else j.a[0]):
            return mk("elem", None, (c.a[0], mk("agg", ("std::ops::RangeFrom", "RangeFrom", 0, ("start",)), (num(1),)))), view(t.a[0])
    return None


def constraints_of(y):
    """y is a row (or rows) without its first column -> the whole row(s)"""
    y = view(y)
    if y.k == "elem" and len(y.a) >= 2 and not is_rows(y):
        last = y.a[-1]
        if last.k == "agg" and last.d[1] == "RangeFrom" and const_of(last.a[0]) == 1 and all(x.k == "param" and x.d == "[:]" for x in y.a[1:-1]):
            return view(y.a[0])
    if y.k == "elem" and is_rows(y):
        r = constraints_of(y.a[0])
        return None if r is None else E.elem(r, *y.a[1:])
    return None


def is_rows(y):
    return y.k == "elem" and len(y.a) == 2 and (y.a[1].k == "param" and y.a[1].d == "[*]" or y.a[1].k == "call")


# --------------------------------------------------------------- comparisons
def order(v):
    """-1/0/1 of an Ordering value decided by its constants"""
    while v.k == "sel" and v.d == "!":
        v = v.a[0]
    if v.k == "agg" and v.d[1] == "Some":
        v = v.a[0]
    if v.k == "agg" and "Ordering" in str(v.d[0]):
        return {"Less": LESS, "Equal": EQUAL, "Greater": GREATER}[v.d[1]]
    c = const_of(v)
    return None if c is None else {255: LESS, -1: LESS, 0: EQUAL, 1: GREATER}.get(int(c))


TINY = 1e-300
CASES = [(s1, s2, y1, y2) for s1, s2 in ((0, 0), (0, 1), (1, 0), (0, TINY), (TINY, 0), (1, TINY), (1, 2), (2, 1), (1, 1)) for y1, y2 in ((1, 2), (2, 1), (1, 1))]


def expected(s1, s2, y1, y2):
    a, b = ((s1, y1) if s1 == 0 else (s1,)), ((s2, y2) if s2 == 0 else (s2,))
    return LESS if a < b else GREATER if a > b else EQUAL


def lens(v):
    return [x for x in q.walk(v, control=True) if x.k == "call" and q.tail(x.d) in ("len", "ncols", "len_of") or x.k == "op" and x.d == "len"]


def judge(v, isleft, isright):
    """order table of a comparison of two evaluations; isleft/isright tell whether a row is that of the left/right one -> problem or None"""
    tol = set()
    env = {}
    nodes = list(q.walk(v, control=True))
    viol, obj = {}, {}
    for x in nodes:
        r = violation(x)
        if r:
            row = constraints_of(r[0])
            if row is None:
                return f"the violation is measured on {E.show(r[0], 6)}, not on the constraint values"
            side = "l" if isleft(row) else "r" if isright(row) else None
            if side is None:
                return f"the violation is that of {E.show(row, 6)}"
            viol[x] = side
            tol.add(r[1])
        elif x.k == "elem" and len(x.a) == 2 and const_of(x.a[1]) == 0 and (isleft(view(x.a[0])) or isright(view(x.a[0]))):
            obj[x] = "l" if isleft(view(x.a[0])) else "r"
    if not viol or set(viol.values()) != {"l", "r"}:
        return f"no violation of the constraints is recognised on both sides: {E.show(v, 8)}"
    if set(obj.values()) != {"l", "r"}:
        return "the objectives of the two sides are not compared"
    ls = lens(v)
    for s1, s2, y1, y2 in CASES:
        for n in ((1, 3) if s1 == 0 and s2 == 0 else (3,)):
            env = {x: num(n) for x in ls}
            env.update({x: num(s1 if s == "l" else s2) for x, s in viol.items()})
            env.update({x: num(y1 if s == "l" else y2) for x, s in obj.items()})
            got = order(q.assume(v, env))
            want = expected(s1, s2, y1, y2)
            if got != want:
                return f"with violations {s1} and {s2}, objectives {y1} and {y2}{' and no constraint' if n == 1 else ''} it answers {got}, not {want} (-1 first better, 1 second better)"
    return tol


def feasibility(ctx, f):
    v = ctx.eval(f).val()
    env, n = {}, 0
    y, c, tol = A[0], A[1], A[2]
    rows = set()
    for x in q.walk(v, control=True):
        r = violation(x)
        if r:
            rows.add(r)
            n += 1
    sums = [x for x in q.walk(v, control=True) if violation(x)]
    preds = [x for x in q.walk(v, control=True) if x.k == "call" and q.tail(x.d) in ("all", "any") and len(x.a) >= 2]
    ls = lens(v)
    ok = True
    why = E.show(v, 8)
    for x in preds:
        p = x.a[-1]
        pr = None
        for y2 in q.walk(p, control=True):
            if y2.k == "op" and y2.d in ("Lt", "Le") and len(y2.a) == 2:
                pr = y2.a if paired(y2.a[0], y2.a[1]) else None
                cands = [(a, b) for a, b in (y2.a, y2.a[::-1]) if paired(a, b)]
                # the tolerance side is the one of the third argument
                pr = next(((a, b) for a, b in cands if paired(a, b)[1] is tol), None)
        if pr is None:
            continue
        want = {LESS: True, EQUAL: True, GREATER: False}
        for o, w in want.items():
            g = truth(restrict(p, pr, o))
            ok = ok and g is (w if q.tail(x.d) == "all" else not w)
        src = x.a[0]
        if src.k == "call" and q.tail(src.d) == "zip" and len(src.a) == 2:
            src = view(src.a[0])
        if src.k == "call" and q.tail(src.d) == "part" and src.a[1:] and "skip" in E.show(src, 9) and const_of(src.a[-1]) == 1 and view(src.a[0]) is paired(*pr)[0]:
            rows.add((E.elem(view(src.a[0]), mk("agg", ("std::ops::RangeFrom", "RangeFrom", 0, ("start",)), (num(1),))), paired(*pr)[1]))
        else:
            rows.add(paired(*pr))
    for bad in (0, TINY, 1):
        for ln in ((1, 3) if not bad else (3,)):
            env = {x: num(bad) for x in sums}
            env.update({x: mk("const", ((not bad) if q.tail(x.d) == "all" else bool(bad), "bool")) for x in preds})
            env.update({x: num(ln) for x in ls})
            ok = ok and truth(q.assume(v, env)) is (not bad)
    ctx.ob(ok and bool(sums or preds), "feasible:table", f"{f.short} does not answer whether every constraint value is at most its tolerance: {why}", f.span)
    whole = lambda r: r is not None and r.k == "sel" and r.a[0].k == "call" and q.tail(r.a[0].d) == "concatenate" and r.a[0].a[-1].k == "agg" and tuple(map(view, r.a[0].a[-1].a)) == (y, c)
    for vals, t in rows:
        row = constraints_of(vals)
        chain = vals.k == "call" and q.tail(vals.d) == "chain" and constraints_of(vals.a[0]) is y and view(vals.a[1]) is c
        ctx.ob(t is tol and (whole(row) or chain), "feasible:rows", f"{f.short} tests {E.show(vals, 6)} against {E.show(t, 4)} instead of all constraint values of the point against the given tolerances", f.span)
    ctx.floor("feasibility measures", len(rows), 1)


# --------------------------------------------------------------- best of new rows
def best_from(ctx, f):
    v = ctx.eval(f).val()
    cur, off, tol = A[0], A[1], A[4]
    nodes = list(q.walk(v, ALLMU, control=True))
    loops = [x for x in nodes if x.k == "mu" and any(violation(y) for o in E.MU.get(x, ()) for y in q.walk(o, control=True))]
    loops = [m for m in loops if not violation(m) and not any(violation(x) and x.a and x.a[0] is m for x in nodes)]
    if not ctx.ob(bool(loops), "from:loop", f"{f.short} does not go through the new evaluations: {E.show(v, 8)[:200]}", f.span):
        return
    table_ = lambda r: r.k == "sel" and r.a[0].k == "call" and q.tail(r.a[0].d) == "concatenate" and r.a[0].a[-1].k == "agg" and tuple(map(view, r.a[0].a[-1].a)) == (A[2], A[3])
    carried = {m for m in loops}
    hasmu = lambda r: any(x.k == "mu" for x in q.walk(r, control=False))
    for m in loops:
        init, nexts = E.MU[m][0], E.MU[m][1:]
        init_idx, init_row = (init.a if init.k == "agg" and len(init.a) == 2 else (init, None))
        back = E.BACK.get(m)
        step = nexts[0] if not back else E.phi([(g, x) for g, x in back])
        # the two compared rows
        isacc = lambda r: hasmu(r)
        isnew = lambda r: not hasmu(r)
        if step.k == "call" and q.tail(step.d) == "min_by":
            t = judge(step.a[-1], isacc, isnew)
            bad = t if isinstance(t, str) else None
            first, second = step.a[0], step.a[1]
            if first is not m:
                bad = bad or "the current best is not the one kept on ties"
            item = second
            it_idx, it_row = item.a if item.k == "agg" and len(item.a) == 2 else (item, None)
        else:
            bad, it_idx, it_row = step_table(step, m, isacc, isnew)
            t = bad
        ctx.ob(not bad, "from:step", f"{f.short}: {bad}", f.span)
        # the rows compared belong to the indices carried
        new_rows = [x for x in q.walk(step, control=True) if x.k == "elem" and not hasmu(x) and x.a and table_(x.a[0])]
        if init_row is not None and it_row is not None:
            okr = row_at(init_row, table_, cur)
            ctx.ob(okr, "from:current", f"{f.short} starts from {E.show(init_row, 6)}, not from the row of the current best", f.span)
            slc = view(it_row)
            okn = slc.k == "elem" and slc.a[0].k == "elem" and table_(slc.a[0].a[0]) and is_from(slc.a[0], off)
            ctx.ob(okn, "from:new", f"{f.short} compares {E.show(it_row, 6)} instead of the rows from the given one on", f.span)
            sent = const_of(init_idx)
            ctx.ob(it_idx.k == "call" and it_idx.d == "index", "from:index", f"{f.short} numbers the new rows by {E.show(it_idx, 5)}", f.span)
            folds = {x for x in nodes if x.k == "call" and q.tail(x.d) == "fold" and x.a[0] is m} | {m}
            a1 = q.assume(v, {select(x, "0"): mk("const", (sent, "num")) for x in folds})
            a2 = q.assume(v, {select(x, "0"): num(7) for x in folds})
            p = q.poly(a2)
            ctx.ob(sent is not None and sent > 2 ** 31 and a1 is cur and q.peq(a2, mk("op", "Add", (off, num(7)))), "from:result", f"{f.short} answers {E.show(a1, 4)} when no new row is better, and {E.show(a2, 5)} when the one numbered 7 is", f.span)
        else:
            ctx.ob(init_idx is cur, "from:current", f"{f.short} starts from {E.show(init_idx, 5)}, not from the current best", f.span)
            rg = it_idx.a[0] if it_idx is not None and it_idx.k == "elem" else it_idx
            okn = rg is not None and q.is_range(rg) and rg.a[0] is off
            shifted = it_idx is not None and q.peq(it_idx, mk("op", "Add", (off, mk("call", "index", ()))))
            ctx.ob(okn or shifted, "from:new", f"{f.short} goes through {E.show(it_idx, 5) if it_idx is not None else '?'} instead of the rows from the given one on", f.span)
            ctx.ob(v is m or v.k == "phi" or m in set(q.walk(v, control=False)), "from:result", f"{f.short} answers {E.show(v, 5)}", f.span)
        if isinstance(t, set):
            ctx.ob(t == {tol}, "from:tol", f"{f.short} compares with tolerances {[E.show(x, 4) for x in t]}", f.span)


def step_table(step, m, isacc, isnew):
    """the step of a loop which keeps an index: replaced exactly when the new row is better"""
    tol = set()
    nodes = list(q.walk(step, control=True))
    viol, obj = {}, {}
    for x in nodes:
        r = violation(x)
        if r:
            row = constraints_of(r[0])
            if row is None:
                return f"the violation is measured on {E.show(r[0], 6)}", None, None
            viol[x] = "l" if isacc(row) else "r"
        elif x.k == "elem" and len(x.a) >= 2 and const_of(x.a[-1]) == 0 and x.a[0] is not m:
            obj[x] = "l" if isacc(x) else "r"
    if set(viol.values()) != {"l", "r"} or set(obj.values()) != {"l", "r"}:
        return f"the two evaluations are not compared by violation and objective: {E.show(step, 8)}", None, None
    ls = lens(step)
    item = None
    for s1, s2, y1, y2 in CASES:
        for n in ((1, 3) if s1 == 0 and s2 == 0 else (3,)):
            env = {x: num(n) for x in ls}
            env.update({x: num(s1 if s == "l" else s2) for x, s in viol.items()})
            env.update({x: num(y1 if s == "l" else y2) for x, s in obj.items()})
            got = q.assume(step, env)
            if expected(s1, s2, y1, y2) == GREATER:
                if got is m or got.k == "phi":
                    return f"a better new evaluation (violations {s1}, {s2}; objectives {y1}, {y2}) does not replace the current one", None, None
                if item is not None and got is not item:
                    return f"replaces the current best by {E.show(got, 5)} or {E.show(item, 5)}", None, None
                item = got
            elif got is not m:
                return f"an evaluation which is not better (violations {s1}, {s2}; objectives {y1}, {y2}) replaces the current one", None, None
    idx, row = item.a if item.k == "agg" and len(item.a) == 2 else (item, None)
    return None, idx, row


def row_at(r, table_, i):
    r = view(r)
    return r.k == "elem" and table_(r.a[0]) and r.a[1] is i


def is_from(s, off):
    r = s.a[1] if len(s.a) > 1 else None
    return r is not None and r.k == "agg" and (r.d[1] == "RangeFrom" and r.a[0] is off or r.d[1] == "Range" and r.a[0] is off and r.a[1].k == "call" and q.tail(r.a[1].d) in ("nrows", "len_of"))


# --------------------------------------------------------------- best of all rows
def best_of_all(ctx, f):
    v = ctx.eval(f).val()
    y, c, tol = A[0], A[1], A[2]
    ncol = lambda t, n: {x: num(n) for x in q.walk(v, control=True) if x.k == "call" and q.tail(x.d) == "ncols" and view(x.a[0]) is t}
    w = q.assume(v, {**ncol(y, 1), **ncol(c, 0)})
    ok = w.k == "sel" and w.a[0].k == "call" and q.tail(w.a[0].d) == "argmin" and is_col0(w.a[0].a[0], lambda t: t is y)
    mins = w
    ctx.ob(ok, "all:unconstrained", f"without constraint {f.short} answers {E.show(w, 6)}, not the row of the lowest objective", f.span)
    for name, ny, nc in (("metamodelized", 2, 0), ("functions", 1, 1), ("both", 2, 2)):
        w = q.assume(v, {**ncol(y, ny), **ncol(c, nc)})
        ds = {x: num(1) for x in q.walk(w, control=True) if x.k == "discr" and any(z.k == "call" and q.tail(z.d) == "argmin" for z in q.walk(x, control=False))}
        w = q.assume(w, ds)
        bad = constrained(w, y, c, tol)
        ctx.ob(not bad, f"all:{name}", f"{f.short}: {bad}", f.span)


def is_col0(v, base):
    v = view(v)
    return v.k == "elem" and len(v.a) == 3 and v.a[1].k == "param" and v.a[1].d == "[:]" and const_of(v.a[2]) == 0 and base(view(v.a[0]))


def constrained(w, y, c, tol):
    nodes = list(q.walk(w, ALLMU, control=True))
    concat = lambda r: r.k == "sel" and r.a[0].k == "call" and q.tail(r.a[0].d) == "concatenate" and r.a[0].a[-1].k == "agg" and tuple(map(view, r.a[0].a[-1].a)) == (y, c)
    # the table of (violation, objective)
    tabs = []
    for m in nodes:
        if m.k != "mu":
            continue
        ws = [x for x in E.MU.get(m, ()) if x.k == "wr" and x.a[0] is m and x.a[1].k == "agg" and len(x.a[1].a) == 2]
        if ws:
            tabs.append((m, ws[0]))
    if len(tabs) != 1:
        return f"the violation and objective of each row cannot be recognised ({len(tabs)} tables): {E.show(w, 6)[:200]}"
    M, wr = tabs[0]
    s, o = wr.a[1].a
    r = violation(s)
    if r is None:
        return f"ranks rows by {E.show(s, 8)}, which is not the sum of what exceeds the tolerances"
    row = constraints_of(r[0])
    if row is None or not (row.k == "elem" and concat(row.a[0])):
        return f"measures the violation on {E.show(r[0], 6)}, not on all constraint values"
    if r[1] is not tol:
        return f"compares the constraints to {E.show(r[1], 5)}, not to the tolerances"
    o = view(o)
    if not (o.k == "elem" and len(o.a) == 2 and is_col0(o.a[0], lambda t: concat(t) or t is y) or o.k == "elem" and len(o.a) == 3 and const_of(o.a[2]) == 0):
        return f"takes {E.show(o, 6)} for the objective"
    if not (wr.a[2].k == "param" and wr.a[2].d == "[*]"):
        return "does not fill every row of the table"
    am = [x for x in nodes if x.k == "call" and q.tail(x.d) == "argmin" and is_col0(x.a[0], lambda t: t is M)]
    amk = [select(x, "!") for x in am]
    low = [x for x in nodes if x.k == "elem" and len(x.a) == 3 and x.a[0] is M and x.a[1] in amk and const_of(x.a[2]) == 0]
    if not low:
        return f"does not look at the lowest violation: {E.show(w, 6)[:200]}"
    none = q.assume(w, {x: num(1) for x in low})
    tiny = q.assume(w, {x: num(TINY) for x in low})
    some = q.assume(w, {x: num(0) for x in low})
    if none not in amk or tiny not in amk:
        none = none if none not in amk else tiny
        return f"when no row is feasible, answers {E.show(none, 6)}, not the row of the lowest violation"
    if some.k != "mu":
        return f"when a row is feasible, answers {E.show(some, 6)}"
    # loop over the rows
    idx = some
    bests = [m for m in nodes if m.k == "mu" and m.d[:2] == idx.d[:2] and m is not idx]
    ops = list(E.MU[idx])
    if const_of(ops[0]) is None:
        return f"starts from row {E.show(ops[0], 4)}"
    step = ops[1] if len(ops) == 2 else E.phi(list(E.BACK.get(idx, ())))
    used = {x for x in q.walk(step, control=True)}
    best = [m for m in bests if m in used]
    if len(best) != 1:
        return f"does not keep the lowest objective met: {E.show(step, 6)}"
    best = best[0]
    bops = list(E.MU[best])
    i0 = const_of(bops[0])
    if i0 != INF and "infinity" not in E.show(bops[0], 3).lower():
        return f"starts with a lowest objective of {E.show(bops[0], 4)}"
    bstep = bops[1] if len(bops) == 2 else E.phi(list(E.BACK.get(best, ())))
    rs = [x for x in {*used, *q.walk(bstep, control=True)} if x.k == "elem" and x.a[0].k == "elem" and x.a[0].a[0] is M or x.k == "elem" and len(x.a) == 3 and x.a[0] is M]
    cs = [x for x in rs if const_of(x.a[-1]) == 0]
    os_ = [x for x in rs if const_of(x.a[-1]) == 1]
    if not cs or not os_:
        return "does not compare both the violation and the objective of each row"
    for cv, ov, bv in [(a, b, 5) for a in (0, TINY, 1) for b in (4, 5, 6)]:
        env = {**{x: num(cv) for x in cs}, **{x: num(ov) for x in os_}, best: num(bv)}
        i, b = q.assume(step, env), q.assume(bstep, env)
        must = cv == 0 and ov < bv
        may = cv == 0 and ov <= bv
        keep = i is idx and const_of(b) == bv
        take = i is not idx and i.k != "phi" and const_of(b) == ov and (i.k == "call" and i.d == "index" or i.k == "elem" and q.is_range(i.a[0]) or q.is_range(i))
        if not (take if must else (keep or take) if may else keep):
            return f"with violation {cv} and objective {ov} against a best of {bv}, goes on with row {E.show(i, 4)} and objective {E.show(b, 3)}"
    return None


# --------------------------------------------------------------- call sites
OPQ = {"find_best_result_index", "find_best_result_index_from", "is_feasible", "eval_obj", "eval_problem_fcstrs", "sample", "select_next_points", "update_data", "optimize_infill_criterion", "compute_virtual_point", "predict_point", "eval_fcstrs"}


def tolerances(v, ycols, c):
    """the tolerances of all constraints: those of the run, or the configured ones completed with the default"""
    zero = c.k == "call" and q.tail(c.d) == "zeros" and c.a[0].k == "agg" and const_of(c.a[0].a[-1]) == 0
    for _, x in q.alts(v):
        x = view(x)
        if x.k == "sel" and x.d == "cstr_tol" and x.a[0].k in ("param", "call"):
            continue
        if x.k == "sel" and x.d == "!" and x.a[0].k == "sel" and x.a[0].d == "cstr_tol" and zero:
            continue
        if x.k == "param":
            continue
        b = x
        if b.k == "wr":
            if not (b.a[1].k == "sel" and b.a[1].d == "!" and b.a[1].a[0].k == "sel" and b.a[1].a[0].d == "cstr_tol"):
                return f"tolerances overwritten by {E.show(b.a[1], 5)}"
            rg = b.a[2]
            n = rg.a[-1] if rg.k == "agg" and rg.d[1] in ("Range", "RangeTo") and (rg.d[1] == "RangeTo" or const_of(rg.a[0]) == 0) else None
            if n is None or not (n.k == "call" and q.tail(n.d) == "len" and n.a[0] is b.a[1]):
                return f"the configured tolerances are put at {E.show(rg, 5)}"
            b = b.a[0]
        if b.k == "call" and q.tail(b.d) == "from_elem":
            n = next((y for y in b.a if const_of(y) is None or float(const_of(y)).is_integer()), None)
            n = b.a[0] if "ArrayBase" in b.d else b.a[1]
            if const_of(b.a[1] if "ArrayBase" in b.d else b.a[0]) is None:
                return f"default tolerance {E.show(b, 5)}"
            # n_cstr + columns of c
            p = {k: w for k, w in q.poly(n).items() if w}
            names = sorted(E.show(k[0][0] if isinstance(k[0], tuple) else k[0], 3).split(".")[-1] for k in p if k)
            nc = [k for k in p if k and "ncols" in E.show(k[0][0] if isinstance(k[0], tuple) else k[0], 2)]
            cst = [k for k in p if k and E.show(k[0][0] if isinstance(k[0], tuple) else k[0], 6).endswith("n_cstr")]
            if len(cst) != 1 or p.get((), 0) or len(nc) != (0 if zero else 1) or len(p) != len(cst) + len(nc):
                return f"{E.show(n, 5)} tolerances"
            if nc:
                node = nc[0][0][0] if isinstance(nc[0][0], tuple) else nc[0][0]
                if view(node.a[0]) is not view(c):
                    return f"as many tolerances as columns of {E.show(node.a[0], 4)}"
            continue
        return f"tolerances {E.show(x, 5)}"
    return None


def sites(ctx):
    prog = ctx.prog
    n = 0
    want = {}
    for f in prog.fns.values():
        if f.generated() or not f.blocks or f.crate not in ("egobox_ego", "egobox"):
            continue
        for b, t, c in calls(f):
            if c and c.get("name") in ("find_best_result_index", "find_best_result_index_from", "is_feasible"):
                want[(f.h, b)] = (f, t)
    done = set()
    roots = {}
    for (h, b), (f, t) in want.items():
        g = f
        while g.kind == "Closure" or "{closure" in g.short:
            p = prog.fns.get(g.j.get("rooth"))
            if p is None or p is g:
                break
            g = p
        roots[g.h] = g
    for g in roots.values():
        r = ctx.eval(g, opaque=lambda c, fn: fn.name in OPQ)
        best = []
        for e in r.events(pred=lambda e: q.tail(e.name) in ("find_best_result_index", "find_best_result_index_from", "is_feasible")):
            t = q.tail(e.name)
            done.add((e.frame.fn.h, e.block))
            n += 1
            if t == "is_feasible":
                (ys, yi), (cs, ci), tol = rows_of(e.args[0]), rows_of(e.args[1]), view(e.args[2])
                ok = len(yi) == 1 and yi == ci
                ctx.ob(ok, f"site:feasible:{g.short}", f"{g.short} tests the feasibility of a point with values of two different rows", e.span)
                k = next(iter(yi)) if ok else None
                if k is not None and k.k == "call" and q.tail(k.d).startswith("find_best_result_index"):
                    ctx.ob(tables_of(k.a[-3]) == ys and tables_of(k.a[-2]) == cs and view(k.a[-1]) is tol, f"site:feasible:tables:{g.short}", f"{g.short} looks for the best point and tests its feasibility on different tables or tolerances", e.span)
            else:
                y, c, tol = map(view, e.args[-3:])
                bad = tolerances(tol, None, c)
                ctx.ob(not bad, f"site:tol:{g.short}", f"{g.short} chooses the best point with {bad}", e.span)
                if t.endswith("_from") and g.name != "is_objective_improved":
                    cur, off = e.args[:2]
                    ctx.ob(cur.k == "sel" and cur.d == "!" and cur.a[0].k == "sel" and cur.a[0].d == "best_index", f"site:current:{g.short}", f"{g.short} compares the new points to row {E.show(cur, 4)}, not to the current best", e.span)
                    ctx.ob(first_new(off, y), f"site:offset:{g.short}", f"{g.short} considers the rows from {E.show(off, 6)} on, not from the first added one", e.span)
                    best.append((e, cur))
        if best:
            st = r.val() if g.name == "trego_step" else payload(r.val())
            if st.k == "agg" and st.d[0] == "tuple":
                st = st.a[0]
            if g.name in ("ego_step", "trego_step"):
                for e, cur in best:
                    state(ctx, g, st, e, cur)
    for k, (f, t) in want.items():
        ctx.ob(k in done, f"site:seen:{f.short}", f"the choice of the best point in {f.short} could not be followed", t["s"])
    ctx.floor("uses of the best point and feasibility functions", n, 12)


def tables_of(v):
    return {y for _, x in q.alts(view(v)) for y in ([view(x)] if view(x).k != "phi" else tables_of(x))}


def rows_of(v):
    """(tables, indices) of a row of a table"""
    ts, ix = set(), set()
    for _, x in q.alts(view(v)):
        x = view(x)
        if x.k == "phi":
            t, i = rows_of(x)
            ts |= t
            ix |= i
        elif x.k == "elem" and len(x.a) >= 2:
            ts |= tables_of(x.a[0])
            ix.add(x.a[1])
        else:
            ts.add(x)
            ix.add(None)
    return ts, ix


def first_new(off, y):
    """rows of the extended table minus the number of added rows"""
    p = {k: w for k, w in q.poly(off).items() if w}
    rows = [k for k in p if k and p[k] == 1]
    node = lambda k: k[0][0] if isinstance(k[0], tuple) else k[0]
    if len(rows) != 1:
        return False
    t = node(rows[0])
    if not (t.k == "call" and q.tail(t.d) in ("nrows", "len_of")):
        return False
    tab = view(t.a[0])
    upd = lambda z: any(x.k in ("eff", "call") and q.tail(x.d[0] if x.k == "eff" else x.d) in ("update_data", "concatenate", "append") for x in q.walk(z, ALLMU, control=False))
    rest = {k: w for k, w in p.items() if k not in rows}
    if not rest:
        # rows before the addition
        return not upd(tab) or tab.k == "mu"
    if not upd(tab) and tab is not y:
        return False
    if rest == {(): -1}:
        # a single row was given
        us = [x for x in q.walk(tab, ALLMU, control=False) if x.k == "eff" and q.tail(x.d[0]) == "update_data"]
        return bool(us) and all(any(z.k == "call" and q.tail(z.d) == "insert_axis" for z in (x.a[3], view(x.a[3]))) for x in us)
    if len(rest) == 1:
        (k, w), = rest.items()
        z = node(k)
        if w == -1 and z.k == "call" and q.tail(z.d) == "nrows":
            return view(z.a[0]).k == "call" and q.tail(view(z.a[0]).d) == "eval_obj"
        return w == -1 and z.k == "call" and q.tail(z.d) == "len" and upd(z.a[0])
    return False


def state(ctx, g, st, e, cur):
    alts = [w for _, w in q.alts(select(st, "best_index"))]
    ctx.ob(bool(alts) and all(w.k == "agg" and w.a and w.a[0] is e.res for w in alts), f"state:best:{g.short}", f"{g.short} does not record the best row it found: {E.show(select(st, 'best_index'), 5)}", e.span)
    alts = [w for _, w in q.alts(select(st, "prev_best_index"))]
    ctx.ob(cur.a[0] in alts, f"state:prev:{g.short}", f"{g.short} does not keep the previous best row: {E.show(select(st, 'prev_best_index'), 5)}", e.span)
    fe = select(st, "feasibility")
    calls_ = [x for x in q.walk(fe, control=True) if x.k == "call" and q.tail(x.d) == "is_feasible"]
    old = [x for x in q.walk(fe, control=True) if x.k == "sel" and x.d == "feasibility"]
    ok = bool(calls_)
    for o in (False, True):
        for c in (False, True):
            w = q.assume(fe, {**{x: mk("const", (o, "bool")) for x in old}, **{x: mk("const", (c, "bool")) for x in calls_}})
            w = [truth(x) for _, x in q.alts(w)]
            ok = ok and ((o or c) in w)
    ctx.ob(ok and all(x.a[0].k == "elem" and x.a[0].a[1] is e.res for x in map(lambda z: z, calls_)), f"state:feasibility:{g.short}", f"{g.short} does not record that a feasible point is known as soon as the best one is: {E.show(fe, 6)}", e.span)


def run(ctx):
    ctx.rule = ("The feasibility predicate, the order between two evaluations, the choice among all rows and the choice among the current best and the new rows are extracted as value graphs; "
                "each is decided as a table over the orderings of violations (a sum over exactly the constraint values above their own tolerance) and objectives. At every use, rows, tables and tolerances must belong together, and the state must record the chosen row.")
    feasibility(ctx, one(ctx, "is_feasible"))
    for f in funcs(ctx, "cstr_min"):
        r = ctx.eval(f).val()
        t = judge(r, lambda x: A[0] in set(q.walk(x, control=False)), lambda x: A[1] in set(q.walk(x, control=False)))
        ctx.ob(not isinstance(t, str), "order", f"{f.short}: {t}", f.span)
        if not isinstance(t, str):
            ctx.ob(t == {A[2]}, "order:tol", f"{f.short} uses tolerances {[E.show(x, 4) for x in t]}", f.span)
    best_from(ctx, one(ctx, "find_best_result_index_from"))
    best_of_all(ctx, one(ctx, "find_best_result_index"))
    sites(ctx)
