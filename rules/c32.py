"""C32: cooperative activity covers every variable and moves only active ones."""
from vp import engine as E, q
from vp.engine import mk, num, select, const_of, STAR, ALL
from vp.deriv import elem_
from rules.c06 import flat, is_call
from rules.c07 import ALLMU
from rules.c08 import bare, one

ASSUMPTIONS = ["`shuffle` permutes the elements of a slice; `from_shape_vec` is an error when the number of elements is not that of the shape; `assign` panics when shapes cannot be broadcast",
               "integer division and remainder of the number of components by the number of groups satisfy n = (n / g)·g + n % g"]
A = [mk("param", f"a{i}") for i in range(12)]


def plain(v):
    while True:
        if v.k == "sel" and v.d == "!":
            v = v.a[0]
        elif v.k == "call" and q.tail(v.d) in ("to_vec", "to_owned", "clone", "into_owned", "collect", "view", "from_vec", "from", "into", "cloned", "copied", "iter", "into_iter", "as_slice", "from_iter", "aview1", "arr1") and v.a:
            v = v.a[0]
        else:
            return v


def origins(v, seen=None):
    """values a variable may hold, through joins and loops"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.k == "mu":
        return set().union(set(), *[origins(x, seen) for x in E.MU.get(v, ())])
    if v.k == "phi":
        return set().union(set(), *[origins(x, seen) for x in v.a])
    if v.k == "sel" and v.a[0].k in ("mu", "phi"):
        xs = E.MU.get(v.a[0], ()) if v.a[0].k == "mu" else v.a[0].a
        return set().union(set(), *[origins(select(x, v.d), seen) for x in xs])
    b = plain(v)
    return origins(b, seen) if b is not v else {v}


# ---------------------------------------------------------------- the partition
class Sizes:
    """integer sizes as polynomials in the number of groups g and n = d·g + r"""
    def __init__(self, n, zero_rem):
        self.n, self.zero = n, zero_rem
        self.pairs = {}

    def atom(self, s):
        return {((s, 1),): 1}

    def mul(self, a, b):
        out = {}
        for m, c in a.items():
            for k, e in b.items():
                t = dict(m)
                for x, i in k:
                    t[x] = t.get(x, 0) + i
                key = tuple(sorted(t.items()))
                out[key] = out.get(key, 0) + c * e
        return {m: c for m, c in out.items() if c}

    def of(self, v):
        v = plain(v)
        if isinstance(const_of(v), int) and not isinstance(const_of(v), bool):
            return {(): const_of(v)} if const_of(v) else {}
        if v is self.n and self.pairs.get("g") is not None:
            return q.padd(self.mul(self.atom("d"), self.atom("g")), {} if self.zero else self.atom("r"))
        if v.k == "op" and v.d in ("Add", "Sub", "Mul"):
            a, b = self.of(v.a[0]), self.of(v.a[1])
            return q.padd(a, b) if v.d == "Add" else q.padd(a, b, -1) if v.d == "Sub" else self.mul(a, b)
        if v.k == "op" and v.d in ("Div", "Rem") and v.a[0] is self.n:
            if self.pairs.setdefault("g", v.a[1]) is not v.a[1]:
                return self.atom(E.show(v, 9))
            return self.atom("d") if v.d == "Div" else {} if self.zero else self.atom("r")
        if v is self.pairs.get("g"):
            return self.atom("g")
        if v.k == "call" and q.tail(v.d) == "div_ceil" and v.a[0] is self.n and v.a[1] is self.pairs.get("g"):
            return self.atom("d") if self.zero else q.padd(self.atom("d"), {(): 1})
        return self.atom(E.show(v, 9))


def divisor(v, n):
    for x in q.walk(v, ALLMU):
        if x.k == "op" and x.d in ("Div", "Rem") and x.a[0] is n:
            return x.a[1]
    return None


def rng(i, S, size):
    """[lo, hi) of an index"""
    if i is ALL:
        return {}, size
    if i.k == "agg" and i.d[1] in ("Range", "RangeTo", "RangeFrom", "RangeFull"):
        d = dict(zip(i.d[3], i.a))
        return (S.of(d["start"]) if "start" in d else {}), (S.of(d["end"]) if "end" in d else size)
    if i.k in ("agg",):
        return None
    p = S.of(i)
    return p, q.padd(p, {(): 1})


def eq(a, b):
    return not {m: c for m, c in q.padd(a, b, -1).items() if c}


def perm(v, n):
    """a shuffled or plain list of all the components"""
    v = plain(v)
    if v.k == "eff" and q.tail(v.d[0]) in ("shuffle", "partial_shuffle", "sort", "sort_unstable", "reverse") and v.d[1] == 0:
        return perm(v.a[0], n)
    return v.k == "agg" and v.d[1] == "Range" and const_of(v.a[0]) == 0 and plain(v.a[1]) is n


def content(v, n, S):
    """part [lo, hi) of the list of components"""
    v = plain(v)
    if is_call(v, "from_shape_vec"):
        return content(v.a[1], n, S)
    if perm(v, n):
        return v, {}, S.of(n)
    if v.k == "elem" and len(v.a) == 2 and perm(v.a[0], n) and v.a[1] is not STAR:
        r = rng(v.a[1], S, S.of(n))
        if r:
            return plain(v.a[0]), r[0], r[1]
    return None


def partition(ctx, f, t, S, n, case):
    """the table t holds each component exactly once, and n elsewhere"""
    t = plain(t)
    bad = lambda why: ctx.ob(False, f"partition:{case}", f"{f.short}: {why}: {E.show(t, 6)[:400]}", f.span)
    pieces, filler, shape = [], None, None
    x = t
    while x.k == "wr":
        pieces.append((x.a[1], x.a[2:]))
        x = plain(x.a[0])
    if is_call(x, "from_shape_vec"):
        if pieces:
            return bad("a table of components is overwritten")
        c = content(x.a[1], n, S)
        if c is None or not eq(c[1], {}) or not eq(c[2], S.of(n)):
            return bad("the table is not made of all the components")
        return ctx.ob(True, f"partition:{case}", "", f.span)
    if x.k == "mu":
        return spread(ctx, f, x, S, n, case)
    if not is_call(x, "from_elem") or x.a[0].k != "agg" or len(x.a[0].a) != 2:
        return bad("the table is not read")
    filler = S.of(x.a[1])
    sizes = [S.of(y) for y in x.a[0].a]
    if not ctx.ob(eq(filler, S.of(n)), f"partition:marker:{case}", f"{f.short} marks the places without a component with {E.show(x.a[1], 5)}, not with an index out of range for each of them", f.span):
        return
    got, regs = [], []
    for val, idx in reversed(pieces):
        c = content(val, n, S)
        if c is None or len(idx) != 2:
            return bad(f"{E.show(val, 5)[:200]} is written to the table")
        r = [rng(i, S, s) for i, s in zip(idx, sizes)]
        if None in r:
            return bad("a region of the table is not read")
        area = S.mul(q.padd(r[0][1], r[0][0], -1), q.padd(r[1][1], r[1][0], -1))
        if not ctx.ob(eq(area, q.padd(c[2], c[1], -1)), f"partition:size:{case}", f"{f.short} writes {E.show(val, 5)[:200]} to a region of another size", f.span):
            return
        got.append(c)
        regs.append(r)
    if len({c[0] for c in got}) != 1:
        return bad("the parts are not those of one list of components")
    # parts follow each other from 0 to n
    at, todo = {}, list(got)
    while todo:
        nx = [c for c in todo if eq(c[1], at)]
        if not nx:
            return bad("the parts of the list of components do not follow each other")
        at = nx[0][2]
        todo.remove(nx[0])
    if not ctx.ob(eq(at, S.of(n)), f"partition:all:{case}", f"{f.short} does not place each component in the table", f.span):
        return
    for i, a in enumerate(regs):
        for b in regs[:i]:
            ok = any(eq(x[1], y[0]) or eq(y[1], x[0]) for x, y in zip(a, b))
            ctx.ob(ok, f"partition:overlap:{case}", f"{f.short}: parts of the list of components may overwrite each other", f.span)
    ctx.ob(True, f"partition:{case}", "", f.span)


def spread(ctx, f, m, S, n, case):
    """table[k / c][k % c] = list[k] for each k, c a constant of the loop"""
    ops = [x for x in E.MU.get(m, ()) if x is not m]
    ok = len(ops) == 2 and is_call(plain(ops[0]), "from_elem") and eq(S.of(plain(ops[0]).a[1]), S.of(n)) and ops[1].k == "wr" and plain(ops[1].a[0]) is m and len(ops[1].a) == 4
    if ok:
        val, i, j = ops[1].a[1:]
        if i.k == "op" and i.d == "Rem":
            i, j = j, i
        ok = i.k == "op" and i.d == "Div" and j.k == "op" and j.d == "Rem" and i.a[0] is j.a[0] and i.a[1] is j.a[1]
        ls = list(E.LOOPS.get(m.d[:2], ()))
        ok = ok and len(ls) == 1 and is_call(ls[0], "enumerate") and perm(ls[0].a[0], n)
        if ok:
            v = elem_(val)
            k = i.a[0]
            ok = v.k == "elem" and perm(v.a[0], n) and (is_call(k, "index") or k.k == "sel" and k.d == "0" and k.a[0].k == "elem" and k.a[0].a[0] is ls[0])
    ctx.ob(ok, f"partition:{case}", f"{f.short} does not place each component of the list once: {[E.show(x, 6)[:200] for x in ops]}", f.span)


def activity(ctx):
    f = one(ctx, "get_random_activity", "egobox_ego")
    v = ctx.eval(f).val()
    n = next((x for x in q.walk(v, ALLMU) if is_call(x, "nrows", "len") and x.a[0] is select(A[0], "xlimits")), None)
    if not ctx.ob(n is not None, "partition:components", f"{f.short} does not depend on the number of components", f.span):
        return
    g = divisor(v, n)
    ctx.ob(g is not None and q.uses(g, lambda x: x is select(select(select(A[0], "config"), "coego"), "n_coop")), "partition:groups", f"{f.short} does not divide the components in the configured number of groups", f.span)
    cases = []

    def split(v, zero, label):
        if v.k == "phi":
            for d, w in zip(v.d, v.a):
                z = zero
                for alt in d:
                    for c, edge in alt:
                        if c.k == "op" and c.d in ("Eq", "Ne") and any(const_of(x) == 0 for x in c.a) and any(x.k == "op" and x.d == "Rem" and x.a[0] is n for x in c.a):
                            t = (edge[0] == "in") == ("1" in [str(e) for e in edge[1:]])
                            z = z or (t if c.d == "Eq" else not t)
                split(w, z, label + ("=" if z else "~"))
        elif v.k == "sel" and v.d == "!" and v.a[0].k == "phi":
            split(v.a[0], zero, label)
        else:
            cases.append((v, zero))
    split(v, False, "")
    for i, (w, zero) in enumerate(cases):
        S = Sizes(n, zero)
        S.pairs["g"] = g
        partition(ctx, f, w, S, n, "even" if zero else "any")
    ctx.floor("cases of the activity table", len(cases), 1)
    f = one(ctx, "full_activity", "egobox_ego")
    v = plain(ctx.eval(f).val())
    sh = v.a[0] if v.a else None
    ok = is_call(v, "from_shape_vec") and perm(v.a[1], n) and sh.k == "agg" and const_of(sh.a[0]) == 1
    ok = ok or is_call(v, "insert_axis") and perm(v.a[0], n) and v.a[1].k == "agg" and const_of(v.a[1].a[0]) == 0
    ctx.ob(ok, "partition:full", f"{f.short} does not activate all the components in one group: {E.show(v, 5)[:300]}", f.span)


# ---------------------------------------------------------------- masked reads and writes
def stripped(v):
    """filter(list, element < bound) -> (list, bound)"""
    v = plain(v)
    if is_call(v, "strip") and len(v.a) == 2:
        return plain(v.a[0]), v.a[1]
    if v.k == "mu":
        # elements pushed one by one to an empty list
        ops = [x for x in E.MU.get(v, ()) if x is not v]
        ls = list(E.LOOPS.get(v.d[:2], ()))
        if len(ops) == 2 and len(ls) == 1 and is_call(plain(ops[0]), "new", "with_capacity"):
            for d, w in zip(ops[1].d, ops[1].a) if ops[1].k == "phi" else ():
                if w is not v and w.k == "eff" and q.tail(w.d[0]) == "push" and w.a[0] is v and len(d) == 1:
                    conds = list(next(iter(d)))
                    if prefix(elem_(w.a[1])) is plain(ls[0]) and len(conds) == 1 and all(x is v for x in ops[1].a if x is not w):
                        c, edge = conds[0]
                        yes = (edge[0] == "in") == ("0" not in [str(k) for k in edge[1:]])
                        if c.k == "op" and c.d == "Lt" and yes and elem_(c.a[0]) is elem_(w.a[1]):
                            return plain(ls[0]), c.a[1]
        return None
    if is_call(v, "filter") and len(v.a) == 2 or v.k == "eff" and q.tail(v.d[0]) == "retain" and v.d[1] == 0:
        c = v.a[1]
        e = E.elem(v.a[0], STAR)
        neg = False
        while c.k == "op" and c.d == "Not":
            c, neg = c.a[0], not neg
        if c.k == "op" and c.d == "Lt" and not neg and elem_(c.a[0]) is e:
            return plain(v.a[0]), c.a[1]
        if c.k == "op" and c.d == "Le" and neg and elem_(c.a[1]) is e:
            return plain(v.a[0]), c.a[0]
    return None


def masks(ctx):
    f = one(ctx, "strip", "egobox_ego")
    s = stripped(ctx.eval(f).val())
    ctx.ob(s is not None and s[0] is A[0] and s[1] is A[1], "mask:strip", f"{f.short} does not keep exactly the indices within range: {E.show(ctx.eval(f).val(), 6)[:300]}", f.span)
    f = one(ctx, "get_active_x", "egobox_ego")
    v = plain(ctx.eval(f).val())
    ok = is_call(v, "select") and plain(v.a[0]) is A[1] and v.a[1] is A[0]
    s = stripped(v.a[2]) if ok else None
    ok = s is not None and s[0] is A[2] and is_call(s[1], "len_of", "nrows", "ncols", "len") and s[1].a[0] is A[1] and (len(s[1].a) < 2 or s[1].a[1] is A[0])
    ctx.ob(ok, "mask:read", f"{f.short} does not take exactly the active components within range along the axis: {E.show(v, 6)[:300]}", f.span)
    f = one(ctx, "set_active_x", "egobox_ego")
    m = ctx.eval(f).arg_final(0)
    ops = [x for x in E.MU.get(m, ()) if x is not m] if m.k == "mu" else []
    ok = len(ops) == 2 and ops[0] is A[0] and ops[1].k == "wr" and ops[1].a[0] is m and len(ops[1].a) == 3
    if ok:
        val, idx = elem_(ops[1].a[1]), elem_(ops[1].a[2])
        ok = prefix(idx) is A[1] and prefix(val) is A[2]
    ctx.ob(ok, "mask:write", f"{f.short} does not write the k-th value to the k-th active component, and nothing else: {[E.show(x, 7)[:300] for x in ops]}", f.span)


def prefix(e):
    """the list of which e is the current element of a walk from its start"""
    if e.k != "elem" or len(e.a) != 2 or not (e.a[1] is STAR or is_call(e.a[1], "index") or e.a[1].k == "sel" and e.a[1].d == "0"):
        return None
    b = plain(e.a[0])
    while True:
        if b.k == "elem" and len(b.a) == 2 and b.a[1].k == "agg" and b.a[1].d[1] == "RangeTo":
            b = plain(b.a[0])
        elif is_call(b, "part") and len(b.a) == 3 and b.a[1].k == "const" and b.a[1].d[0] == "take":
            b = plain(b.a[0])
        elif is_call(b, "take", "enumerate"):
            b = plain(b.a[0])
        else:
            return b


# ---------------------------------------------------------------- the inner optimization
OPQ = ("set_active_x", "get_active_x", "eval_infill_obj", "eval_infill_obj_with_cstrs", "eval_grad_infill_obj", "eval_grad_infill_obj_with_cstrs", "is_objective_improved", "minimize", "multistart", "mean_cstr", "upper_trust_bound_cstr", "to_user_space")


def groups(v, table):
    """v is one group of the table"""
    v = plain(v)
    if v.k == "elem" and v.a[1] is STAR and (len(v.a) == 2 or len(v.a) == 3 and v.a[2] is ALL):
        e = elem_(v)
        return e.k == "elem" and rows(e.a[0]) is table
    e = elem_(v)
    return e is not v and groups(e, table) or e.k == "elem" and len(e.a) >= 2 and rows(e.a[0]) is table and (e.a[1] is STAR or is_call(e.a[1], "index") or whole(e.a[1]) is table) and all(i is ALL for i in e.a[2:])


def every(s, table):
    """a loop over s turns once for each row of the table"""
    if s.k == "agg" and s.d[1] == "Range":
        b = plain(s.a[1])
        return const_of(s.a[0]) == 0 and is_call(b, "nrows", "len_of", "len") and rows(b.a[0]) is table
    return rows(s) is table


def whole(v):
    """whole range of the rows of a table"""
    return is_call(v, "range") and const_of(v.a[0]) == 0 and is_call(plain(v.a[1]), "nrows", "len_of") and plain(v.a[1]).a[0]


def rows(v):
    v = plain(v)
    while is_call(v, "outer_iter", "rows", "axis_iter", "genrows", "enumerate", "into_par_iter"):
        v = plain(v.a[0])
    return v


def joins(v, x):
    """conditions under which a variable takes the value x in a loop"""
    out = set()
    for m in q.walk(v, ALLMU):
        if m.k == "mu" and m is not x:
            for o in E.MU.get(m, ()):
                for g, w in flat(o):
                    if plain(w) is x:
                        out.add(g)
    return out


def inner(ctx):
    f = one(ctx, "optimize_infill_criterion", "egobox_ego")
    eng = ctx.engine(opaque=lambda c, g: g.name in OPQ)
    r = ctx.eval(f, eng=eng)
    pb = A[1]
    table = select(pb, "actives")
    cur = A[3]
    sites = r.events(pred=lambda e: q.tail(e.name or "") == "set_active_x")
    ctx.floor("partial updates of the current point", len(sites), 1)
    updates = set()
    out = select(r.val(), "1")
    for x in origins(out):
        ok = x is select(cur, "0") or x.k == "eff" and q.tail(x.d[0]) == "set_active_x" and x.d[1] == 0
        ctx.ob(ok, "inner:point", f"{f.short} answers the point {E.show(x, 6)[:300]}, neither the current best point nor one moved along active components", f.span)
        if ok and x.k == "eff":
            updates.add(x)
    ctx.floor("points moved along active components", len(updates), 1)
    for x in updates:
        base, act, val = x.a[0], x.a[1], plain(x.a[2])
        for o in origins(base):
            ok = o is select(cur, "0") or o in updates or o.k == "eff" and q.tail(o.d[0]) == "set_active_x"
            ctx.ob(ok, "inner:base", f"{f.short} moves the active components of {E.show(o, 6)[:300]}, not of the current best point", f.span)
        ctx.ob(x in origins(base), "inner:base", f"{f.short} moves the active components of {E.show(base, 6)[:300]}, which does not keep the components moved with the previous groups", f.span)
        ctx.ob(groups(act, table), "inner:group", f"{f.short} moves the components {E.show(act, 5)[:300]}, not those of one group of the activity", f.span)
        ok = val.k == "sel" and val.d == "1" and any(is_call(z, "minimize") for z in q.walk(val, ALLMU))
        ctx.ob(ok, "inner:values", f"{f.short} moves active components to {E.show(val, 5)[:300]}, not to the result of the optimization", f.span)
        ms = [e for e in r.events(pred=lambda e: (e.name or "").endswith("Optimizer::new"))]
        ctx.floor("optimizations over active components", len(ms), 1)
        for e in ms:
            b = plain(e.args[4])
            ok = is_call(b, "get_active_x") and const_of(b.a[0].a[0]) == 0 and b.a[1] is select(A[0], "xlimits") and plain(b.a[2]) is plain(act)
            ctx.ob(ok, "inner:bounds", f"{f.short} bounds the optimization by {E.show(b, 5)[:300]}, not by the limits of the active components", e.span)
            for o in origins(select(e.args[3], "xbest")):
                ok = o is select(select(pb, "infill_data"), "xbest") or o in updates
                ctx.ob(ok, "inner:reference", f"{f.short} gives {E.show(o, 5)[:300]} for the reference of the components which are not active, not the current best point", e.span)
            at = {frozenset(joins(out, x)), frozenset(joins(select(e.args[3], "xbest"), x))}
            ctx.ob(len(at) == 1 and all(at), "inner:same reference", f"{f.short} does not move the reference of the components which are not active whenever it moves the point", e.span)
        for e in r.events(pred=lambda e: q.tail(e.name or "") == "multistart"):
            ctx.ob(plain(e.args[-1]) is plain(act), "inner:starts", f"{f.short} starts from points of the components {E.show(e.args[-1], 5)[:300]}, not of the active ones", e.span)
        # the loop turns over all groups
        ls = [s for x2 in ([out] if out.k == "mu" else [y for y in q.walk(out, ALLMU) if y.k == "mu"]) for s in E.LOOPS.get(x2.d[:2], ()) if every(s, table)]
        ctx.ob(bool(ls), "inner:all groups", f"{f.short} does not go through all the groups of the activity", f.span)
    # functions of the active components
    n = 0
    clos = {}
    for e in r.events():
        for a in e.args:
            for x in q.walk(a, ALLMU):
                if x.k == "clo":
                    clos.setdefault(x.d, x)
    pending, seen = list(clos.values()), set()
    while pending:
        x = pending.pop()
        g = ctx.prog.fns.get(x.d)
        if g is None or x.d in seen:
            continue
        seen.add(x.d)
        r2 = ctx.eval(g, args={0: x}, opaque=lambda c, h: h.name in OPQ)
        for y in q.walk(r2.val(), ALLMU):
            if y.k == "clo":
                pending.append(y)
        if g.argc == 4 and g.locals[2][0] == "&[f64]":
            n += 1
            es = r2.events(pred=lambda e: q.tail(e.name or "") == "set_active_x")
            ctx.ob(len(es) >= 1, "inner:function", f"{g.short} is not a function of the reference point moved along active components", g.span)
            for e in es:
                base = plain(e.args[0])
                ctx.ob(base is select(A[3], "xbest"), "inner:function reference", f"{g.short} completes the active components with {E.show(base, 5)[:200]}, not with the reference point", e.span)
                ctx.ob(plain(e.args[2]) is A[1], "inner:function values", f"{g.short} gives active components the values {E.show(e.args[2], 5)[:200]}", e.span)
                ctx.ob(groups(e.args[1], table), "inner:function group", f"{g.short} moves the components {E.show(e.args[1], 5)[:300]}, not those of the group", e.span)
    ctx.floor("functions of active components", n, 3)


def callers(ctx):
    """the reference point handed over is the current best point"""
    n = 0
    for f in ctx.prog.fns.values():
        if f.crate == "egobox_ego" and f.name in ("select_next_points", "trego_step") and f.blocks and not f.generated():
            r = ctx.eval(f, opaque=lambda c, g: g.name in OPQ or g.name in ("optimize_infill_criterion", "compute_scaling", "make_clustered_surrogate", "compute_virtual_point", "refresh_surrogates", "refresh_infill_data", "eval_obj", "update_data", "find_best_result_index_from", "find_best_result_index", "full_activity", "eval_problem_fcstrs"))
            handed = next((i for i in range(f.argc) if "InfillObjData" in f.locals[i + 1][0] and f.locals[i + 1][0].startswith("&")), None)
            for e in r.events(pred=lambda e: q.tail(e.name or "") == "optimize_infill_criterion"):
                n += 1
                pb, cur = e.args[1], select(e.args[3], "0")
                ref = select(select(pb, "infill_data"), "xbest")
                ok = plain(ref) is plain(cur) or handed is not None and plain(ref) is select(A[handed], "xbest") and best_row(plain(cur))
                ctx.ob(ok, "caller:reference", f"{f.short} optimizes from {E.show(cur, 5)[:200]} with the reference point {E.show(ref, 5)[:200]}", e.span)
                for o in origins(select(pb, "actives")):
                    ok = is_call(o, "full_activity", "get_random_activity") or is_act(o, f)
                    ctx.ob(ok, "caller:activity", f"{f.short} optimizes with the activity {E.show(o, 6)[:300]}", e.span)
    ctx.floor("inner optimizations", n, 2)


def best_row(v):
    """row of the recorded inputs at the index of the best point"""
    if v.k != "elem" or len(v.a) != 3 or v.a[2] is not ALL:
        return False
    i, d = plain(v.a[1]), plain(v.a[0])
    return i.k == "sel" and i.d == "best_index" and d.k == "sel" and d.d == "0" and plain(d.a[0]).k == "sel" and plain(d.a[0]).d == "data" and plain(d.a[0]).a[0] is i.a[0]


def is_act(o, f):
    if o.k == "param":
        return "Array2<usize>" in f.locals[int(o.d[1:]) + 1][0] or "usize" in f.locals[int(o.d[1:]) + 1][0]
    return o.k == "sel" and o.d == "activity" and o.a[0].k == "param"


def handover(ctx):
    """the reference point computed for a local step is the best point of the state the step starts from"""
    f = one(ctx, "refresh_infill_data", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in OPQ or g.name == "compute_scaling")
    x = plain(select(r.val(), "xbest"))
    ctx.ob(best_row(x), "handover:best", f"{f.short} gives {E.show(x, 6)[:300]} for the reference point, not the best recorded point", f.span)
    f = one(ctx, "trego_iteration", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("refresh_infill_data", "trego_step", "refresh_surrogates", "ego_step", "ego_iteration"))
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "trego_step"):
        n += 1
        d, st = plain(e.args[4]), e.args[2]
        ok = is_call(d, "refresh_infill_data") and (select(st, "best_index") is select(d.a[2], "best_index") or st.k == "eff" and q.tail(st.d[0]) == "refresh_infill_data")
        ctx.ob(ok, "handover:state", f"{f.short} makes a local step of {E.show(st, 4)[:200]} with the reference {E.show(d, 4)[:200]}", e.span)
    ctx.floor("local steps", n, 1)


def starts(ctx):
    n = 0
    for f in ctx.prog.fns.values():
        if f.name == "multistart" and f.crate == "egobox_ego" and f.blocks and f.trait:
            r = ctx.eval(f, opaque=lambda c, g: g.name == "get_active_x")
            es = r.events(pred=lambda e: q.tail(e.name or "") == "get_active_x")
            n += 1
            lim = False
            for e in es:
                ax, x, act = e.args
                ctx.ob(plain(act) is A[2], "starts:active", f"{f.short} takes the components {E.show(act, 4)[:200]}, not the active ones", e.span)
                lim = lim or x is select(A[0], "xlimits") and const_of(ax.a[0]) == 0
                want = 0 if x.k == "sel" and x.d in ("xlimits", "origin") else 1
                ctx.ob(const_of(ax.a[0]) == want, "starts:axis", f"{f.short} takes active components along axis {E.show(ax)} of {E.show(x, 3)}", e.span)
            ctx.ob(lim, "starts:limits", f"{f.short} does not restrict the limits to the active components", f.span)
    ctx.floor("generators of starting points", n, 3)


# ---------------------------------------------------------------- hyperparameters
def thetas(ctx):
    f = one(ctx, "set_partial_theta_tuning", "egobox_ego")
    m = ctx.eval(f, opaque=lambda c, g: g.name == "strip").arg_final(2)
    ops = [x for x in E.MU.get(m, ()) if x is not m] if m.k == "mu" else []
    ps = [x for o in ops[1:] for x in q.walk(o) if x.k == "agg" and x.d[1] == "Partial"]
    ctx.ob(len(ops) == 2 and len(ps) >= 1, "theta:tuning", f"{f.short} does not make each tuning a partial one", f.span)
    for p in ps:
        tuning(ctx, f, p, lambda a: a is A[1])
        d = dict(zip(p.d[3], p.a))
        for o in origins(d["init"]):
            ctx.ob(o.k == "sel" and (o.d.endswith("init") or o.d.endswith(".0")), "theta:kept", f"{f.short} starts from {E.show(o, 5)[:200]}, not from the hyperparameters of the tuning", f.span)
    f = one(ctx, "make_clustered_surrogate", "egobox_ego")
    r = ctx.eval(f, opaque=lambda c, g: g.name in ("strip", "set_theta_tunings", "train", "train_on_clusters", "theta_bounds"))
    k, seen = 0, set()
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "set_theta_tunings"):
        for p in q.walk(e.args[1], ALLMU):
            if p.k == "agg" and p.d[1] == "Partial" and p not in seen:
                seen.add(p)
                k += 1
                tuning(ctx, f, p, lambda a: groups(a, A[8]))
    ctx.floor("partial tunings", k, 2)
    ls = [s for x in q.walk(r.val(), ALLMU) if x.k == "mu" for s in E.LOOPS.get(x.d[:2], ())]
    ctx.ob(any(every(s, A[8]) for s in ls), "theta:all groups", f"{f.short} does not go through all the groups of the activity: {[E.show(s, 5)[:100] for s in ls]}", f.span)


def tuning(ctx, f, p, group):
    d = dict(zip(p.d[3], p.a))
    inits, acts = d["init"], d["active"]
    pairs = [(i, a) for i, a in zip(inits.a, acts.a)] if inits.k == "phi" and acts.k == "phi" and len(inits.a) == len(acts.a) else [(inits, acts)]
    for i, a in pairs:
        s = stripped(a)
        ok = s is not None and group(s[0])
        ctx.ob(ok, "theta:active", f"{f.short} activates the hyperparameters {E.show(a, 5)[:300]}, not those of the group within range", f.span)
        if ok:
            b = s[1]
            ctx.ob(is_call(b, "len", "len_of", "dim") and plain(b.a[0]) is plain(i), "theta:range", f"{f.short} keeps the active indices below {E.show(b, 5)[:200]}, not below the number of hyperparameters", f.span)


def run(ctx):
    ctx.rule = ("The activity table is decomposed in parts of one list of all the components, written to disjoint regions of the same sizes, the rest being marked by an index out of range; activated components are read and written through masks which keep the indices within range; "
                "the point of the inner optimization is the current best point in which only the components of the current group are replaced, for each group of the table, the functions optimized complete active components with that same point; hyperparameters likewise.")
    activity(ctx)
    masks(ctx)
    inner(ctx)
    callers(ctx)
    handover(ctx)
    starts(ctx)
    thetas(ctx)
