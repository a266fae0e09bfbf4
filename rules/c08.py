"""C08: the reported optimum is one recorded evaluation."""
from vp import engine as E, q
from vp.engine import mk, num, select, const_of
from rules.c05 import strip, leaves
from rules.c16 import payload
from rules.c31 import row_of

ASSUMPTIONS = ["argmin's Executor calls `update` on the state after every iteration and answers that state as result", "the index of the best row is that of the recorded tables (C07) and decoding is judged by C04"]
A = [mk("param", f"a{i}") for i in range(6)]
OPQ = {"get_best_param", "get_full_best_cost", "take_data", "to_discrete_space", "discrete", "find_best_result_index", "apply_config", "cstr_tol", "update", "get_param", "get_cost", "get_full_cost", "get_prev_best_param"}


def one(ctx, name, crate="egobox_ego", has=""):
    r = [f for f in ctx.prog.fns.values() if f.crate == crate and f.name == name and f.blocks and not f.generated() and has in f.short and f.kind != "closure"]
    if len(r) != 1:
        raise LookupError(f"{crate}:{has}::{name} matches {len(r)} functions")
    return r[0]


def bare(v):
    while True:
        if v.k == "call" and q.tail(v.d) in ("to_owned", "view", "clone", "into_owned", "as_ref", "into_pyarray", "to_pyarray", "into", "into_py", "unbind", "from_array", "cloned", "as_array", "readonly") and v.a:
            v = v.a[0]
        elif v.k == "sel" and v.d == "!":
            v = v.a[0]
        else:
            return v


def state_of(v):
    """the final state behind a `.state` field or accessor, as the set of runs it comes from"""
    out = set()
    for x in leaves(v):
        x = bare(x)
        if x.k == "call" and q.tail(x.d) == "state" and x.a or x.k == "sel" and x.d == "state":
            out |= {bare(y) for y in leaves(bare(x.a[0]))}
        else:
            out.add(x)
    return frozenset(out)


def flat(v):
    v = bare(v)
    if v.k == "phi":
        return [y for x in v.a for y in flat(x)]
    return [v]


def getter(v, names, fld):
    """v is the named getter (or the field) of a final state -> that state"""
    v = bare(v)
    if v.k == "phi":
        ss = [getter(x, names, fld) for x in v.a]
        return None if None in ss else frozenset(z for s in ss for z in s)
    if v.k == "call" and q.tail(v.d) in names:
        return state_of(v.a[0])
    if v.k == "sel" and v.d == fld:
        return state_of(v.a[0])
    return None


def component(v, k):
    """v is component k of the data of a final state -> that state"""
    v = bare(v)
    if v.k == "phi":
        ss = [component(x, k) for x in v.a]
        return None if None in ss else frozenset(z for s in ss for z in s)
    if v.k == "sel" and v.d == str(k):
        d = bare(v.a[0])
        if d.k == "call" and q.tail(d.d) == "take_data":
            return state_of(d.a[0])
        if d.k == "sel" and d.d == "data":
            return state_of(d.a[0])
    return None


def undecode(v, xtypes):
    """(what is decoded, whether it is one row of it) or None"""
    v = bare(v)
    row = False
    if v.k == "elem" and const_of(v.a[1]) == 0 or v.k == "call" and q.tail(v.d) in ("row", "index_axis", "remove_axis") and const_of(v.a[-1]) == 0:
        v = bare(v.a[0])
        row = True
    if v.k == "call" and q.tail(v.d) == "to_discrete_space" and bare(v.a[0]) in xtypes:
        w = bare(v.a[1])
        if w.k == "call" and q.tail(w.d) == "insert_axis" and w.a[1].k == "agg" and const_of(w.a[1].a[0]) == 0:
            return bare(w.a[0]), row
        return w, None if row else False
    return None


def cases(v, discrete):
    ds = [x for x in q.walk(v, control=True) if x.k == "call" and q.tail(x.d) == "discrete"]
    return q.assume(v, {d: mk("const", (discrete, "bool")) for d in ds}) if ds else v


def result(ctx, f):
    r = ctx.eval(f, opaque=lambda c, g: g.name in OPQ)
    v = payload(r.val())
    cfg = select(select(A[0], "solver"), "config")
    xt = {select(cfg, "xtypes")}
    final = None
    for d in (False, True):
        w = cases(v, d)
        part = {n: select(w, n) for n in ("x_opt", "y_opt", "x_doe", "y_doe", "state")}
        got = {}
        for n, dec, g in (("x_opt", True, lambda z: getter(z, ("get_best_param",), "best_param")), ("y_opt", False, lambda z: getter(z, ("get_full_best_cost",), "best_cost")),
                          ("x_doe", True, lambda z: component(z, 0)), ("y_doe", False, lambda z: component(z, 1))):
            for x in flat(part[n]):
                s = None
                u = undecode(x, xt) if dec else None
                if u is not None:
                    s = g(u[0]) if u[1] is (n == "x_opt") else None
                elif not (dec and d):
                    s = g(x)
                what = {"x_opt": "the decoded input of the best point" if d else "the input of the best point", "y_opt": "the outputs of the best point", "x_doe": "the recorded inputs" + (", decoded" if d else ""), "y_doe": "the recorded outputs"}[n]
                if ctx.ob(s is not None, f"result:{n}:{'discrete' if d else 'continuous'}", f"{f.short} reports {n} = {E.show(x, 6)[:240]}, not {what}", f.span):
                    got.setdefault(n, set()).add(s)
        sts = {frozenset(z for s in ss for z in s) for ss in got.values()}
        ctx.ob(len(sts) == 1, "result:one state", f"{f.short} reports input, outputs and history of different states", f.span)
        st = state_of(mk("sel", "state", (part["state"],))) if False else state_of(part["state"])
        ctx.ob(bool(sts) and st == next(iter(sts)), "result:state", f"{f.short} answers the state {E.show(part['state'], 4)[:200]} with the optimum of another one", f.span)
    ctx.count("fields of the result", 10)
    # what a run answers comes from the executor run on the objective and the solver of the instance
    runs = [x for x in q.walk(v, control=False) if x.k == "call" and q.tail(x.d) == "run" and "Executor" in x.d]
    ctx.floor("executor runs", len(runs), 1)


def state(ctx):
    f = one(ctx, "update", has="State")
    r = ctx.eval(f, opaque=lambda c, fn: fn.name == "find_best_result_index")
    fin = r.arg_final(0)
    S = A[0]
    facts = {x: num(1) for x in q.walk(fin, control=True) if x.k == "discr" and x.a[0] is select(S, "data")}
    data, bi = select(select(S, "data"), "!"), select(S, "best_index")
    rows = {}
    for known in (0, 1):
        fc = {**facts, **{x: num(known) for x in q.walk(fin, control=True) if x.k == "discr" and x.a[0] is bi}}
        for fld, part in (("best_cost", "1"), ("best_param", "0")):
            got = payload(q.assume(select(fin, fld), fc))
            ro = row_of(got)
            ok = ro is not None and ro[0] is select(data, part)
            ctx.ob(ok, f"update:{fld}", f"{f.short} sets {fld} to {E.show(got, 6)[:200]}, not a row of the recorded table", f.span)
            if ok:
                rows.setdefault(known, set()).add(ro[1])
        ctx.ob(len(rows.get(known, ())) == 1, "update:same row", f"{f.short} takes the best input and the best outputs from different rows: {[E.show(x, 4) for x in rows.get(known, ())]}", f.span)
    ctx.ob(rows.get(1) == {select(bi, "!")}, "update:row", f"{f.short} takes the best point from row {[E.show(x, 4) for x in rows.get(1, ())]} instead of the recorded best row", f.span)
    for nm, fld in (("get_best_param", "best_param"), ("get_full_best_cost", "best_cost"), ("take_data", "data")):
        g = one(ctx, nm, has="State")
        v = ctx.eval(g).val()
        ctx.ob(bare(v) is select(A[0], fld), f"accessor:{nm}", f"{g.short} answers {E.show(v, 4)}", g.span)


def discreteness(ctx):
    f = one(ctx, "discrete", has="misc")
    v = ctx.eval(f).val()
    if v.k == "call" and q.tail(v.d) == "any" and v.a[0] is A[0]:
        body = v.a[-1]
        kinds = ctx.prog.adt("XType", "egobox_ego")[0]["vs"]
        for i, k in enumerate(kinds):
            w = q.assume(body, {x: num(i) for x in q.walk(body, control=True) if x.k == "discr"})
            c = const_of(w)
            ctx.ob(c is not None and bool(c) is (k["n"] != "Float"), f"discrete:{k['n']}", f"{f.short} answers {E.show(w, 4)} for a {k['n']} variable: the optimum of such a space is {'not ' if k['n'] != 'Float' else ''}decoded", f.span)
        ctx.count("kinds of variables", len(kinds))
    elif v.k == "phi" and any(x.k == "discr" and q.tail(E.show(x.a[0], 1)).startswith("next") or x.k == "discr" for g in v.d for alt in g for x, _ in alt):
        kinds = ctx.prog.adt("XType", "egobox_ego")[0]["vs"]
        ds = {x for g in v.d for alt in g for c, _ in alt for x in q.walk(c, control=True) if x.k == "discr"}
        nx = {x for x in ds if x.a[0].k == "call" and x.a[0].d == "next"}
        el = {x for x in ds if x.a[0].k == "elem" and x.a[0].a[0] is A[0]}
        ctx.ob(bool(nx) and bool(el) and const_of(q.assume(v, {x: num(0) for x in nx})) is False, "discrete:none", f"{f.short} answers {E.show(v, 5)} when no variable is discrete", f.span)
        for i, k in enumerate(kinds):
            w = q.assume(v, {**{x: num(1) for x in nx}, **{x: num(i) for x in el}})
            ctx.ob((const_of(w) is True) is (k["n"] != "Float"), f"discrete:{k['n']}", f"{f.short} answers {E.show(w, 4)} for a {k['n']} variable: the optimum of such a space is {'not ' if k['n'] != 'Float' else ''}decoded", f.span)
        ctx.count("kinds of variables", len(kinds))
    else:
        ctx.ob(False, "discrete", f"{f.short} is not `some variable is discrete`: {E.show(v, 5)}", f.span)


def observer(ctx):
    f = one(ctx, "observe_iter")
    r = ctx.eval(f, opaque=lambda c, g: g.name in OPQ)
    n = 0
    for e in r.events(pred=lambda e: q.tail(e.name) == "write_npy"):
        v = bare(e.args[1])
        txt = E.show(e.args[0], 6)
        ok = v.k == "call" and q.tail(v.d) == "concatenate" and const_of(v.a[0].a[0]) == 1 and v.a[1].k == "agg"
        parts = v.a[1].a if ok else ()
        if "doe" in txt:
            n += 1
            data = select(select(A[1], "data"), "!")
            ctx.ob(ok and [bare(x) for x in parts] == [select(data, str(k)) for k in range(3)], "observer:doe", f"{f.short} saves {E.show(v, 5)[:200]} as history, not the recorded inputs, outputs and constraint values side by side", f.span)
        else:
            n += 1
            good = ok and len(parts) == 2
            for x, (nm, fld) in zip(parts, (("get_full_best_cost", "best_cost"), ("get_best_param", "best_param"))):
                for w in leaves(bare(x)):
                    w = bare(w)
                    if w.k == "call" and q.tail(w.d) == "concatenate" and const_of(w.a[0].a[0]) == 0:
                        w = bare(w.a[1].a[-1])
                    for y in leaves(w):
                        y = bare(y)
                        if y.k == "call" and q.tail(y.d) == "insert_axis":
                            y = bare(y.a[0])
                        okk = (y.k == "call" and q.tail(y.d) == nm or y.k == "sel" and y.d == fld) and any(z is A[1] for z in q.walk(y, control=False))
                        good = good and okk
            ctx.ob(good, "observer:best", f"{f.short} saves {E.show(v, 6)[:240]}, not the outputs and inputs of the successive best points", f.span)
    ctx.floor("files of the observer", n, 2)


def python(ctx):
    f = one(ctx, "get_result", "egobox", "Egor")
    v = payload(ctx.eval(f, opaque=lambda c, g: g.name in OPQ).val())
    idx = set()
    for n, t in (("x_opt", 2), ("y_opt", 3)):
        w = bare(select(v, n))
        ok = w.k == "elem" and bare(w.a[0]) is A[t] and all(E.show(z, 2) == "[:]" for z in w.a[2:])
        if ctx.ob(ok, f"py:{n}", f"{f.short} answers {n} = {E.show(w, 6)[:200]}, not a row of the given table", f.span):
            idx.add(w.a[1])
    ok = len(idx) == 1
    i = next(iter(idx)) if idx else None
    ok = ok and i.k == "call" and q.tail(i.d) == "find_best_result_index" and bare(i.a[0]) is A[3]
    ctx.ob(ok, "py:index", f"{f.short} takes the optimum from {[E.show(x, 4) for x in idx]}, not from one row, the best of the given outputs", f.span)
    for n, t in (("x_doe", 2), ("y_doe", 3)):
        ctx.ob(bare(select(v, n)) is A[t], f"py:{n}", f"{f.short} answers {n} = {E.show(select(v, n), 4)}", f.span)
    f = one(ctx, "get_result_index", "egobox", "Egor")
    w = ctx.eval(f, opaque=lambda c, g: g.name in OPQ).val()
    ctx.ob(w.k == "call" and q.tail(w.d) == "find_best_result_index" and bare(w.a[0]) is A[1], "py:get_result_index", f"{f.short} answers {E.show(w, 4)}", f.span)
    f = one(ctx, "minimize", "egobox", "Egor")
    v = payload(ctx.eval(f, opaque=lambda c, g: g.name in OPQ | {"run"}).val())
    src = set()
    for n in ("x_opt", "y_opt", "x_doe", "y_doe"):
        w = bare(select(v, n))
        ok = w.k == "sel" and w.d == n
        ctx.ob(ok, f"py:minimize:{n}", f"{f.short} answers {n} = {E.show(w, 4)[:200]}", f.span)
        src.add(w.a[0] if ok else w)
    ctx.ob(len(src) == 1, "py:minimize", f"{f.short} mixes results", f.span)
    ctx.count("Python results", 3)


def run(ctx):
    ctx.rule = ("After update, best input and best outputs are the same row (the recorded best one) of the recorded tables; Egor::run answers the best input and outputs and the recorded tables of one final state, inputs going through the decoding by the declared types whenever some variable is discrete; "
                "the observer saves the recorded tables and the successive best points; the Python results are rows of the given tables at one index, or the fields of the Rust result")
    state(ctx)
    discreteness(ctx)
    result(ctx, one(ctx, "run", has="Egor"))
    observer(ctx)
    python(ctx)
