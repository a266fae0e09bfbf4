"""C33: suggesting points evaluates nothing and changes nothing given."""
from vp import engine as E, q
from vp.engine import mk, num, select, const_of
from vp.facts import callee_name
from vp.graph import Graph, sites
from rules.c06 import tab, steps, grown, opq, is_call
from rules.c07 import ALLMU
from rules.c08 import bare, one

ASSUMPTIONS = ["an ndarray reached through a shared reference or a read-only NumPy borrow is not written to (guaranteed by the borrow checker in safe code, C30 for unsafe code)",
               "the user's functions are called through the traits CostFunction, Fn and the Python call protocol only"]
A = [mk("param", f"a{i}") for i in range(6)]
# calls which run a user function, an optimization or write a file
COST = {("CostFunction", "cost"), ("CostFunction", "bulk_cost"), ("CostFunction", "parallelizable_bulk_cost"), ("Problem", "problem"), ("Problem", "bulk_problem"), ("CostFunction", "bulk")}
RUN = {("Executor", "run"), ("Solver", "init"), ("Solver", "next_iter"), ("Egor", "run")}
PYCALL = {"call", "call0", "call1", "call_method", "call_method0", "call_method1"}


def sink(c):
    n = callee_name(c) or ""
    parts = tuple(n.split("::")[-2:])
    if parts in COST:
        return "evaluates the objective function"
    if parts in RUN:
        return "runs an optimization"
    if c.get("krate", "").startswith("pyo3") and parts[-1] in PYCALL:
        return "calls a Python object"
    return None


def entries(ctx):
    return sorted((f for f in ctx.prog.fns.values() if f.name == "suggest" and f.crate in ("egobox_ego", "egobox") and f.blocks and not f.generated()), key=lambda f: f.short + f.crate)


def run(ctx):
    ctx.rule = ("No call which evaluates an objective function, calls a Python object or runs an optimization is reachable from the entry points which suggest points, through any implementation of the traits used; no given table is borrowed mutably; "
                "the answer is the table selected from the given data, encoded and decoded with the configured variable types, to which each turn of a loop over the configured batch size adds one row; the functions of constraints handed to the selection are none.")
    prog = ctx.prog
    G = Graph(prog)
    roots = entries(ctx)
    ctx.floor("entry points which suggest points", len(roots), 3)
    every = {f.h: None for f in prog.fns.values() if f.crate in ("egobox_ego", "egobox")}
    ctx.floor("calls which evaluate or run, in the whole program", sum(1 for f, b, t, c in sites(prog, every) if c and sink(c)), 4)
    for r in roots:
        seen = G.reach([r])
        n = 0
        for f, bi, t, c in sites(prog, seen):
            n += 1
            if not c:
                continue
            s = sink(c)
            if s:
                ctx.ob(False, f"reach:{r.short}", f"{r.short} {s}: {callee_name(c)} is called in {G.path(seen, f.h)}", t.get("s"))
        ctx.ob(True, f"reach:{r.short}", "", r.span)
        ctx.count("call sites reachable from suggest", n)
        ctx.floor(f"functions reachable from {r.short}", len(seen), 200)
        for i in range(r.argc):
            ty = r.locals[i + 1][0]
            ctx.ob("&mut " not in ty and "Readwrite" not in ty and not ("&'" in ty and " mut " in ty), f"given:{r.short}", f"{r.short} takes a mutable {ty}", r.span)
    service(ctx)
    solver(ctx)
    batch(ctx)
    python(ctx)


def service(ctx):
    f = one(ctx, "suggest", "egobox_ego", "EgorServiceApi")
    v = bare(ctx.eval(f, opaque=lambda c, g: g.name in ("suggest", "to_discrete_space", "to_continuous_space")).val())
    solver = select(A[0], "solver")
    types = select(select(solver, "config"), "xtypes")
    ok = is_call(v, "to_discrete_space") and bare(v.a[0]) is types
    ctx.ob(ok, "service:decode", f"{f.short} answers {E.show(v, 5)[:300]}, not the points decoded with the configured variable types", f.span)
    if ok:
        s = bare(v.a[1])
        ok = is_call(s, "suggest") and bare(s.a[0]) is solver
        ctx.ob(ok, "service:points", f"{f.short} answers {E.show(s, 5)[:300]}, not the points suggested by the solver", f.span)
        if ok:
            x = bare(s.a[1])
            ctx.ob(is_call(x, "to_continuous_space") and bare(x.a[0]) is types and bare(x.a[1]) is A[1], "service:given x", f"{f.short} hands over the inputs {E.show(x, 5)[:300]}, not the given ones encoded with the configured variable types", f.span)
            ctx.ob(bare(s.a[2]) is A[2], "service:given y", f"{f.short} hands over the outputs {E.show(s.a[2], 5)[:300]}, not the given ones", f.span)


def solver(ctx):
    f = one(ctx, "suggest", "egobox_ego", "EgorSolver")
    v = bare(ctx.eval(f, opaque=lambda c, g: g.name in ("select_next_points", "find_best_result_index", "is_feasible")).val())
    ok = v.k == "sel" and v.d == "0" and is_call(v.a[0], "select_next_points")
    if not ctx.ob(ok, "solver:points", f"{f.short} answers {E.show(v, 4)[:300]}, not the selected inputs", f.span):
        return
    a = [tab(x) for x in v.a[0].a]
    tables = [x for x in a if x is A[1] or x is A[2]]
    ctx.ob(a[7] is A[1] and a[8] is A[2] and len(tables) == 2, "solver:given", f"{f.short} selects points from the inputs {E.show(a[7], 4)} and outputs {E.show(a[8], 4)}, not from the given data", f.span)
    best = a[11]
    ok = is_call(best, "find_best_result_index") and tab(best.a[0]) is A[2]
    ctx.ob(ok, "solver:best", f"{f.short} takes {E.show(best, 5)[:300]} for the index of the best of the given points", f.span)
    fc = a[12]
    ok = is_call(fc, "new", "with_capacity") or fc.k == "agg" and not fc.a
    ctx.ob(ok, "solver:constraints", f"{f.short} hands over functions of constraints {E.show(fc, 4)[:200]}: they would be called", f.span)


def batch(ctx):
    f = one(ctx, "select_next_points", "egobox_ego", "")
    r = ctx.eval(f, opaque=opq("select_next_points"))
    n = 0
    for p in q.walk(r.val(), ALLMU, control=True):
        if p.k == "eff" and q.tail(p.d[0]) == "push" and p.d[1] == 0 and p.a[1].k == "agg" and len(p.a[1].a) >= 3:
            n += 1
            m = tab(p.a[1].a[0])
            if not ctx.ob(m.k == "mu" and grown(m) is not None, "batch:grow", f"{f.short}: the table of suggested points is {E.show(m, 4)[:200]}, not one to which points are added", f.span):
                continue
            ls = list(E.LOOPS.get(m.d[:2], ()))
            ok = len(ls) == 1 and ls[0].k == "agg" and ls[0].d[1] == "Range" and const_of(ls[0].a[0]) == 0 and ls[0].a[1] is select(select(A[0], "config"), "q_points")
            ok = ok or not ls and counted(r, m, select(select(A[0], "config"), "q_points"))
            ctx.ob(ok, "batch:size", f"{f.short} adds points for {[E.show(x, 5) for x in ls]}, not for each of the configured batch size", f.span)
            ctx.ob(all(x is not m for g, x in steps(m)), "batch:each", f"{f.short} goes on to the next point of the batch without adding the current one", f.span)
    ctx.floor("batches of points", n, 1)


def counted(r, m, bound):
    """the loop of m turns while a counter from 0, incremented at each turn, is less than the bound"""
    cs = [k for k, ops in E.MU.items() if k.d[:2] == m.d[:2] and len(ops) == 2 and const_of(ops[0]) == 0 and ops[1].k == "op" and ops[1].d == "Add" and k in ops[1].a and any(const_of(x) == 1 for x in ops[1].a)]
    for e in r.events(pred=lambda e: q.tail(e.name or "") == "optimize_infill_criterion"):
        for c, edge in e.guards():
            for k in cs:
                if c.k == "op" and c.d == "Lt" and c.a[0] is k and c.a[1] is bound and (edge[0] == "in") == ("1" in edge[1:]):
                    return True
    return False


def python(ctx):
    f = one(ctx, "suggest", "egobox", "Egor")
    v = bare(ctx.eval(f, opaque=lambda c, g: g.name in ("suggest", "apply_config", "parse")).val())
    while v.k == "call" and q.tail(v.d) in ("into", "unbind", "to_pyarray", "into_pyarray", "from_owned_array") and v.a:
        v = bare(v.a[-1] if q.tail(v.d) == "from_owned_array" else v.a[0])
    if is_call(v, "detach", "allow_threads"):
        v = bare(v.a[1])
    if not ctx.ob(is_call(v, "suggest"), "python:points", f"{f.short} answers {E.show(v, 4)[:300]}, not the points suggested by the service", f.span):
        return
    given = [i for i in range(f.argc) if "PyReadonlyArray" in f.locals[i + 1][0]]
    for k, i in enumerate(given[:2]):
        x = bare(v.a[1 + k])
        while x.k == "call" and q.tail(x.d) in ("as_array", "view", "to_owned") and x.a:
            x = bare(x.a[0])
        ctx.ob(x is A[i], "python:given", f"{f.short} hands over {E.show(x, 4)[:200]}, not the given data", f.span)
    ctx.ob(len(given) == 2, "python:given", f"{f.short} takes {len(given)} read-only tables", f.span)
    types = [x for x in q.walk(v.a[0]) if is_call(x, "parse")]
    ok = bool(types) and all(q.uses(x.a[1], lambda z: z is select(A[0], "xspecs")) for x in types)
    ctx.ob(ok, "python:types", f"{f.short} does not declare the variable types the optimizer was given", f.span)
