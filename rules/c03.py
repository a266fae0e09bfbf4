"""C03: Latin hypercube samples keep one point per stratum in every dimension, whatever the kind."""
from vp import engine as E, q
from vp.engine import ALL, mk
from rules.c02 import strat, NS

ASSUMPTIONS = ["slice::shuffle permutes the slice it is given", "ArrayBase::swap exchanges two elements",
               "Array::linspace(0,1,n+1) gives the n+1 stratum edges"]


def run(ctx):
    ctx.rule = ("Every value that can be stored in the sample returned by the Latin hypercube sampler must be `lower edge + t*width` of the stratum of its row, t in [0,1], "
                "written over a whole column; afterwards the buffers may only be permuted inside one column (shuffle of a 1-D column, swap of two cells with the same column "
                "index) or copied column-wise / whole.")
    impls = [f for f in ctx.impls("SamplingMethod", "normalized_sample") if f.selfh.split("<")[0].endswith("::Lhs")]
    ctx.floor("Latin hypercube samplers", len(impls), 1)
    for f in impls:
        r = ctx.eval(f, selfty=f.selfh)
        n = r.val()
        eng = r.eng
        vals, perms, writes, inits = q.contents(n, eng)
        ctx.floor("values stored in LHS buffers", len(vals), 2)
        for v in vals:
            ctx.ob(strat(v, NS), f"stratum:{'value'}", f"a value stored in the sample is {E.show(v, 7)}, not `lower edge + t*width` of its stratum", f.span)
        ctx.floor("permutations applied to LHS buffers", len(perms), 2)
        pats = {w for w in writes if swap_pattern(w)}
        pats |= {w.a[0] for w in pats}
        for p in perms:
            t = q.tail(p.d[0])
            if t in ("shuffle",):
                ctx.ob(one_column(p.a[0], eng), "perm:shuffle", f"shuffle is applied to {E.show(p.a[0], 5)}: not a single column", f.span)
            elif t == "swap" and len(p.a) == 3 and not list_like(p.a[0], eng):
                a, b = p.a[1], p.a[2]
                good = a.k == "agg" and b.k == "agg" and len(a.a) == 2 and len(b.a) == 2 and a.a[1] is b.a[1]
                ctx.ob(good, "perm:swap", f"swap exchanges cells {E.show(a, 5)} and {E.show(b, 5)}: not in the same column", f.span)
            else:
                ctx.ob(one_column(p.a[0], eng) or list_like(p.a[0], eng), f"perm:{t}", f"{t} permutes {E.show(p.a[0], 5)}, not inside a single column", f.span)
        for w in writes:
            if w in pats or w.a[2:] and len(w.a[2:]) == 1:
                if len(w.a[2:]) == 1 and w.a[1].k in ("op",) and not strat(w.a[1], NS):
                    ctx.fail("write:partial", f"element write {E.show(w, 5)}", f.span)
                continue
            idx = w.a[2:]
            row = idx[0]
            v = w.a[1]
            whole = row is ALL or (q.is_range(row) and E.is_num(row.a[0], 0) and row.a[1] is NS and strat(v, NS))
            ctx.ob(whole, "write:column", f"cells {E.show(idx[0], 4)},{E.show(idx[1], 4)} are overwritten with {E.show(v, 5)}: not a whole column nor an exchange inside a column", f.span)
    ctx.notes.append("both mid-point and uniform-in-stratum placements are accepted (t in [0,1])")


def swap_pattern(w):
    """wr(wr(b, b[i2,k], i1,k), b[i1,k], i2,k)"""
    if len(w.a) != 4 or w.a[0].k != "wr" or len(w.a[0].a) != 4:
        return False
    o = w.a[0]
    b = o.a[0]
    i1, k1 = o.a[2:]
    i2, k2 = w.a[2:]
    return k1 is k2 and o.a[1] is E.elem(b, i2, k1) and w.a[1] is E.elem(b, i1, k1)


def list_like(n, eng):
    """a Vec of plans"""
    return any(x.k == "call" and x.d.endswith("with_capacity") for x in q.contents(n, eng)[3])


def one_column(n, eng):
    if n.k == "elem" and len(n.a) == 3:
        return n.a[1] is ALL and n.a[2] is not ALL
    vals, perms, writes, inits = q.contents(n, eng)
    for x in list(inits) + [y for v in vals for y in q.walk(v, eng)]:
        if x.k == "call" and x.a and q.tail(x.d) in ("zeros", "random_using", "uninit"):
            s = x.a[0]
            if s.k == "call" and s.d.endswith("::f"):
                s = s.a[0]
            if s.k == "agg":
                return False
    return not any(len(w.a) > 3 for w in writes)
