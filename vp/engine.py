"""Abstract interpreter over MIR: builds, for a function and everything it calls in the workspace, a hash-consed
value graph (what each result, mutated place and call argument is computed from). No program value is ever computed
from test input: parameters are symbols, loops are `mu` nodes, joins are `phi` nodes guarded by branch conditions.

Node kinds
  const param undef     leaves
  sel(f) elem           field / element of a value; field '!' is the payload of Some/Ok/Continue
  op                    arithmetic, comparison (Gt/Ge are rewritten to Lt/Le)
  call                  result of a function that is not inlined
  eff                   state of a `&mut` argument after such a call
  agg                   struct / enum variant / tuple / array
  clo fn                closures, function items
  ref mref              pointers (to a cell); view with a pointer into a cell
  phi mu                join; loop-carried value
  upd wr                struct with replaced fields; array with a replaced element / region
  discr                 discriminant
"""
import re, sys
from . import facts
from .facts import callee_name, last_ident

sys.setrecursionlimit(60000)

_tab = {}
_cnt = [0]


class Node:
    __slots__ = ("k", "d", "a", "ref", "i", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(k, d=None, a=()):
    key = (k, d, a)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.k, n.d, n.a = k, d, a
        n.ref = k == "ref" or any(x.ref for x in a)
        n.i = _cnt[0]
        _cnt[0] += 1
        _tab[key] = n
    return n


UNDEF = mk("undef")
ANY = mk("param", "*")


def num(v):
    return mk("const", (v, "num"))


def boolc(b):
    return mk("const", (bool(b), "bool"))


def const_of(n):
    return n.d[0] if n.k == "const" else None


def is_num(n, v=None):
    if n.k != "const" or n.d[1] != "num":
        return False
    return v is None or n.d[0] == v


def show(n, depth=6):
    if depth == 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if n.k == "const":
        return str(n.d[0])
    if n.k == "param":
        return str(n.d)
    if n.k == "undef":
        return "⊥"
    if n.k == "sel":
        return f"{s(n.a[0])}.{n.d}"
    if n.k == "elem":
        return f"{s(n.a[0])}[{', '.join(s(x) for x in n.a[1:])}]"
    if n.k == "op":
        return f"{n.d}({', '.join(s(x) for x in n.a)})"
    if n.k in ("call",):
        return f"{n.d}({', '.join(s(x) for x in n.a)})"
    if n.k == "eff":
        return f"eff:{n.d[0]}#{n.d[1]}({', '.join(s(x) for x in n.a)})"
    if n.k == "agg":
        ad, var, _, fs = n.d
        h = last_ident(ad) if ad not in ("tuple", "array") else ""
        h = h + ("::" + var if var and var != h else "")
        if fs and not fs[0].isdigit():
            return h + "{" + ", ".join(f"{f}:{s(x)}" for f, x in zip(fs, n.a)) + "}"
        return h + "(" + ", ".join(s(x) for x in n.a) + ")"
    if n.k == "upd":
        return s(n.a[0]) + "{" + ", ".join(f"{f}:={s(x)}" for f, x in zip(n.d, n.a[1:])) + "}"
    if n.k == "phi":
        return "φ(" + " | ".join(s(x) for x in n.a) + ")"
    if n.k == "mu":
        return f"µ{n.i}"
    if n.k == "ref":
        return f"&{'mut ' if n.d[2] else ''}{n.d[0]}{list(n.d[1])}"
    if n.k == "mref":
        return f"mref({s(n.a[0])})"
    if n.k == "wr":
        return f"wr({', '.join(s(x) for x in n.a)})"
    return f"{n.k}:{n.d}({', '.join(s(x) for x in n.a)})"


# ------------------------------------------------------------ structural constructors
PAY = {"Some.0": "!", "Ok.0": "!", "Continue.0": "!"}
GOOD = {"Some", "Ok", "Continue"}
BAD = {"None", "Err", "Break"}


def agg(adt, var, vi, fs, vals):
    return mk("agg", (adt, var, vi, tuple(fs)), tuple(vals))


def tup(*vals):
    return agg("tuple", "", 0, tuple(str(i) for i in range(len(vals))), vals)


def some(v):
    return agg("std::option::Option", "Some", 1, ("0",), (v,))


NONE = agg("std::option::Option", "None", 0, (), ())


def ok(v):
    return agg("std::result::Result", "Ok", 0, ("0",), (v,))


def err(v):
    return agg("std::result::Result", "Err", 1, ("0",), (v,))


def _aggkey(n, f):
    """index of field f in agg n; -1 no such field; None other variant"""
    ad, var, vi, fs = n.d
    if f == "!":
        if var in GOOD:
            return 0
        return None if var in BAD else -1
    if "." in f:
        v, g = f.split(".", 1)
        if v != var:
            return None
        f = g
    try:
        return fs.index(f)
    except ValueError:
        return -1


def select(n, f):
    f = PAY.get(f, f)
    k = n.k
    if k == "agg":
        i = _aggkey(n, f)
        if i is None:
            return UNDEF
        if i >= 0:
            return n.a[i]
        return mk("sel", f, (n,))
    if k == "upd":
        if f in n.d:
            return n.a[1 + n.d.index(f)]
        return select(n.a[0], f)
    if k == "phi":
        return phi([(g, select(v, f)) for g, v in zip(n.d, n.a)])
    if k == "undef":
        return n
    if k == "mref":
        return mk("mref", None, (select(n.a[0], f),) + n.a[1:])
    if k == "clo":
        i = int(f) if f.isdigit() else -1
        if 0 <= i < len(n.a):
            return n.a[i]
    if f == "!" and k == "call":
        if n.d == "Try::branch":
            return select(n.a[0], "!")
        if n.d == "next":
            return n.a[0]
    if f == "Break.0" and k == "call" and n.d == "Try::branch":
        return n.a[0]
    if k == "ref":
        return mk("ref", (n.d[0], n.d[1] + (f,), n.d[2]))
    return mk("sel", f, (n,))


STAR = mk("param", "[*]")  # some element
ALL = mk("param", "[:]")  # the whole axis


def elem(n, *idx):
    k = n.k
    if k == "agg" and n.d[0] == "array" and len(idx) == 1:
        c = const_of(idx[0])
        if isinstance(c, int) and 0 <= c < len(n.a):
            return n.a[c]
        if idx[0] is STAR and n.a and all(x is n.a[0] for x in n.a):
            return n.a[0]
    if k == "wr":
        if n.a[2:] == idx and idx[0] is not STAR:
            return n.a[1]
        if all(const_of(x) is not None for x in n.a[2:] + idx) and len(n.a[2:]) == len(idx) and n.a[2:] != idx:
            return elem(n.a[0], *idx)
    if k == "ref":
        return mk("ref", (n.d[0], n.d[1] + (idx,), n.d[2]))
    if k == "mref":
        return mk("mref", None, (elem(n.a[0], *idx),) + n.a[1:])
    if k == "undef":
        return n
    if k == "phi" and len(n.a) <= 4:
        return phi([(g, elem(v, *idx)) for g, v in zip(n.d, n.a)])
    return mk("elem", None, (n,) + idx)


def setfield(base, f, v):
    f = PAY.get(f, f)
    if select(base, f) is v and base.k != "undef":
        return base
    if base.k == "agg":
        i = _aggkey(base, f)
        if i is not None and i >= 0:
            return mk("agg", base.d, base.a[:i] + (v,) + base.a[i + 1:])
    if base.k == "upd":
        if f in base.d:
            i = base.d.index(f)
            if select(base.a[0], f) is v:
                d = base.d[:i] + base.d[i + 1:]
                a = base.a[:1 + i] + base.a[2 + i:]
                return mk("upd", d, a) if d else base.a[0]
            return mk("upd", base.d, base.a[:1 + i] + (v,) + base.a[2 + i:])
        it = sorted(list(zip(base.d, base.a[1:])) + [(f, v)], key=lambda x: x[0])
        return mk("upd", tuple(x for x, _ in it), (base.a[0],) + tuple(y for _, y in it))
    return mk("upd", (f,), (base, v))


def write_path(base, path, v):
    if not path:
        return v
    p = path[0]
    if isinstance(p, str):
        return setfield(base, p, write_path(select(base, p), path[1:], v))
    inner = write_path(elem(base, *p), path[1:], v)
    return mk("wr", None, (base, inner) + p)


def read_path(base, path):
    for p in path:
        base = select(base, p) if isinstance(p, str) else elem(base, *p)
    return base


NOG = frozenset([frozenset()])


def phi(alts):
    """alts: [(guards DNF frozenset of frozenset of (cond, edge)), value]"""
    m = {}
    for g, v in alts:
        if v.k == "undef":
            continue
        if v.k == "phi" and False:
            continue
        m[v] = (m[v] | g) if v in m else g
    if not m:
        return UNDEF
    vals = list(m)
    if len(vals) == 1:
        return vals[0]
    f = vals[0]
    if f.k == "agg" and all(v.k == "agg" and v.d == f.d for v in vals) and f.a:
        return mk("agg", f.d, tuple(phi([(m[v], v.a[i]) for v in vals]) for i in range(len(f.a))))
    bases = {(v.a[0] if v.k == "upd" else v) for v in vals}
    if len(bases) == 1:
        b = bases.pop()
        fs = sorted({x for v in vals if v.k == "upd" for x in v.d})
        for x in fs:
            b2 = phi([(m[v], select(v, x)) for v in vals])
            b = setfield(b, x, b2)
        return b
    vals.sort(key=lambda v: v.i)
    return mk("phi", tuple(m[v] for v in vals), tuple(vals))


def gand(a, b):
    """conjunction of two guards (weakened when it gets large)"""
    if a == NOG or a == b:
        return b
    if b == NOG:
        return a
    if len(a) * len(b) > 24:
        return b
    return frozenset(x | y for x in a for y in b)


COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor", "max", "min"}


def op(name, *a):
    if name == "Gt":
        name, a = "Lt", (a[1], a[0])
    elif name == "Ge":
        name, a = "Le", (a[1], a[0])
    cs = [const_of(x) for x in a]
    if all(c is not None and not isinstance(c, str) for c in cs):
        try:
            r = _fold(name, cs)
        except Exception:
            r = None
        if r is not None:
            return boolc(r) if isinstance(r, bool) else num(r)
    if name in ("Eq", "Ne") and len(a) == 2 and all(x.k == "agg" and not x.a for x in a) and a[0].d[0] == a[1].d[0]:
        return boolc((a[0] is a[1]) == (name == "Eq"))
    if name in ("Eq", "Ne") and all(isinstance(c, str) for c in cs):
        return boolc((cs[0] == cs[1]) == (name == "Eq"))
    if name == "Not" and a[0].k == "op" and a[0].d == "Not":
        return a[0].a[0]
    if name == "Not" and a[0].k == "op" and a[0].d in ("Eq", "Ne"):
        return op({"Eq": "Ne", "Ne": "Eq"}[a[0].d], *a[0].a)
    if name in COMM:
        a = tuple(sorted(a, key=lambda x: x.i))
    return mk("op", name, tuple(a))


def _fold(name, c):
    if name == "Add":
        return c[0] + c[1]
    if name == "Sub":
        return c[0] - c[1]
    if name == "Mul":
        return c[0] * c[1]
    if name == "Div":
        if c[1] == 0:
            return None
        if float(c[0]).is_integer() and float(c[1]).is_integer():
            return int(c[0]) // int(c[1]) if c[0] % c[1] == 0 else None
        return c[0] / c[1]
    if name == "Rem":
        return c[0] % c[1]
    if name == "Eq":
        return c[0] == c[1]
    if name == "Ne":
        return c[0] != c[1]
    if name == "Lt":
        return c[0] < c[1]
    if name == "Le":
        return c[0] <= c[1]
    if name == "Not" and isinstance(c[0], bool):
        return not c[0]
    if name == "Neg":
        return -c[0]
    if name in ("max", "min"):
        return (max if name == "max" else min)(c)
    if name == "sqrt":
        return float(c[0]) ** 0.5
    if name == "BitAnd" and isinstance(c[0], (bool, int)):
        return c[0] & c[1]
    if name == "BitOr":
        return c[0] | c[1]
    return None


def rebuild(n, a):
    if n.k == "phi":
        return phi(list(zip(n.d, a)))
    if n.k == "sel":
        return select(a[0], n.d)
    if n.k == "elem":
        return elem(*a)
    if n.k == "op":
        return op(n.d, *a)
    if n.k == "upd":
        b = a[0]
        for f, v in zip(n.d, a[1:]):
            b = setfield(b, f, v)
        return b
    return mk(n.k, n.d, tuple(a))


MUTTY = re.compile(r"&('\w+ )?mut |Mut\b|Guard<|RawViewRepr|Entry<|Drain")


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("id", "fn", "parent", "block", "selfty", "sw", "depth", "chain")

    def __init__(self, id, fn, parent, block, selfty):
        self.id, self.fn, self.parent, self.block, self.selfty = id, fn, parent, block, selfty
        self.sw = {}
        self.depth = parent.depth + 1 if parent else 0
        self.chain = (parent.chain if parent else ()) + (fn.h,)

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.fn.short)
            f = f.parent
        return out[::-1]


def narrow(fr, o):
    """is the operand already of a small type (characters, booleans, discriminants)"""
    pl = o.get("pl")
    return not pl or bool(pl["p"]) or fr.fn.locals[pl["l"]][0] not in ("usize", "u64", "i64", "isize", "u32", "i32", "u128", "i128")


class Event:
    """a call that was interpreted: the callee, its arguments (values) and result"""
    __slots__ = ("name", "callee", "args", "raw", "res", "frame", "block", "span", "inlined", "env")

    def guards(self):
        return guards_of(self.frame, self.block)

    def where(self):
        return f"{self.span} in {self.frame.fn.short}"

    def __repr__(self):
        return f"<{self.name}({', '.join(show(a, 4) for a in self.args)}) @{self.span} {'>'.join(self.frame.stack())}>"


def edge_atoms(fr, edges):
    """conditions of a conjunction of branch edges; several edges of one branch mean any of them"""
    by = {}
    for a, s in edges:
        by.setdefault(a, set()).add(s)
    out = set()
    for a, ss in by.items():
        c = fr.sw.get(a)
        if c is None:
            continue
        cond, vals, ts = c
        if all(t in ss for t in ts if t in fr.fn.graph().succ[a]):
            continue
        if ts[-1] in ss and not (len(ts) == len(vals)):
            out.add((cond, ("notin",) + tuple(v for v, t in zip(vals, ts) if t not in ss)))
        else:
            out.add((cond, ("in",) + tuple(v for v, t in zip(vals, ts) if t in ss)))
    return out


def guards_of(fr, block):
    """set of (condition node, edge) that hold whenever the block is reached, through the call stack"""
    out = set()
    while fr:
        D = fr.fn.graph().dnf(block)
        if D:
            br = set.intersection(*[{a for a, _ in t} for t in D])
            out |= edge_atoms(fr, {e for t in D for e in t if e[0] in br})
        block = fr.block
        fr = fr.parent
    return out


NOINLINE_TRAITS = {"Debug", "Display", "Serialize", "Deserialize", "Hash", "Error", "Visitor", "LowerExp", "ToString",
                   "DeserializeSeed", "IntoPyObject", "PyClassImpl"}

# functions whose result is their (first) argument, as a value or as a pointer to it
IDENT = {
    "Clone::clone", "ToOwned::to_owned", "Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
    "AsRef::as_ref", "AsMut::as_mut", "Box::new", "Rc::new", "Arc::new", "Option::as_ref", "Option::as_mut", "Option::as_deref",
    "Option::as_deref_mut", "Result::as_ref", "Result::as_mut", "Option::cloned", "Option::copied", "Cow::into_owned", "IntoIterator::into_iter",
    "ArrayBase::to_owned", "ArrayBase::into_owned", "ArrayBase::view", "ArrayBase::view_mut", "ArrayBase::iter", "ArrayBase::iter_mut",
    "ArrayBase::to_vec", "ArrayBase::into_iter", "ArrayBase::reborrow", "ArrayRef::to_owned", "ArrayRef::view", "ArrayBase::into_dyn",
    "slice::iter", "slice::iter_mut", "slice::to_vec", "Vec::as_slice", "Vec::as_mut_slice", "Vec::into_boxed_slice", "slice::into_vec",
    "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::collect", "Iterator::into_iter", "Into::into", "ArrayBase::rows", "ArrayBase::rows_mut",
    "ArrayBase::outer_iter", "ArrayBase::outer_iter_mut",
    "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "ParallelIterator::collect", "ParallelIterator::cloned",
    "Iterator::peekable", "Box::leak", "hint::must_use", "Iterator::fuse", "slice::as_ref", "slice::as_slice", "ArrayBase::as_slice_x", "mem::take_x",
    "NdProducer::into_producer", "IntoNdProducer::into_producer", "ArrayView::reborrow", "Rc::clone", "Vec::iter", "String::as_str", "String::from", "str::to_owned", "str::to_string",
    "ToString::to_string", "From::from", "ArrayBase::from_vec", "ArrayBase::from", "convert::identity", "linfa::view", "Float::cast", "linfa::cast", "NumCast::from",
    "ToPrimitive::to_f64", "FromPrimitive::from_f64", "Vec::into_iter", "Iterator::rev", "Iterator::filter_x",
    "IndexedRandom::x", "Vec::from", "array::map_x", "CowArray::from", "box_new", "Pin::new", "ManuallyDrop::new", "CowRepr::into_owned", "Lanes::into_iter", "ArrayBase::into_iter",
    "Iterator::chain_x", "once_cell::get", "ArrayBase::genrows", "Zip::from_x", "Result::copied", "Result::cloned", "slice::as_mut_ptr_x", "Path::new", "Path::to_path_buf", "PathBuf::from",
    "OsStr::to_str_x", "num::abs_diff_x", "ArrayBase::into_dimensionality", "ArrayBase::mapv_into_x", "arr1", "free_functions::arr1", "free_functions::arr2", "free_functions::aview1", "Box::from", "ptr::read_x",
    "boxed::box_new",
}
# identities for which payload is taken
PAYID = {"Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked",
         "Option::unwrap_or_default", "Result::unwrap_or_default"}
ARITH = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div", "Rem::rem": "Rem", "Neg::neg": "Neg",
         "Not::not": "Not", "BitAnd::bitand": "BitAnd", "BitOr::bitor": "BitOr",
         "PartialOrd::lt": "Lt", "PartialOrd::le": "Le", "PartialOrd::gt": "Gt", "PartialOrd::ge": "Ge",
         "PartialEq::eq": "Eq", "PartialEq::ne": "Ne"}
ASSIGN = {"AddAssign::add_assign": "Add", "SubAssign::sub_assign": "Sub", "MulAssign::mul_assign": "Mul", "DivAssign::div_assign": "Div"}
MATH = {"abs", "sqrt", "exp", "ln", "log10", "log", "log2", "powi", "powf", "max", "min", "floor", "ceil", "round", "tanh", "sin", "cos", "recip", "is_nan", "is_finite", "is_infinite",
        "clamp", "signum", "ln_1p", "exp_m1", "mul_add", "log1p", "expm1"}
ZEROS = {"Zero::zero": 0.0, "One::one": 1.0}


BACK = {}  # loop-carried value -> ((guard, value), ..) where the loop is continued from several places
LOOPS = {}  # loop -> what it iterates over; the loop of a mu node m is m.d[:2], or m.d[0] for closures run repeatedly
MU = {}  # loop-carried node -> its incoming values (all engines; the nodes are unique per run)


class Engine:
    def __init__(self, prog, opaque=None, budget=600000, max_depth=40, inline=None, dispatch=None, models=None):
        self.prog = prog
        self.opaque = opaque or (lambda c, fn: False)
        self.inline = inline
        self.dispatch = dispatch or {}
        self.models = models or {}
        self.events = []
        self.mu_ops = MU
        self.steps = 0
        self.budget = budget
        self.max_depth = max_depth
        self.env = {}
        self.frames = 0
        self.functions = set()
        self._fid = {}
        self.enums = {}
        Engine.serial = getattr(Engine, "serial", 0) + 1
        self._base = Engine.serial * 1000000
        self.panics = []

    # ------------------------------------------------------------------ memory
    def read(self, loc):
        if loc[0] == "v":
            return loc[1]
        return read_path(self.env.get(loc[1], UNDEF), loc[2])

    def write(self, loc, v):
        if loc[0] == "v":
            idx = self.val(loc[1])
            for r in self.refs_in(loc[1]):
                c, p, m = r.d
                l = ("c", c, p)
                self.write(l, mk("wr", None, (self.val(self.read(l)), v, idx)))
            return
        _, c, p = loc
        base = self.env.get(c, UNDEF)
        for i, x in enumerate(p):
            if base.k == "ref" and not isinstance(x, str):
                # an element of a view kept in a variable
                return self.write(("c", base.d[0], base.d[1] + tuple(p[i:])), v)
            base = read_path(base, (x,))
        self.env[c] = write_path(self.env.get(c, UNDEF), p, v) if p else v

    def hop(self, loc):
        """loc whose value is a pointer -> locs pointed to (list); else [loc]"""
        v = self.read(loc)
        if not v.ref:
            return [loc]
        if v.k == "ref":
            return self.hop(("c", v.d[0], v.d[1])) if self._isref(("c", v.d[0], v.d[1])) else [("c", v.d[0], v.d[1])]
        if v.k == "phi" and any(x.k == "ref" for x in v.a):
            out = []
            for x in v.a:
                if x.k == "ref":
                    out += self.hop(("v", x))
                else:
                    out.append(("v", x))
            return out
        if v.k == "mref":
            return [("v", v)]
        return [loc]

    def _isref(self, loc):
        return False

    def deref(self, loc):
        """[(guard under which the place is that one, place)]"""
        v = self.read(loc)
        if v.k == "ref":
            return [(NOG, ("c", v.d[0], v.d[1]))]
        if v.k == "phi" and v.ref:
            return [(g, ("c", x.d[0], x.d[1]) if x.k == "ref" else ("v", x)) for g, x in zip(v.d, v.a)]
        if v.k == "mref":
            return [(NOG, ("v", v))]
        return [(NOG, loc)]

    def autoderef(self, loc):
        for _ in range(8):
            v = self.read(loc)
            if v.k == "ref":
                loc = ("c", v.d[0], v.d[1])
            elif v.k == "phi" and v.ref and all(x.k in ("ref", "mref") for x in v.a):
                return [(gand(g, g2), l2) for g, x in zip(v.d, v.a) for g2, l2 in self.autoderef(("v", x))]
            elif v.k == "mref":
                return [(NOG, ("v", v))]
            else:
                return [(NOG, loc)]
        return [(NOG, loc)]

    def place(self, fr, pl):
        return [l for _, l in self.placeg(fr, pl)]

    def placeg(self, fr, pl):
        locs = [(NOG, ("c", (fr.id, pl["l"]), ()))]
        dc = None
        for e in pl["p"]:
            if e == "*":
                locs = [(gand(g, g2), x) for g, l in locs for g2, x in self.deref(l)]
                continue
            if e == "?":
                continue
            if "dc" in e:
                dc = e["n"]
                continue
            locs = [(gand(g, g2), x) for g, l in locs for g2, x in self.autoderef(l)]
            if "f" in e:
                n = e["n"]
                if dc is not None:
                    n = dc + "." + n
                    dc = None
                n = PAY.get(n, n)
                locs = [(g, self._ext(l, n)) for g, l in locs]
            elif "ix" in e:
                i = self.val(self.env.get((fr.id, e["ix"]), UNDEF))
                locs = [(g, self._ext(l, (i,))) for g, l in locs]
            elif "cix" in e:
                i = num(-e["cix"] if e["end"] else e["cix"])
                locs = [(g, self._ext(l, (i,))) for g, l in locs]
            else:
                locs = [(g, self._ext(l, (mk("const", (f"sub{e.get('sub')}", "str")),))) for g, l in locs]
        return locs

    def _ext(self, l, p):
        if l[0] == "v":
            return ("v", select(l[1], p) if isinstance(p, str) else elem(l[1], *p))
        # payload of something that is not a cell-held struct but e.g. next(): read it
        v = self.read(l)
        if p == "!" and v.ref and v.k in ("call",):
            return ("v", select(v, "!"))
        return ("c", l[1], l[2] + (p,))

    def readp(self, fr, pl):
        locs = self.placeg(fr, pl)
        if len(locs) == 1:
            return self.read(locs[0][1])
        return phi([(g, self.read(l)) for g, l in locs])

    def writep(self, fr, pl, v):
        locs = self.place(fr, pl)
        if len(locs) == 1:
            self.write(locs[0], v)
        else:
            for l in locs:
                self.write(l, phi([(NOG, self.read(l)), (NOG, v)]))

    def val(self, n, d=0):
        """the value with every pointer followed"""
        if not n.ref:
            return n
        if d > 60:
            return ANY
        if n.k == "ref":
            return self.val(self.read(("c", n.d[0], n.d[1])), d + 1)
        if n.k == "mref":
            return self.val(n.a[0], d + 1)
        return rebuild(n, [self.val(x, d + 1) for x in n.a])

    def refs_in(self, n, seen=None):
        """mutable pointers reachable inside a value, following iterator/view cells; closures are not entered"""
        out = []
        seen = set() if seen is None else seen

        def go(n):
            if not n.ref or n in seen or n.k == "clo":
                return
            seen.add(n)
            if n.k == "ref":
                c, p, m = n.d
                inner = self.read(("c", c, p))
                if inner.ref and inner.k != "clo":
                    go(inner)
                    if m and not (inner.k in ("ref", "mref", "elem") or inner.k == "phi" and all(x.k in ("ref", "mref") for x in inner.a)):
                        out.append(n)
                elif m:
                    out.append(n)
                return
            for x in n.a:
                go(x)

        go(n)
        return list(dict.fromkeys(out))

    # ------------------------------------------------------------------ operands, rvalues
    def operand(self, fr, o):
        if o["k"] in ("cp", "mv"):
            return self.readp(fr, o["pl"])
        if o["k"] == "fn":
            self._fns = getattr(self, "_fns", {})
            c = o["fn"]
            key = c["h"] + "|" + ",".join(c.get("targs", []))
            self._fns[key] = c
            return mk("fn", key)
        return self.const(fr, o)

    def const(self, fr, o):
        if "promoted" in o:
            return self.promoted(fr, o)
        v, ty = o.get("v"), o.get("ty", "")
        if v is None:
            return mk("const", ("def:" + o.get("def", "?"), ty))
        if v.startswith("str:"):
            return mk("const", (v[4:], "str"))
        if ty == "bool":
            return boolc(v == "true")
        if v.startswith("opaque:"):
            if ty.startswith("&[&str") or "def" in o:
                return mk("const", ("def:" + o.get("def", v), ty))
            return mk("const", (v, ty))
        m = re.fullmatch(r"-?\d+", v)
        if m and re.fullmatch(r"[iu](\d+|size)|char", ty):
            return num(int(v))
        if ty in ("f64", "f32"):
            return num({"inf": float("inf"), "-inf": float("-inf")}.get(v, float(v)) if v != "NaN" else float("nan"))
        if m and not ("def" in o):
            # fieldless enum or newtype scalar
            return self._enum_const(fr, ty, int(v))
        return mk("const", (v, ty))

    def enum(self, path, crate):
        """the variants of an enum of the workspace as named in the given crate"""
        k = (path, crate)
        if k not in self.enums:
            a = self.prog.adts.get((crate, path)) or self.prog.adts.get(tuple(path.split("::", 1)) if "::" in path else None)
            if a is None:
                # reexported or shortened path
                a = [x for (c, p), x in self.prog.adts.items() if last_ident(p) == last_ident(path) and (c == path.split("::")[0] or "::" not in path)]
                a = a[0] if len(a) == 1 else None
            self.enums[k] = a if a and a["kind"] == "Enum" else {}
        return self.enums[k]

    def _enum_const(self, fr, ty, v):
        a = self.enum(ty, fr.fn.crate)
        for x in a.get("vs", ()):
            if x["d"] == v and not x["fs"]:
                return agg(a["path"], x["n"], v, (), ())
        return mk("const", (v, ty))

    def tag(self, fr, path, vi):
        """discriminant of a variant given by its index"""
        vs = self.enum(path, fr.fn.crate).get("vs", ())
        return vs[vi]["d"] if vi < len(vs) else vi

    def promoted(self, fr, o):
        fn = self._fn_of_def(fr, o)
        if fn is None:
            return mk("const", ("def:" + o.get("def", "?"), o.get("ty", "")))
        body = fn.j["promoted"][o["promoted"]]
        key = (fn.h, "prom", o["promoted"])
        pf = facts.Fn(dict(h=str(key), path=fn.path, kind="Promoted", span=fn.span, argc=0, locals=body["locals"],
                           blocks=body["blocks"], promoted=[]), fn.crate)
        r = self.run(pf, [], None, None)
        return r

    def _fn_of_def(self, fr, o):
        h = o.get("defh")
        f = self.prog.fns.get(h)
        return f

    def rvalue(self, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(fr, r["o"][0])
        if k in ("ref", "rawptr"):
            locs = self.placeg(fr, r["pl"])
            out = []
            for g, l in locs:
                if l[0] == "v":
                    out.append((g, l[1]))
                else:
                    v = self.read(l)
                    out.append((g, v if v.k == "clo" and not r.get("mut") else mk("ref", (l[1], l[2], bool(r.get("mut"))))))
            return out[0][1] if len(out) == 1 else phi(out)
        if k == "cast" and r["ck"] == "BoxDerefTransmute" and r["o"][0].get("pl"):
            # pointer into a box: the box itself
            pl = r["o"][0]["pl"]
            return self.readp(fr, {"l": pl["l"], "p": pl["p"][:-1] if pl["p"] and "f" in pl["p"][-1] else pl["p"]})
        if k == "cast":
            v = self.operand(fr, r["o"][0])
            if "IntToFloat" in r["ck"] or "FloatToInt" in r["ck"] or "IntToInt" in r["ck"] or "FloatToFloat" in r["ck"]:
                v = self.val(v)
                if v.k != "const" and "IntToInt" in r["ck"] and r.get("ty") in ("u8", "i8", "u16", "i16") and not narrow(fr, r["o"][0]):
                    return op("trunc", mk("call", "narrow:" + r["ty"], (v,)))
                if v.k == "const" or "FloatToInt" not in r["ck"]:
                    return v
                return op("trunc", v)
            return v
        if k == "bin":
            a, b = [self.val(self.operand(fr, x)) for x in r["o"]]
            return op(r["op"].replace("WithOverflow", "").replace("Unchecked", ""), a, b)
        if k == "un":
            a = self.val(self.operand(fr, r["o"][0]))
            if r["op"] == "PtrMetadata":
                return mk("call", "len", (a,))
            return op(r["op"], a)
        if k == "discr":
            return self.discr(self.val(self.readp(fr, r["pl"])))
        if k == "agg":
            vals = [self.operand(fr, x) for x in r["o"]]
            ak = r["ak"]
            if ak == "adt":
                return agg(r["adt"], r["var"], self.tag(fr, r["adt"], r["vi"]), r["fs"], vals)
            if ak == "closure":
                return mk("clo", r["h"], tuple(vals))
            if ak == "tuple":
                return tup(*vals)
            return agg("array", "", 0, tuple(str(i) for i in range(len(vals))), vals)
        if k == "repeat":
            return mk("call", "repeat", (self.operand(fr, r["o"][0]),))
        return mk("call", "rv:" + r.get("s", k)[:60], ())

    def discr(self, v):
        if v.k == "agg":
            return num(v.d[2])
        if v.k == "call" and v.d == "Try::branch":
            # Continue (0) <=> Ok (0) / Some (1)
            i = v.a[0]
            x = i
            if x.k == "agg" and x.d[1] in GOOD:
                return num(0)
            if x.k == "agg" and x.d[1] in BAD:
                return num(1)
        if v.k == "phi" and all(x.k == "agg" for x in v.a):
            ds = {x.d[2] for x in v.a}
            if len(ds) == 1:
                return num(ds.pop())
        if v.k == "phi":
            # a discriminant that is the same test as the guard of the join is left as is
            pass
        return mk("discr", None, (v,))

    # ------------------------------------------------------------------ running
    def fid(self, key):
        return self._fid.setdefault(key, self._base + len(self._fid))

    def run(self, fn, args, parent, block, selfty=None, tag=""):
        fr = Frame(self.fid((parent.id if parent else None, block, fn.h, tag)), fn, parent, block,
                   selfty or (fn.selfh if fn.selfh else None))
        self.functions.add(fn.h)
        for i, a in enumerate(args):
            self.env[(fr.id, i + 1)] = a
        g = fn.graph()
        rets = []
        self._region(fr, 0, set(g.rpo), self.env, rets, top=True)
        base = [(b, e) for b, e in rets]
        if not base:
            self.env = {c: v for c, v in self.env.items()}
            res = UNDEF
            self.diverged = True
        else:
            self.env = self._join(fr, None, base) if len(base) > 1 else base[0][1]
            res = self.env.get((fr.id, 0), tup() if fn.locals[0][0] == "()" else UNDEF)
        # value returned may point into this frame only for consts: materialise
        res = self._escape(fr, res)
        for i in range(len(fn.locals)):
            self.env.pop((fr.id, i), None)
        return res

    def _escape(self, fr, n):
        if not n.ref:
            return n
        if n.k == "ref" and n.d[0][0] == fr.id:
            v = self.read(("c", n.d[0], n.d[1]))
            return self._escape(fr, v)
        if n.k == "ref":
            return n
        return rebuild(n, [self._escape(fr, x) for x in n.a])

    def _region(self, fr, entry, region, env, rets, top=False):
        """runs blocks of region from entry; returns edges leaving the region or going back to entry"""
        g = fr.fn.graph()
        pend = {entry: [(None, env)]}
        out = []
        skip = set()
        for b in g.rpo:
            if b not in region or b in skip or b not in pend:
                continue
            ins = pend.pop(b)
            e = ins[0][1] if len(ins) == 1 else self._join(fr, b, ins)
            if b in g.loops and (b != entry or (top and b == 0)):
                body = g.loops[b] & region
                edges = self._loop(fr, b, body, e, rets)
                skip |= body
            else:
                edges = [(b, s, ev) for s, ev in self._block(fr, b, e, rets)]
            for p, s, ev in edges:
                if s in region and s != entry and s not in skip:
                    pend.setdefault(s, []).append((p, ev))
                else:
                    out.append((p, s, ev))
        return out

    def _loop(self, fr, h, body, env, rets):
        changed = set()
        for it in range(9):
            e = dict(env)
            mus = {}
            for c, p in sorted(changed, key=str):
                m = mk("mu", (fr.id, h, c, p))
                mus[m] = (c, p)
                e[c] = write_path(e.get(c, UNDEF), p, m)
            ne, nr, np_ = len(self.events), len(rets), len(self.panics)
            outs = self._region(fr, h, body, dict(e), rets)
            back = [(p, ev) for p, s, ev in outs if s == h]
            new = set()
            for p, ev in back:
                for c in env:
                    a, b = e.get(c, UNDEF), ev.get(c, UNDEF)
                    if a is not b:
                        for path in diff(a, b):
                            new.add((c, path))
            new = norm_paths(changed | new)
            if new == norm_paths(changed):
                break
            changed = new
            if it >= 6:
                changed = {(c, ()) for c, _ in changed}
            del self.events[ne:]
            del rets[nr:]
            del self.panics[np_:]
        for m, (c, p) in mus.items():
            self.mu_ops[m] = tuple(dict.fromkeys([read_path(env.get(c, UNDEF), p)] + [read_path(ev.get(c, UNDEF), p) for _, ev in back]))
            if len(back) > 1:
                BACK[m] = tuple(zip(self._edges(fr, h, [p for p, _ in back]), [read_path(ev.get(c, UNDEF), p) for _, ev in back]))
        return [(p, s, ev) for p, s, ev in outs if s != h]

    def fix(self, key, runner):
        """fixpoint for code run an unknown number of times (closures); runner() uses self.env and returns a value"""
        env = self.env
        changed = set()
        for it in range(9):
            e = dict(env)
            mus = {}
            for c, p in sorted(changed, key=str):
                m = mk("mu", (key, "clo", c, p))
                mus[m] = (c, p)
                e[c] = write_path(e.get(c, UNDEF), p, m)
            ne, np_ = len(self.events), len(self.panics)
            self.env = dict(e)
            r = runner()
            new = set()
            for c in env:
                a, b = e.get(c, UNDEF), self.env.get(c, UNDEF)
                if a is not b:
                    for path in diff(a, b):
                        new.add((c, path))
            new = norm_paths(changed | new)
            if new == norm_paths(changed):
                break
            changed = new
            if it >= 6:
                changed = {(c, ()) for c, _ in changed}
            del self.events[ne:]
            del self.panics[np_:]
        after = self.env
        for m, (c, p) in mus.items():
            self.mu_ops[m] = tuple(dict.fromkeys([read_path(env.get(c, UNDEF), p), read_path(after.get(c, UNDEF), p)]))
        self.env = e
        return r

    def _guard(self, fr, p, b, D0=None):
        g = fr.fn.graph()
        D = D0[p] if D0 is not None and p in D0 else g.dnf(p)
        if b is not None and len(g.succ[p]) > 1:
            D = frozenset(t | {(p, b)} for t in D)
        return D

    def _edges(self, fr, b, ps):
        """what distinguishes the edges from each of ps to b"""
        D0 = None
        g = fr.fn.graph()
        if b is not None and b in g.dom and None not in ps:
            d = g.idom(b)
            if d is not None and all(g.dominates(d, p) for p in ps):
                D0 = g.between(d, b)
        gs = [self._guard(fr, p, b, D0) if p is not None else frozenset([frozenset()]) for p in ps]
        terms = [t for D in gs for t in D]
        common = frozenset.intersection(*terms) if terms else frozenset()
        return [frozenset(frozenset(edge_atoms(fr, t - common)) for t in D) or frozenset([frozenset()]) for D in gs]

    def _join(self, fr, b, ins):
        gs = self._edges(fr, b, [p for p, _ in ins])
        e0 = ins[0][1]
        out = dict(e0)
        keys = set()
        for _, ev in ins[1:]:
            for c, v in ev.items():
                if out.get(c) is not v:
                    keys.add(c)
        for _, ev in ins[1:]:
            if len(ev) != len(e0):
                for c in e0:
                    if c not in ev:
                        keys.add(c)
        for c in keys:
            alts = [(g, ev[c]) for g, (_, ev) in zip(gs, ins) if c in ev]
            out[c] = phi(alts)
        return out

    def _block(self, fr, b, env, rets):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget(f"analysis budget exhausted in {fr.stack()[:3]}")
        self.env = env
        bl = fr.fn.blocks[b]
        for st in bl["st"]:
            r = st["r"]
            if r["k"] == "setdiscr":
                continue
            self.writep(fr, st["d"], self.rvalue(fr, r))
        t = bl["t"]
        k = t["k"]
        if k == "return":
            rets.append((b, self.env))
            return []
        if k == "call":
            self.diverged = False
            res = self.call(fr, b, t)
            if not t["t"]:
                return []
            if res is DIVERGE:
                return []
            self.writep(fr, t["d"], res)
            return [(t["t"][0], self.env)]
        if k == "switch":
            v = self.val(self.operand(fr, t["o"]))
            c = const_of(v)
            if c is not None and isinstance(c, (int, bool)):
                s = str(int(c))
                tgt = t["t"][t["vals"].index(s)] if s in t["vals"] else t["t"][-1]
                fr.sw[b] = (v, t["vals"], t["t"])
                return [(tgt, self.env)]
            fr.sw[b] = (v, t["vals"], t["t"])
            ts = list(dict.fromkeys(t["t"]))
            live = [x for x in ts if fr.fn.blocks[x]["t"]["k"] != "unreachable" or fr.fn.blocks[x]["st"]]
            return [(x, dict(self.env) if i < len(live) - 1 else self.env) for i, x in enumerate(live)]
        if not t["t"]:
            return []
        return [(t["t"][0], self.env)]

    # ------------------------------------------------------------------ calls
    def event(self, fr, b, t, name, c, args, raw, res, inlined=False):
        e = Event()
        e.name, e.callee, e.args, e.raw, e.res = name, c, args, raw, res
        e.frame, e.block, e.span, e.inlined = fr, b, t.get("s", ""), inlined
        e.env = None
        self.events.append(e)
        return e

    def call(self, fr, b, t):
        f = t["f"]
        raw = [self.operand(fr, a) for a in t["a"]]
        dty = self._ty(fr, t["d"])
        if f["k"] != "fn":
            fv = self.operand(fr, f)
            return self.apply(fr, b, t, fv, raw, dty)
        return self.call_fn(fr, b, t, f["fn"], raw, dty)

    def _ty(self, fr, pl):
        return fr.fn.locals[pl["l"]][0] if not pl["p"] else ""

    def apply(self, fr, b, t, fv, args, dty="", tag=""):
        """call a function value"""
        for _ in range(6):
            if fv.k == "ref":
                fv = self.read(("c", fv.d[0], fv.d[1]))
        if fv.k == "clo":
            fn = self.prog.fns.get(fv.d)
            if fn is not None and fr.depth < self.max_depth and fr.chain.count(fn.h) < 2:
                n = fn.argc - 1
                args = (args + [ANY] * n)[:n]
                return self.run(fn, [fv] + args, fr, b, selfty=fr.selfty, tag=tag)
        if fv.k == "fn":
            return self.call_fn(fr, b, t, self._fns[fv.d], args, dty)
        if fv.k == "phi":
            rs = []
            base = self.env
            envs = []
            for g, x in zip(fv.d, fv.a):
                self.env = dict(base)
                rs.append((g, self.apply(fr, b, t, x, args, dty, tag + f"p{x.i}")))
                envs.append((g, self.env))
            out = dict(envs[0][1])
            for c in base:
                out[c] = phi([(g, ev.get(c, UNDEF)) for g, ev in envs])
            self.env = out
            return phi(rs)
        v = self.val(fv)
        vals = [self.val(a) for a in args]
        res = mk("call", "apply", tuple([v] + vals))
        self.event(fr, b, t, "apply", None, [v] + vals, [fv] + args, res)
        self.effects("apply", args, [v] + vals)
        return res

    def effects(self, name, raw, vals, skip=()):
        k = 0
        for i, r in enumerate(raw):
            if i in skip or not r.ref:
                continue
            for x in self.refs_in(r):
                c, p, m = x.d
                self.write(("c", c, p), mk("eff", (name, i), tuple(vals) if vals else ()))
                k += 1
        return k

    def method_impl(self, c, fr):
        """workspace body a callee runs, through Self substitution and the dispatch table; None if unknown"""
        fn = self.prog.fns.get(c["h"])
        tm = c.get("oh") or c["h"]
        impls = self.prog.impl_methods.get(tm)
        if c.get("trait") and not (c["res"] and fn is not None and fn.trait):
            n = callee_name(c)
            sh = c.get("selfh")
            if n in self.dispatch:
                return self.prog.fns.get(self.dispatch[n])
            if sh == "param Self" and fr.selfty and impls:
                for x in impls:
                    if x.selfh == fr.selfty:
                        return x
            if fn is not None and impls and not c["res"]:
                return None  # a default body that some impl overrides, receiver unknown
            if fn is not None and c["res"] is False and sh and not sh.startswith(("dyn ", "param ")):
                return fn
        return fn

    def call_fn(self, fr, b, t, c, raw, dty):
        name = callee_name(c)
        m = self.models.get(name)
        if m is not None:
            r = m(self, fr, b, t, c, raw, dty)
            if r is not None:
                return r
        if name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(raw) == 2:
            tv = raw[1]
            args = list(tv.a) if tv.k == "agg" else [select(tv, "0")]
            return self.apply(fr, b, t, raw[0], args, dty)
        fn = self.method_impl(c, fr)
        if name != "Clone::clone" and fn is not None and fn.kind in ("Fn", "AssocFn") and not self.opaque(c, fn) and not fn.generated() \
                and (fn.trait not in NOINLINE_TRAITS) and (self.inline is None or self.inline(c, fn)) \
                and fr.depth < self.max_depth and fr.chain.count(fn.h) < 1:
            vals = [self.val(a) for a in raw]
            ev = self.event(fr, b, t, name, c, vals, raw, None, inlined=True)
            st = c.get("selfh")
            st = fr.selfty if st in (None, "param Self") else st
            if fn.selfh is None and not fn.j.get("traitdef"):
                st = None
            r = self.run(fn, raw, fr, b, selfty=(st if fn.j.get("traitdef") else None))
            ev.res = r
            if r is UNDEF and self.diverged:
                return DIVERGE
            return r
        r = self.std(fr, b, t, c, name, raw, dty)
        if r is not None:
            return r
        return self.opaque_call(fr, b, t, c, name, raw, dty)

    def opaque_call(self, fr, b, t, c, name, raw, dty, extra=()):
        vals = [self.val(a) for a in raw]
        clos = [(i, a) for i, a in enumerate(raw) if self._is_fn(a)]
        res_extra = list(extra)
        if clos and not (c and self.prog.fns.get(c["h"]) is not None and c["local"] and c["krate"].startswith("egobox") and False):
            others = [a for i, a in enumerate(raw) if not self._is_fn(a)]
            for i, cl in clos:
                n = self._arity(cl)
                params = [elemof(o) for o in others][:n]
                if len(params) < n:
                    oth = tuple(self.val(o) for o in others)
                    params += [mk("call", f"cbarg:{name}", oth)] * (n - len(params))
                rr = self.fix((fr.id, b, i), lambda: self.apply(fr, b, t, cl, list(params), "", tag=f"cb{i}"))
                res_extra.append(self.val(rr) if rr is not DIVERGE else UNDEF)
            vals = [self.val(a) for i, a in enumerate(raw) if not self._is_fn(a)]
        res = mk("call", name, tuple(vals) + tuple(res_extra))
        self.event(fr, b, t, name, c, vals, raw, res)
        if MUTTY.search(dty or ""):
            refs = [x for a in raw for x in self.refs_in(a)]
            if refs:
                return mk("mref", None, (res,) + tuple(dict.fromkeys(refs)))
        self.effects(name, raw, tuple(vals) + tuple(res_extra))
        if not t["t"]:
            self.panics.append((fr, b, name, t.get("s")))
        return res

    def _is_fn(self, a):
        if a.k in ("clo", "fn"):
            return True
        if a.k == "ref":
            v = self.read(("c", a.d[0], a.d[1]))
            return v.k in ("clo", "fn")
        if a.k == "phi":
            return all(x.k in ("clo", "fn") for x in a.a)
        return False

    def _arity(self, a):
        if a.k == "ref":
            a = self.read(("c", a.d[0], a.d[1]))
        if a.k == "phi":
            a = a.a[0]
        if a.k == "clo":
            fn = self.prog.fns.get(a.d)
            return fn.argc - 1 if fn else 1
        c = self._fns[a.d]
        fn = self.prog.fns.get(c["h"])
        return fn.argc if fn else 1

    def many(self, fr, b, t, cl, params, tag=""):
        """closure run an unknown number of times with the given parameters"""
        r = self.fix((fr.id, b, tag), lambda: self.apply(fr, b, t, cl, list(params), "", tag="m" + tag))
        return UNDEF if r is DIVERGE else r

    def once(self, fr, b, t, cl, params, cond, tag=""):
        """closure run iff cond (a (node, edge) atom): environment joined with the not-run case"""
        base = dict(self.env)
        r = self.apply(fr, b, t, cl, list(params), "", tag="o" + tag)
        if r is DIVERGE:
            self.env = base
            return UNDEF
        g1 = frozenset([frozenset([cond])]) if cond else NOG
        if cond:
            for c, v in base.items():
                w = self.env.get(c, v)
                if w is not v:
                    self.env[c] = phi([(g1, w), (NOG, v)])
        return r

    def std(self, fr, b, t, c, name, raw, dty):
        """models of std / ndarray / rayon functions; None if there is no model"""
        short = name.split("::")[-1]
        if name in IDENT and raw and not (c["krate"].startswith("egobox")):
            r = raw[0]
            if short == "as_deref_mut" and r.k == "ref":
                v = self.read(("c", r.d[0], r.d[1]))
                if v.k == "agg" and v.a and v.a[0].k == "ref":
                    return v  # the pointers themselves are lent
            if short in ("clone", "to_owned", "into_owned", "cloned", "copied", "to_vec", "to_string") and r.ref:
                if not MUTTY.search(dty):
                    r = self.val(r) if short not in ("cloned", "copied") else (self.val(r) if not has_mut(r) else r)
            if name == "From::from" and len(raw) == 1:
                return r
            return r
        if name == "Clone::clone":
            return self.val(raw[0])
        if name == "Box::new_uninit":
            # the box of a `vec![..]` or `array![..]` literal
            cell = ("U", fr.id, b)
            self.env[cell] = UNDEF
            return mk("ref", (cell, (), True))
        if short == "box_assume_init_into_vec_unsafe" and raw[0].k == "ref":
            v = self.read(("c", raw[0].d[0], raw[0].d[1]))
            for f in ("0", "value", "value"):
                if v.k in ("upd", "agg") and f in (v.d if v.k == "upd" else v.d[3]):
                    v = select(v, f)
            return self.val(v)
        if name in PAYID:
            r = raw[0]
            if name.endswith("or_default"):
                return phi([(NOG, self.rpay(r)), (NOG, mk("call", "Default::default", ()))])
            if name in ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect"):
                self.event(fr, b, t, name, c, [self.val(r)], raw, None)
            return self.rpay(r)
        if name in ARITH and not self._has_workspace_impl(c):
            return op(ARITH[name], *[self.val(a) for a in raw])
        if name in ASSIGN:
            locs = [l for _, l in self.autoderef(("v", raw[0]))]
            rhs = self.val(raw[1])
            for l in locs:
                if l[0] == "v":
                    self.write(l, op(ASSIGN[name], self.val(l[1]), rhs))
                else:
                    self.write(l, op(ASSIGN[name], self.val(self.read(l)), rhs))
            return tup()
        if name in ZEROS:
            return num(ZEROS[name])
        if short in MATH and c["krate"] in ("core", "std", "num_traits", "libm", "linfa") and raw and c.get("trait") not in ("std::iter::Iterator",):
            args = [self.val(a) for a in raw]
            return op(short, *args)
        if c["krate"] == "libm":
            return op(short, *[self.val(a) for a in raw])
        if name in ("Float::infinity", "Float::neg_infinity", "Float::nan", "Float::epsilon"):
            return num({"infinity": float("inf"), "neg_infinity": float("-inf")}[short]) if short in ("infinity", "neg_infinity") else mk("const", (short, "float"))
        if name == "Try::branch":
            v = raw[0]
            if v.k == "agg" and v.d[1] in GOOD:
                return agg("std::ops::ControlFlow", "Continue", 0, ("0",), (v.a[0],))
            if v.k == "agg" and v.d[1] in BAD:
                return agg("std::ops::ControlFlow", "Break", 1, ("0",), (v,))
            return mk("call", "Try::branch", (v,))
        if name == "FromResidual::from_residual":
            if "Option<" in dty[:40]:
                return NONE
            v = raw[0]
            return err(select(v, "Err.0"))
        if name in ("Index::index", "Index::get", "IndexMut::index_mut") and not self._has_workspace_impl(c):
            idx = self.val(raw[1])
            ix = idx.a if idx.k == "agg" and idx.d[0] in ("tuple", "array") and idx.a else (idx,)
            return self.relem(raw[0], ix)
        if name == "SliceInfo::new_unchecked":
            v = self.val(raw[0])
            return v
        if name in ("ArrayBase::slice", "ArrayBase::slice_mut", "ArrayBase::slice_move", "ArrayBase::slice_into", "ArrayBase::slice_collapse_x"):
            idx = self.val(raw[1])
            ix = idx.a if idx.k == "agg" and idx.d[0] in ("tuple", "array") and idx.a else (idx,)
            ix = tuple(ALL if i.k == "agg" and i.d[0].endswith("RangeFull") else i for i in ix)
            if all(i is ALL for i in ix):
                return raw[0]
            return self.relem(raw[0], ix)
        if name in ("ArrayBase::as_slice_mut", "ArrayBase::as_slice", "ArrayBase::as_slice_memory_order_mut", "ArrayBase::as_slice_memory_order"):
            return some(raw[0])
        if name in ("ArrayBase::row", "ArrayBase::row_mut"):
            return self.relem(raw[0], (self.val(raw[1]), ALL))
        if name in ("ArrayBase::column", "ArrayBase::column_mut"):
            return self.relem(raw[0], (ALL, self.val(raw[1])))
        if name in ("PartialOrd::partial_cmp", "Ord::cmp", "f64::total_cmp"):
            return mk("call", "cmp", tuple(self.val(a) for a in raw))
        if name in ("mem::swap", "mem::replace", "mem::take"):
            return self._memops(short, raw)
        if name in ("Option::take", "Option::replace", "Option::insert"):
            v = self.val(raw[0])
            self._wr(raw[0], NONE if short == "take" else some(raw[1]))
            return v
        r = self._option(fr, b, t, c, name, short, raw, dty)
        if r is not None:
            return r
        r = self._iter(fr, b, t, c, name, short, raw, dty)
        if r is not None:
            return r
        r = self._array(fr, b, t, c, name, short, raw, dty)
        return r

    def _has_workspace_impl(self, c):
        return c["h"] in self.prog.fns

    def _wr(self, raw, v):
        for _, l in self.autoderef(("v", raw)):
            self.write(l, v)

    def _memops(self, short, raw):
        if short == "swap":
            a, b = self.val(raw[0]), self.val(raw[1])
            self._wr(raw[0], b)
            self._wr(raw[1], a)
            return tup()
        v = self.val(raw[0])
        self._wr(raw[0], raw[1] if short == "replace" else mk("call", "Default::default", ()))
        return v

    def rpay(self, r):
        """payload of a raw value (pointers to an Option give a pointer to its payload)"""
        if r.k == "ref":
            v = self.read(("c", r.d[0], r.d[1]))
            if v.k == "ref" or (v.ref and v.k in ("call", "phi", "mref")):
                return self.rpay(v)
            if v.k == "agg" and v.d[1] in GOOD and v.a[0].ref:
                return v.a[0]
            return select(r, "!")
        return select(r, "!")

    def relem(self, r, ix):
        if r.k == "ref":
            v = self.read(("c", r.d[0], r.d[1]))
            if v.ref and v.k in ("ref", "mref", "call", "phi"):
                return self.relem(v, ix)
            if v.ref and v.k == "agg" and len(ix) == 1:
                return elem(v, *ix)
            return elem(r, *ix)
        if r.k == "phi" and r.ref:
            return phi([(g, self.relem(x, ix)) for g, x in zip(r.d, r.a)])
        return elem(r, *ix)

    # ---- Option / Result / bool combinators
    def _option(self, fr, b, t, c, name, short, raw, dty):
        ty = name.split("::")[0]
        if ty == "bool" and short == "then":
            cond = self.val(raw[0])
            r = self.once(fr, b, t, raw[1], [], (cond, ("notin", "0")))
            return phi([(frozenset([frozenset([(cond, ("notin", "0"))])]), some(r)), (frozenset([frozenset([(cond, ("in", "0"))])]), NONE)])
        if ty == "bool" and short == "then_some":
            cond = self.val(raw[0])
            return phi([(frozenset([frozenset([(cond, ("notin", "0"))])]), some(raw[1])), (frozenset([frozenset([(cond, ("in", "0"))])]), NONE)])
        if ty not in ("Option", "Result") or c["krate"] != "core":
            return None
        x = raw[0]
        isopt = ty == "Option"
        xv = self.val(x)
        d = self.discr(xv)
        gi, bi = ("1", "0") if isopt else ("0", "1")
        good = const_of(d)
        if good is not None:
            good = str(good) == gi
        G = frozenset([frozenset([(d, ("in", gi))])])
        B = frozenset([frozenset([(d, ("in", bi))])])
        catom = (d, ("in", gi)) if good is None else None
        batom = (d, ("in", bi)) if good is None else None
        # a phi of known variants (e.g. what a helper returned): decide per alternative
        def choose(gv, bv):
            if good is True:
                return gv()
            if good is False:
                return bv()
            g = gv()
            h = bv()
            return phi([(G, g), (B, h)])
        pay = lambda: self.rpay(x)
        errv = lambda: (NONE if isopt else err(select(xv, "Err.0")))
        wrap = some if isopt else ok
        if short in ("is_some", "is_ok"):
            return boolc(good) if good is not None else op("Eq", d, num(int(gi)))
        if short in ("is_none", "is_err"):
            return boolc(not good) if good is not None else op("Eq", d, num(int(bi)))
        if short == "map":
            return choose(lambda: wrap(self.once(fr, b, t, raw[1], [pay()], catom)), errv)
        if short == "and_then":
            return choose(lambda: self.once(fr, b, t, raw[1], [pay()], catom), errv)
        if short == "map_or":
            return choose(lambda: self.once(fr, b, t, raw[2], [pay()], catom), lambda: raw[1])
        if short == "map_or_else":
            return choose(lambda: self.once(fr, b, t, raw[2], [pay()], catom, "a"),
                          lambda: self.once(fr, b, t, raw[1], [] if isopt else [select(xv, "Err.0")], batom, "b"))
        if short in ("is_some_and", "is_ok_and"):
            return choose(lambda: self.once(fr, b, t, raw[1], [pay()], catom), lambda: boolc(False))
        if short == "unwrap_or":
            return choose(pay, lambda: raw[1])
        if short == "unwrap_or_else":
            return choose(pay, lambda: self.once(fr, b, t, raw[1], [] if isopt else [select(xv, "Err.0")], batom))
        if short == "or":
            return choose(lambda: wrap(pay()), lambda: raw[1])
        if short == "or_else":
            return choose(lambda: wrap(pay()), lambda: self.once(fr, b, t, raw[1], [] if isopt else [select(xv, "Err.0")], batom))
        if short == "and":
            return choose(lambda: raw[1], errv)
        if short == "ok_or":
            return choose(lambda: ok(pay()), lambda: err(raw[1]))
        if short == "ok_or_else":
            return choose(lambda: ok(pay()), lambda: err(self.once(fr, b, t, raw[1], [], batom)))
        if short == "map_err":
            return choose(lambda: ok(pay()), lambda: err(self.once(fr, b, t, raw[1], [select(xv, "Err.0")], batom)))
        if short == "ok":
            return choose(lambda: some(pay()), lambda: NONE)
        if short == "err":
            return choose(lambda: NONE, lambda: some(select(xv, "Err.0")))
        if short == "filter":
            r = self.once(fr, b, t, raw[1], [pay()], catom)
            r = self.val(r)
            return phi([(frozenset([frozenset([(r, ("notin", "0"))])]), some(pay())), (frozenset([frozenset([(r, ("in", "0"))])]), NONE)])
        if short == "unwrap_err" or short == "expect_err":
            return select(xv, "Err.0")
        if short in ("get_or_insert_with",):
            v = choose(pay, lambda: self.once(fr, b, t, raw[1], [], batom))
            self._wr(raw[0], some(v))
            return select(raw[0], "!") if raw[0].k == "ref" else v
        if short in ("zip",):
            return phi([(G, some(tup(pay(), self.rpay(raw[1])))), (B, NONE)])
        if short in ("flatten",):
            return self.rpay(x)
        return None

    # ---- iterators
    def _iter(self, fr, b, t, c, name, short, raw, dty):
        ty = name.split("::")[0]
        if ty not in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator", "Itertools", "slice", "Vec", "Rev", "Enumerate"):
            return None
        if ty == "slice" and short not in ("windows", "chunks"):
            return None
        if short in ("next", "next_back", "nth", "last"):
            src = self._cellval(raw[0])
            if short in ("next", "next_back"):
                g = fr.fn.graph()
                hs = [h for h, body in g.loops.items() if b in body]
                if hs:
                    LOOPS.setdefault((fr.id, min(hs, key=lambda h: len(g.loops[h]))), set()).add(self.val(src))
            return mk("call", "next", (elemof(src),))
        if short in ("take", "skip", "step_by"):
            return mk("call", "part", (raw[0], mk("const", (short, "str")), self.val(raw[1])))
        if short == "enumerate":
            return mk("call", "enumerate", (raw[0],))
        if short == "zip":
            return mk("call", "zip", (raw[0], raw[1]))
        if short == "chain":
            return mk("call", "chain", (raw[0], raw[1]))
        if short in ("map", "flat_map", "filter_map", "map_while") and self._is_fn(raw[1]):
            r = self.many(fr, b, t, raw[1], [elemof(raw[0])])
            r0 = r
            if short in ("filter_map", "map_while"):
                r0 = select(r, "!")
            elif short == "flat_map":
                r0 = elemof(r)
            return mk("call", "map", (self.val(raw[0]), r0))
        if short in ("filter", "skip_while", "take_while", "inspect") and self._is_fn(raw[1]):
            r = self.many(fr, b, t, raw[1], [elemof(raw[0])])
            return mk("call", "filter", (raw[0], self.val(r)))
        if short in ("for_each", "try_for_each"):
            LOOPS.setdefault((fr.id, b, ""), set()).add(self.val(raw[0]))
            self.many(fr, b, t, raw[1], [elemof(raw[0])])
            return tup()
        if short in ("fold", "try_fold"):
            init = raw[1]
            acc = mk("mu", (fr.id, b, "fold", ()))
            self.mu_ops[acc] = (init,)
            r = self.many(fr, b, t, raw[2], [acc, elemof(raw[0])])
            r = self.val(r)
            self.mu_ops[acc] = (self.val(init), r)
            return mk("call", "fold", (acc, self.val(raw[0]), self.val(init), r))
        if short in ("reduce", "max_by", "min_by", "sorted_by", "position", "find", "any", "all", "partition", "find_map", "max_by_key", "min_by_key", "unzip", "rposition") and len(raw) > 1:
            fi = [i for i, a in enumerate(raw) if self._is_fn(a)]
            if fi:
                cl = raw[fi[-1]]
                src = self._cellval(raw[0])
                e = elemof(src)
                n = self._arity(cl)
                r = self.many(fr, b, t, cl, [e] * n)
                vals = (self.val(src),) + tuple(self.val(x) for i, x in enumerate(raw[1:]) if i + 1 not in fi) + (self.val(r),)
                res = mk("call", "Iterator::" + short, vals)
                self.event(fr, b, t, name, c, list(vals), raw, res)
                if short == "find":
                    return mk("call", "next", (e,))
                return res
        if short == "unzip":
            s = self.val(raw[0])
            e = elemof(raw[0])
            return tup(mk("call", "map", (s, select(self.val(e), "0"))), mk("call", "map", (s, select(self.val(e), "1"))))
        return None

    def _cellval(self, r):
        """what an iterator cell iterates over: the pointer it was made from, or its own value"""
        for i in range(6):
            first = i == 0
            if r.k == "ref":
                v = self.read(("c", r.d[0], r.d[1]))
                if v.k == "ref":
                    r = v
                    continue
                return v if v.ref or v.k == "call" and v.d in ADAPTERS or not r.d[2] or first else r
            return r
        return r

    # ---- ndarray
    def _array(self, fr, b, t, c, name, short, raw, dty):
        ty = name.split("::")[0]
        if ty == "Zip":
            if short in ("from",):
                return mk("call", "Zip", tuple(raw))
            if short == "indexed":
                return mk("call", "ZipI", tuple(raw))
            if short in ("and", "and_broadcast", "par_and"):
                z = raw[0]
                if z.k == "call" and z.d in ("Zip", "ZipI"):
                    return mk("call", z.d, z.a + (raw[1],))
                return None
            if short in ("for_each", "par_for_each", "fold", "map_collect", "par_map_collect", "map_assign_into", "fold_while", "all", "any", "apply", "par_apply", "map_collect_owned"):
                z = raw[0]
                if z.k != "call" or z.d not in ("Zip", "ZipI"):
                    return None
                ps = [elemof(x) for x in z.a]
                if z.d == "ZipI":
                    ps = [mk("call", "index", (self.val(z.a[0]),))] + ps
                if short in ("fold", "fold_while"):
                    acc = mk("mu", (fr.id, b, "fold", ()))
                    self.mu_ops[acc] = (raw[1],)
                    r = self.val(self.many(fr, b, t, raw[2], [acc] + ps))
                    self.mu_ops[acc] = (self.val(raw[1]), r)
                    return mk("call", "fold", (acc,) + tuple(self.val(x) for x in z.a) + (self.val(raw[1]), r))
                if short == "map_assign_into":
                    r = self.val(self.many(fr, b, t, raw[2], ps))
                    self._wr(raw[1], mk("call", "map", tuple(self.val(x) for x in z.a) + (r,)))
                    return tup()
                if short in ("for_each", "par_for_each", "apply", "par_apply"):
                    for x in z.a:
                        LOOPS.setdefault((fr.id, b, ""), set()).add(self.val(x))
                r = self.many(fr, b, t, raw[1], ps)
                if short in ("for_each", "par_for_each", "apply", "par_apply"):
                    return tup()
                return mk("call", "map", tuple(self.val(x) for x in z.a) + (self.val(r),))
        if ty != "ArrayBase":
            return None
        if short in ("mapv", "map", "mapv_into", "mapv_into_any"):
            r = self.val(self.many(fr, b, t, raw[1], [self.val(raw[0])]))
            return r
        if short in ("mapv_inplace", "map_inplace", "par_mapv_inplace"):
            old = self.val(raw[0])
            if short == "map_inplace":
                self.many(fr, b, t, raw[1], [raw[0]])
            else:
                self._wr(raw[0], self.val(self.many(fr, b, t, raw[1], [old])))
            return tup()
        if short in ("columns", "columns_mut", "gencolumns"):
            return mk("call", "cols", (raw[0],))
        if short in ("axis_iter", "axis_iter_mut"):
            ax = self.val(raw[1])
            c0 = const_of(ax.a[0]) if ax.k == "agg" and ax.a else None
            return raw[0] if c0 in (0, None) else mk("call", "cols", (raw[0],))
        if short in ("assign", "fill"):
            self._wr(raw[0], self.val(raw[1]))
            return tup()
        if short in ("map_axis", "map_axis_mut"):
            r = self.many(fr, b, t, raw[2], [mk("call", "lane", (self.val(raw[0]), self.val(raw[1])))])
            return mk("call", "map", (self.val(raw[0]), self.val(r)))
        if short in ("fold",):
            init = raw[1]
            acc = mk("mu", (fr.id, b, "fold", ()))
            self.mu_ops[acc] = (init,)
            r = self.val(self.many(fr, b, t, raw[2], [acc, elemof(raw[0])]))
            self.mu_ops[acc] = (self.val(init), r)
            return mk("call", "fold", (acc, self.val(raw[0]), self.val(init), r))
        if short in ("for_each",):
            self.many(fr, b, t, raw[1], [elemof(raw[0])])
            return tup()
        if short in ("zip_mut_with",):
            self.many(fr, b, t, raw[2], [elemof(raw[0]), elemof(raw[1])])
            return tup()
        return None


ADAPTERS = {"zip", "enumerate", "map", "part", "filter", "chain", "next", "cols", "Zip", "ZipI", "lane"}


class _Div:
    pass


DIVERGE = mk("const", ("!diverge", "!"))


def has_mut(n):
    if n.k == "ref":
        return n.d[2]
    return n.ref and any(has_mut(x) for x in n.a)


def elemof(x):
    """an arbitrary element of an iterator / producer"""
    if x.k == "call":
        if x.d == "zip":
            return tup(elemof(x.a[0]), elemof(x.a[1]))
        if x.d == "enumerate":
            return tup(mk("call", "index", (strip_refs(x.a[0]),)), elemof(x.a[0]))
        if x.d == "map":
            return x.a[-1]
        if x.d in ("filter", "part"):
            return elemof(x.a[0])
        if x.d == "RangeInclusive::new":
            return mk("call", "range", (x.a[0], op("Add", x.a[1], num(1))))
        if x.d == "chain":
            return phi([(NOG, elemof(x.a[0])), (NOG, elemof(x.a[1]))])
        if x.d == "next":
            return elemof(x.a[0])
        if x.d == "cols":
            return elem(x.a[0], ALL, STAR)
    if x.k == "agg" and x.d[0].endswith("::Range") and len(x.a) == 2:
        return mk("call", "range", (x.a[0], x.a[1]))
    if x.k == "agg" and x.d[0].endswith("::RangeInclusive") and len(x.a) >= 2:
        return mk("call", "range", (x.a[0], x.a[1]))
    if x.k == "phi":
        return phi([(g, elemof(v)) for g, v in zip(x.d, x.a)])
    return elem(x, STAR)


def strip_refs(n):
    return n if not n.ref else ANY


def diff(a, b):
    if a is b:
        return []
    if a.k == "agg" and b.k == "agg" and a.d == b.d and a.d[0] not in ("array",):
        out = []
        for f, x, y in zip(a.d[3], a.a, b.a):
            key = f if a.d[1] in ("", last_ident(a.d[0])) else (a.d[1] + "." + f)
            key = PAY.get(key, key)
            out += [(key,) + p for p in diff(x, y)]
        return out
    ab = a.a[0] if a.k == "upd" else a
    bb = b.a[0] if b.k == "upd" else b
    if ab is bb and ab.k != "undef":
        fs = sorted(set(a.d if a.k == "upd" else ()) | set(b.d if b.k == "upd" else ()))
        out = []
        for f in fs:
            out += [(f,) + p for p in diff(select(a, f), select(b, f))]
        return out
    return [()]


def norm_paths(s):
    """drop paths below another path of the same cell"""
    out = set()
    for c, p in s:
        if any((c, p[:i]) in s for i in range(len(p))):
            continue
        out.add((c, p))
    return out
