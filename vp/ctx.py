"""What a rule file works with: running the interpreter, obligations, violations, counts."""
from . import engine as E
from . import q
from .facts import last_ident, short_path, callee_name, calls


class Res:
    def __init__(self, fn, eng, ret, args):
        self.fn, self.eng, self.ret, self.args = fn, eng, ret, args

    def val(self, n=None):
        return self.eng.val(self.ret if n is None else n)

    def arg_final(self, i):
        """state of what by-reference argument i points to, after the call"""
        a = self.args[i]
        return self.eng.val(a)

    def events(self, name=None, pred=None):
        return [e for e in self.eng.events if (name is None or e.name == name or (isinstance(name, (set, tuple, frozenset, list)) and e.name in name))
                and (pred is None or pred(e))]


class Ctx:
    def __init__(self, pid, prog, tier, repo):
        self.pid, self.prog, self.tier, self.repo = pid, prog, tier, repo
        self.violations = []
        self.obls = 0
        self.disch = 0
        self.counts = {}
        self.fns = set()
        self.ncalls = 0
        self.samples = []
        self.rule = ""
        self.notes = []

    # -------------------------------------------------- reporting
    def fail(self, key, msg, where=""):
        self.violations.append({"key": key, "msg": msg, "where": where})

    def ob(self, cond, key, msg, where=""):
        """an obligation of the rule at one instance"""
        self.obls += 1
        if cond:
            self.disch += 1
        else:
            self.fail(key, msg, where)
        if len(self.samples) < 12:
            self.samples.append(f"{'ok' if cond else 'FAIL'} {key}")
        return bool(cond)

    def floor(self, what, got, least):
        """fail closed when fewer instances are found than were confirmed by reading"""
        self.counts[what] = got
        self.obls += 1
        if got >= least:
            self.disch += 1
        else:
            self.fail(f"floor:{what}", f"only {got} instances of `{what}` found, at least {least} were confirmed by reading; the rule would pass vacuously")

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def coverage(self):
        return {"explanation": self.rule, "obligations": self.obls, "discharged": self.disch,
                "functions_analysed": len(self.fns), "call_sites_examined": self.ncalls, "counts": self.counts,
                "samples": self.samples, "notes": self.notes}

    # -------------------------------------------------- finding functions
    def fn(self, short=None, crate=None, **kw):
        """the one function of that name; fails closed"""
        r = [f for f in self.prog.find(short=short, crate=crate, **kw) if not f.generated()]
        if len(r) != 1:
            raise LookupError(f"anchor {crate or ''}:{short or kw} matches {len(r)} functions")
        return r[0]

    def impls(self, trait, method):
        out = []
        for f in self.prog.fns.values():
            if f.trait == trait and f.name == method and not f.generated():
                out.append(f)
        return out

    # -------------------------------------------------- running
    def engine(self, **kw):
        return E.Engine(self.prog, **kw)

    def eval(self, fn, args=None, eng=None, selfty=None, **kw):
        eng = eng or self.engine(**kw)
        raws = []
        args = args or {}
        for i in range(fn.argc):
            ty = fn.locals[i + 1][0]
            v = args.get(i)
            if v is None:
                v = E.mk("param", f"a{i}")
            if ty.startswith("&") and v.k not in ("ref", "clo"):
                cell = ("A", i)
                eng.env[cell] = v
                v = E.mk("ref", (cell, (), ty.startswith("&mut") or bool(__import__("re").match(r"&'\w+ mut ", ty))))
            raws.append(v)
        ret = eng.run(fn, raws, None, None, selfty=selfty)
        self.fns |= eng.functions
        self.ncalls += len(eng.events)
        return Res(fn, eng, ret, raws)

    def scan(self, fns=None):
        """(fn, block, terminator, callee) of every call in the given functions (default: all non-generated)"""
        for f in (fns if fns is not None else self.prog.fns.values()):
            if f.generated():
                continue
            self.fns.add(f.h)
            for i, t, c in calls(f):
                self.ncalls += 1
                yield f, i, t, c
