"""Entry point of every check:  check <property id>"""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vp import build, facts  # noqa: E402


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    fdir, fsec, reused = build.facts()
    prog = facts.Program(fdir)
    from vp.ctx import Ctx
    ctx = Ctx(pid, prog, tier, build.REPO)
    mod = importlib.import_module("rules." + pid.lower())
    try:
        mod.run(ctx)
    except Exception as e:  # fail closed: the analysis could not reach a verdict on this tree
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.fail("analysis-error", f"the analysis could not be completed: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
    if hasattr(mod, "SELFTEST"):
        pass
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    keys = {k["key"]: k for k in known}
    new, old = [], []
    for v in ctx.violations:
        (old if v["key"] in keys else new).append(v)
    seen = set()
    for v in old:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        print(f"KNOWN-FINDING: property={pid} {keys[v['key']]['what']}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = ctx.coverage()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    ev["coverage"]["facts"] = {"crates": prog.crates, "functions_in_facts": len(prog.fns), "seconds": round(fsec, 1), "reused_cache_for_same_source": reused}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {cov['explanation']}")
    print(f"{pid}: obligations={cov['obligations']} discharged={cov['discharged']} functions={cov['functions_analysed']} calls={cov['call_sites_examined']} wall={ev['wall_s']}s")
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write(f"# re-run: cd {VERIF} && ./check {pid}\n")
            for v in new:
                f.write(f"[{v['key']}]\n  {v['msg']}\n  at {v['where']}\n")
        for v in new:
            print(f"  [{v['key']}] {v['msg']} -- {v['where']}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
