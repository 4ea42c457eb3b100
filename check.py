#!/usr/bin/env python3
"""check.py <property id> [--thorough]

Decides one property of /repo's current working tree statically.  Exit 0: holds.  Exit 1 (with a VIOLATION line):
broken.  Exit 2: the analysis could not be carried out (an anchor vanished, the tree does not compile, ...)."""
import importlib, json, os, shutil, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import build
from vlib.build import Broken


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.violations = []      # dicts: key, what, where, detail
        self.coverage = {}
        self.assumptions = []
        self._prog = {}

    def program(self, defines=(), level=None):
        d = tuple(defines) + tuple(level or ())
        if d not in self._prog:
            w = os.path.join(self.work, "p%d" % len(self._prog))
            os.makedirs(w)
            self._prog[d] = build.Program(w, tuple(defines), level) if level else build.Program(w, tuple(defines))
        return self._prog[d]

    def tool(self, name, *args, cwd=None):
        return build.run([os.path.join(VERIF, ".build", name)] + list(args), cwd=cwd or self.work)

    def violate(self, key, what, where, detail=None):
        """key: tuple of strings naming the construct (no line numbers)."""
        self.violations.append({"key": "|".join(str(k) for k in key), "what": what, "where": where,
                                "detail": detail or {}})


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        build.tools()
        mod = importlib.import_module("checks." + pid)
        mod.check(ctx)
    except Broken as e:
        print("ERROR property=%s analysis not possible: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    known = {}
    kf = os.path.join(VERIF, "known", "findings.json")
    if os.path.exists(kf):
        for f in json.load(open(kf))["findings"]:
            if f["property"] == pid:
                known[f["key"]] = f
    new, seen = [], {}
    for v in ctx.violations:
        if v["key"] in known:
            seen.setdefault(v["key"], []).append(v)
        else:
            new.append(v)
    for k, vs in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s (%s, %d site(s))" % (pid, known[k]["what"], vs[0]["where"], len(vs)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", pid + ".violations.json")
    if new:
        json.dump(new, open(os.path.join(VERIF, replay), "w"), indent=1)
        for v in new[:40]:
            print("  %s: %s" % (v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(os.path.join(VERIF, replay)):
        os.remove(os.path.join(VERIF, replay))
    ctx.coverage["known_findings_matched"] = len(seen)
    ev = {"property": pid, "tier": tier, "seed": ctx.seed, "level": getattr(mod, "LEVEL", "other"),
          "coverage": ctx.coverage, "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d violation(s), %d known finding(s), %.1f s" %
          (pid, tier, len(new), len(seen), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
