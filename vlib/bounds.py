"""Runs the interval analysis (engine/absint.cpp) and applies the reviewed list of imprecise ranges."""
import fnmatch, json, os, re
from vlib.build import Broken, VERIF

RNG = re.compile(r"(?: index)? range \[(-?\d+),(-?\d+)\](?: capacity (\d+))?$")


def glob(pat):
    """fnmatch with only * special ([16] is literal)."""
    return re.compile("".join(".*" if c == "*" else re.escape(c) for c in pat) + r"\Z")


class Row:
    def __init__(self, line):
        self.kind, self.where, self.func, self.what, self.path = (line.split("\t") + [""] * 5)[:5]
        m = RNG.search(self.what)
        if not m:
            raise Broken("unreadable analysis row: " + line[:200])
        self.lo, self.hi, self.cap = int(m.group(1)), int(m.group(2)), m.group(3)
        self.object = self.what[:m.start()]


def analyse(ctx, mode):
    out = ctx.tool("absint", ctx.program().lib, mode)
    rows, total = [], None
    for l in out.splitlines():
        if l.startswith("sites proven"):
            f = l.split()
            total = {"proven": int(f[2]), "undecided": int(f[4]), "flagged": int(f[6])}
        elif l.startswith("conversions kept"):
            f = l.split()
            conv = {"kept": int(f[2]), "undecided": int(f[4]), "flagged": int(f[6])}
        elif l.startswith("kinds\t"):
            pass
        elif l.startswith("config\t"):
            ctx.config = getattr(ctx, "config", [])
            ctx.config.append(l.split("\t")[1:])
        elif l:
            rows.append(Row(l))
    if not total:
        raise Broken("the analysis produced no summary")
    total["conversions"] = conv
    return rows, total


def decide(ctx, mode, kinds, least, rt=None):
    rows, total = rt or analyse(ctx, mode)
    if total["proven"] < least:
        raise Broken("only %d sites could be proven (at least %d expected)" % (total["proven"], least))
    ent = json.load(open(os.path.join(VERIF, "known", "imprecise.json")))["entries"]
    for e in ent:
        e["re"] = glob(e["object"])
    used = {}
    label = lambda e: "%s %s%s" % (e["kind"], e["object"], " via " + e["via"] if "via" in e else "")
    for r in rows:
        if r.kind not in kinds:
            continue
        for i, e in enumerate(ent):
            if e["kind"] == r.kind and e["re"].match(r.object) and e["lo"] <= r.lo and r.hi <= e["hi"] and \
               e.get("via", "") in r.path and not ("not_via" in e and e["not_via"] in r.path):
                used[i] = used.get(i, 0) + 1
                break
        else:
            ctx.violate((r.kind, r.object), r.what + " in " + r.func, r.where, {"path": r.path.split(">")})
    return total, {label(ent[i]): n for i, n in sorted(used.items())}
