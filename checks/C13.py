"""Error codes: distinct, self-consistent, the only values the API can return, and each with its own message."""
import json, os, re
from vlib import build
from vlib.build import Broken, VERIF
from checks.C04 import codes

def flat(v):
    return [y for x in v for y in (flat(x) if isinstance(x, list) else [x])]


API = ("ia_mpegh_dec_create", "ia_mpegh_dec_init", "ia_mpegh_dec_execute", "ia_mpegh_dec_delete",
       "ia_mpegh_dec_get_lib_id_strings")
CLASSES = {"API": 0, "CONFIG": 1, "INIT": 2, "EXE": 3}
REF = os.path.join(VERIF, "known", "messages.json")


def check(ctx):
    p = ctx.program()
    d = {n: v & 0xffffffff for n, v in codes(ctx, p).items()}
    hdr = "impeghd_error_codes.h"
    by = {}
    for n, v in d.items():
        by.setdefault(v, []).append(n)
    nonames = 0
    for v, ns in sorted(by.items()):
        if len(ns) > 1:
            ctx.violate(("distinct",) + tuple(sorted(ns)), "%s share the value 0x%08x" % (" and ".join(sorted(ns)), v), hdr)
        fatal, cls = v >> 15 & 1, v >> 11 & 15
        for n in ns:
            w = n.split("_")
            said = [x for x in w if x in ("FATAL", "NONFATAL")]
            if said and (said[0] == "FATAL") != bool(fatal):
                ctx.violate(("severity", n), "%s has the severity bit of a%s error (0x%08x)" %
                            (n, " fatal" if fatal else " recoverable", v), hdr)
            if (fatal and v >> 16 != 0xffff) or (not fatal and v >> 16):
                ctx.violate(("severity", n), "%s = 0x%08x: severity bit and upper half disagree" % (n, v), hdr)
            c = [CLASSES[x] for x in w if x in CLASSES]
            if c and c[0] != cls:
                ctx.violate(("class", n), "%s = 0x%08x lies in class %d, its name says %d" % (n, v, cls, c[0]), hdr)
            if not said or not c:
                nonames += 1

    # every value an API function can return
    rows = [l.split("\t") for l in ctx.tool("rules", "retcodes", p.lib, *API).splitlines()]
    vals, fns = 0, 0
    reported = set()
    for r in rows:
        if r[0] == "missing":
            raise Broken("API function %s vanished" % r[1])
        if r[0] == "functions":
            fns = max(fns, int(r[2]))
        if r[0] == "leaf":
            k = ("computed", r[2], r[3])
            if k not in reported:
                reported.add(k)
                ctx.violate(k, "%s: the result of %s is computed (%s), not one of the error codes" % (r[2], r[1], r[3]), r[4])
        if r[0] == "const":
            v = int(r[2]) & 0xffffffff
            vals += 1
            if v and v not in by and ("undefined", r[3], r[2]) not in reported:
                reported.add(("undefined", r[3], r[2]))
                ctx.violate(("undefined", r[3], r[2]), "%s returns %d (0x%08x) to %s: no error code has that value" %
                            (r[3], int(r[2]), v, r[1]), r[4])
    if fns < 100:
        raise Broken("only %d functions contribute to the result of the API" % fns)

    # the messages the sample application prints for them
    T = json.loads(ctx.tool("rules", "tables", p.tb))
    slot, handlers = {}, set()
    for l in ctx.tool("rules", "errtab", p.tb).splitlines():
        r = l.split("\t")
        if len(r) == 7:
            slot.setdefault(r[1], {})[tuple(map(int, r[4:7]))] = (r[2], r[3])
    # the module's table is the one that covers the classes of the library
    cand = [s for s, t in slot.items() if any(k[1] == 2 for k in t)]
    if len(cand) != 1:
        raise Broken("the table of error messages was not found (%d candidates)" % len(cand))
    tab = slot[cand[0]]
    ref = json.load(open(REF)) if os.path.exists(REF) else {}
    mine, nmsg = {}, 0
    for n, v in sorted(d.items()):
        k = (v >> 15 & 1, v >> 11 & 15, v >> 8 & 7)
        if k not in tab:
            ctx.violate(("nomessage", n), "%s (0x%08x): the error handler has no message table for it" % (n, v), hdr)
            continue
        name, where = tab[k]
        rows_ = T.get(name, {}).get("v")
        rows_ = flat(rows_) if isinstance(rows_, list) else None
        if not isinstance(rows_, list):
            raise Broken("message table %s is not a table" % name)
        m = rows_[v & 255] if v & 255 < len(rows_) else None
        if not isinstance(m, dict) or not m.get("str"):
            ctx.violate(("nomessage", n), "%s (0x%08x): entry %d of %s holds no message" % (n, v, v & 255, name), T[name]["where"])
            continue
        mine[n] = (m["str"], name)
        nmsg += 1
    owner = {}
    for n, m in ref.items():
        owner.setdefault(m, set()).add(n)
    for n, (m, name) in sorted(mine.items()):
        if m in owner and n in ref and n not in owner[m]:
            ctx.violate(("message", n), "%s is reported with the message of %s: \"%s\"" % (n, sorted(owner[m])[0], m),
                        T[name]["where"])
    if os.environ.get("VERIF_WRITE_MESSAGES"):
        json.dump({n: m for n, (m, _) in sorted(mine.items())}, open(REF, "w"), indent=0)
    ctx.coverage.update(
        explanation="All error codes of the public header (values resolved by the preprocessor) are checked for distinctness "
                    "and for agreement of name and encoded severity/class; every constant that can flow into the result of "
                    "an API function (backward closure over returns, calls and longjmp values) must be one of them; every "
                    "code must select a message of its own in the sample application's handler.",
        error_codes=len(d), names_without_severity_or_class=nonames, return_values=vals, functions=fns,
        messages=nmsg, message_tables=len(tab))
