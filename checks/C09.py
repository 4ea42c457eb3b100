"""A failing API call reports a consumed byte count that is its own and is not zero."""
from vlib.build import Broken

LEVEL = "other"
API = ("ia_mpegh_dec_init", "ia_mpegh_dec_execute")
WHAT = {"stale": "returns a consumed byte count left from an earlier call",
        "zero": "returns an error with no byte consumed"}


def check(ctx):
    p = ctx.program()
    n = None
    for l in ctx.tool("rules", "progress", p.lib, *API).splitlines():
        r = l.split("\t")
        if r[0] == "progress":
            ctx.violate((r[1], r[2]), "%s: %s" % (r[2], WHAT[r[1]]), r[3])
        elif r[0] == "sum":
            n = [int(x) for x in r[1:]]
        else:
            raise Broken(l)
    if not n or n[0] < 2 or n[1] < 3 or n[4] < 10:
        raise Broken("functions or returns that set the byte count vanished: %r" % n)
    ctx.coverage.update(
        explanation="Path-sensitive dataflow from both API functions into every function that writes the count in the decoder "
                    "state or the output structure: which of {left from earlier, zero, not zero} each is at every return, "
                    "together with whether the returned code is an error.  Second returns of setjmp are entered with any count.",
        functions_setting_the_count=n[0], functions_analysed=n[1], contexts=n[2], states=n[3], api_returns=n[4],
        states_joined=n[5])
    ctx.assumptions.append("the count is reached through its structure type; a count written through a bare pointer is taken to be set")
