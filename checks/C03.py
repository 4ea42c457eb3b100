"""Running out of input leaves through a handler that is still on the stack, and the handler reports an error."""
from vlib.build import Broken

API = ("ia_mpegh_dec_create", "ia_mpegh_dec_init", "ia_mpegh_dec_execute", "ia_mpegh_dec_delete")


def check(ctx):
    p = ctx.program()
    calls, jumps, handlers, rets, seen = 0, [], [], {}, set()
    for l in ctx.tool("rules", "jumps", p.lib, *API).splitlines():
        r = l.split("\t")
        if r[0] in ("nofield", "noroot"):
            raise Broken("non-local exits or API function vanished: " + l)
        if r[0] == "call":
            calls += 1
            if r[4] == "dead" and (r[1], r[5]) not in seen:
                seen.add((r[1], r[5]))
                ctx.violate(("dead", r[1], r[3]), "%s hands %s a bit buffer whose jump target is not set, in this call, to a "
                            "handler that is still active" % (r[1], r[3]), r[2])
        elif r[0] == "longjmp":
            jumps.append(r[1])
            if r[3] == "0" or r[3] == "?":
                ctx.violate(("code", r[1]), "longjmp in %s passes no constant error" % r[1], r[2])
        elif r[0] == "handler":
            handlers.append(r[1])
            if r[3] != "ok":
                ctx.violate(("handler", r[1]), "%s: %s" % (r[1], r[3]), r[2])
        elif r[0] == "hret":
            rets.setdefault(r[1], set()).add(int(r[2]))
    if calls < 500 or len(jumps) < 3 or len(handlers) < 3:
        raise Broken("bit readers or handlers vanished")
    loc = 0
    for l in ctx.tool("rules", "clobber", p.raw).splitlines():
        r = l.split("\t")
        if r[0] == "clobber":
            ctx.violate(("clobber", r[1], r[3]), "handler in %s uses local %s, which may have changed after setjmp" % (r[1], r[3]), r[2])
        else:
            loc += int(r[3])
    ctx.coverage.update(
        explanation="Forward must-analysis over the call graph from the API functions: at every call that hands a bit buffer "
                    "to code that may jump, the buffer's jump target was stored on every path of this API call and belongs "
                    "to a function that has not returned; every handler returns a constant error, reads no more input and "
                    "uses no local that may have changed since setjmp.",
        calls_with_live_target=calls, longjmps=len(jumps), handlers=len(handlers), handler_locals=loc,
        handler_codes={f: sorted(v) for f, v in rets.items()})
    ctx.assumptions.append("a field is one location for all objects of its type (bit buffers of two decoders are not mixed)")
