"""Instances share no mutable state: no object of static storage duration is ever written by library code."""
from vlib.build import Broken


def check(ctx):
    p = ctx.program()
    glob = {}
    n = {}
    rows = []
    for l in ctx.tool("rules", "globals", p.lib).splitlines():
        f = l.split("\t")
        if f[0] == "count":
            n[f[1]] = int(f[2])
        elif f[0] in ("gwrite", "gescape"):
            rows.append(f)
        elif f[0] == "gmut":
            glob[f[1]] = f
    if n.get("globals", 0) < 300:
        raise Broken("global inventory collapsed: %r" % n)
    for f in rows:
        ctx.violate((f[0], f[1]), "%s object %s of static storage duration %s in %s" %
                    (f[4], f[1], "is written" if f[0] == "gwrite" else "has its address stored where it can be written",
                     f[3]), f[2])
    ctx.coverage.update(
        explanation="Forward pointer-flow closure from every object of static storage duration in the linked library "
                    "bitcode (through GEPs, casts, phis, selects, spilled locals, call arguments and returns); a store, "
                    "memory intrinsic or unknown consumer reached from one is a violation, whatever its declared "
                    "constness.", counts=n, mutable_but_never_written=sorted(glob))
    ctx.assumptions.append("a pointer loaded from a table of pointers is not used to write through (the tables hold "
                           "addresses of constant objects, which live in read-only memory)")
