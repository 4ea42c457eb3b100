"""No pointer to a local variable is used after the variable has gone."""
from vlib.build import Broken
from checks.C03 import API

LEVEL = "other"


def check(ctx):
    # unoptimised code that says where the lifetime of each local ends
    p = ctx.program(level=("-O1", "-Xclang", "-disable-llvm-passes"))
    sites, n = [], None
    for l in ctx.tool("rules", "dangling", p.lib, *API).splitlines():
        r = l.split("\t")
        if r[0] == "dangle":
            ctx.violate((r[1], r[2], r[4]), "%s: %s" % (r[2], r[4]), r[3])
        elif r[0] == "site":
            sites.append({"function": r[1], "at": r[2], "member": r[4], "verdict": r[5]})
        elif r[0] == "sum":
            n = [int(x) for x in r[1:]]
    if not n or n[0] < 500 or n[1] < 200 or n[4] < 200:
        raise Broken("functions, pointer stores or block scopes vanished: %r" % n)
    ctx.coverage.update(
        explanation="Which roots (local, parameter, static object) every pointer can have, with summaries of what each callee "
                    "stores of one parameter behind another.  Every address of a local that is stored in memory outliving "
                    "the function is an obligation: overwritten on each path to the return, or read only in calls made from "
                    "the storing frame after the store.  Locals of inner blocks: no merged pointer and no member holding "
                    "their address is used after the block.",
        functions=n[0], pointer_stores=n[1], addresses_kept=sites, loads_of_such_members=n[3], block_locals=n[4])
    ctx.assumptions.append("a member is one location for all objects of its type; jump targets are decided by C03")
