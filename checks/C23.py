"""No local variable is used before it has been given a value."""
import os
from concurrent.futures import ThreadPoolExecutor
from vlib import build
from vlib.build import Broken
from checks import C04

LEVEL = "other"
S = "simplifycfg<no-switch-to-lookup;no-speculate-blocks>"
J = "sroa,jump-threading,%s,early-cse<memssa>,loop-simplify,loop(loop-rotate),loop-mssa(licm,simple-loop-unswitch<nontrivial>),constraint-elimination,correlated-propagation" % S
# Three renderings of the same program.  Each only removes paths that cannot be taken, so a finding has to survive all.
RENDER = ("function(sroa,%s)" % S, "function(%s,jump-threading,%s)" % (J, S),
          "function(%s),cgscc(inline),function(%s,jump-threading,jump-threading,%s)" % (J, J, S))

# (function, parameter): the function writes its result for every argument it can be given
WRITES = (("impeghd_hoa_compute_fade_win_for_vec_based_syn", 0, "the interpolation method is a one-bit field: 0 or 1"),)


def check(ctx):
    # unoptimised code that says where the lifetime of each local starts
    p = ctx.program(level=("-O1", "-Xclang", "-disable-llvm-passes"))
    cf = os.path.join(ctx.work, "codes.txt")
    open(cf, "w").write("\n".join("0x%08x" % (v & 0xffffffff) for v in sorted(set(C04.codes(ctx, p).values()))))
    m = os.path.join(ctx.work, "marked.bc")
    marks = int(ctx.tool("rules", "uninitmark", p.raw, m).split()[1])

    def one(i):
        o = os.path.join(ctx.work, "render%d.bc" % i)
        build.run([build.LLVM + "opt", "-passes=" + RENDER[i], "-unswitch-threshold=2000", "-disable-licm-promotion", m, "-o", o])
        rs = [l.split("\t") for l in ctx.tool("rules", "uninit", o, cf, *[str(x) for w in WRITES for x in w[:2]]).splitlines()]
        n = next(r for r in rs if r[0] == "count")[1:]
        return {(r[1], r[4]): r for r in reversed(rs) if r[0] == "uninit"}, [int(x) for x in n]
    with ThreadPoolExecutor(3) as ex:
        out = list(ex.map(one, range(3)))
    for k in sorted(set(out[0][0]) & set(out[1][0]) & set(out[2][0])):
        _, var, site, func, decl, how = out[0][0][k]
        ctx.violate(("uninit", var, func), "%s: %s (declared at %s) is %s before it has a value" % (func, var, decl, how), site)
    n = out[0][1]
    if marks < 5000 or n[3] < 2000:
        raise Broken("only %d locals marked, %d places followed through calls" % (marks, n[3]))
    ctx.coverage.update(
        explanation="Every scalar local, and every scalar member of a local structure, starts its lifetime with a marker "
                    "value.  Where the variable lives in registers the marker is followed through copies, merges and bit "
                    "operations to its uses; where its address is taken, a forward dataflow over the places it can be "
                    "written decides whether a read (here or in a callee) can come first, with summaries of what each "
                    "function writes on every successful return and reads before writing.  A local array is "
                    "followed as a whole.",
        places_marked=marks, register_values_followed=n[0], addressed_locals=n[1], addressed_locals_not_followed=n[2],
        places_followed_through_calls=n[3], arrays=n[6], loads_checked=n[4], calls_checked=n[5],
        reviewed_writers=[list(w) for w in WRITES], findings_per_rendering=[len(o[0]) for o in out])
    ctx.assumptions += ["an array counts as given a value once something has written an element of it; copies of whole structures "
                        "are not followed",
                        "after a call that reported an error the caller does not read its results (C04 decides that errors "
                        "are passed on)",
                        "a read behind a flag the same function hands out is taken to be covered by that flag"]
