"""Indices and block lengths computed from the stream stay inside the object they address."""
from vlib import bounds

LEVEL = "other"


def check(ctx):
    total, used = bounds.decide(ctx, "stream", ("index", "memlen"), 3500)
    ctx.coverage.update(
        explanation="Whole-program interval and taint analysis (flow, path-partition and call-context sensitive) of the "
                    "library's LLVM IR from every API entry.  Each array index, constant-geometry pointer step and block "
                    "copy length in a function reached is an obligation: 'proven' lies inside the addressed object for "
                    "every input, 'flagged' is a bound derived from bits of the stream that exceeds it, 'undecided' has no "
                    "finite bound in the domain and is not reported.", sites=total, imprecise_ranges_silenced=used)
    ctx.assumptions += ["undecided sites are not covered", "entries of known/imprecise.json were judged by hand",
                        "memory handed out by the application is as large as the library asked for"]
