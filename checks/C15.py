"""No division by zero, over-wide shift or over-wide bit request whose operand derives from the stream."""
from vlib import bounds

LEVEL = "other"


def check(ctx):
    total, used = bounds.decide(ctx, "stream", ("div", "shift", "width"), 3500)
    ctx.coverage.update(
        explanation="Whole-program interval and taint analysis of the library's LLVM IR from every API entry.  Each integer "
                    "division or remainder, shift by a variable and bit count requested from the bit reader is an "
                    "obligation; a divisor whose stream-derived range contains zero, a shift amount outside the operand "
                    "width or a bit count outside 0..32 is a violation.", sites=total, imprecise_ranges_silenced=used)
    ctx.assumptions += ["operands without a finite bound in the domain are not reported (sites.undecided)",
                        "entries of known/imprecise.json were judged by hand"]
