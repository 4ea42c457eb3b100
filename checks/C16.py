"""Values read from the stream or taken from the configuration keep their value: no conversion narrows or re-signs them."""
from concurrent.futures import ThreadPoolExecutor
from vlib import bounds
from vlib.build import Broken

LEVEL = "other"


def check(ctx):
    ctx.program()
    with ThreadPoolExecutor(2) as ex:
        s, a = ex.map(lambda m: bounds.analyse(ctx, m), ("stream", "app"))
    kinds = ("trunc", "sext", "zext")
    st, used = bounds.decide(ctx, "stream", kinds, 3500, s)
    at, used2 = bounds.decide(ctx, "app", kinds, 3500, a)
    if st["conversions"]["kept"] < 600 or at["conversions"]["kept"] < 20:
        raise Broken("too few conversions of input values left: %s %s" % (st["conversions"], at["conversions"]))
    used.update(used2)
    ctx.coverage.update(
        explanation="Whole-program interval and taint analysis of the library's LLVM IR, once with stream values and once "
                    "with configuration values unbounded.  Each integer conversion of such a value is an obligation: a "
                    "narrowing conversion whose operand can take a value the target cannot hold, and a widening one that "
                    "turns a non-negative value negative or a negative one positive, is a violation.",
        conversions_stream=st["conversions"], conversions_config=at["conversions"], imprecise_ranges_silenced=used)
    ctx.assumptions += ["operands without a finite bound in the domain are not reported (undecided)",
                        "32-bit reads of the bit reader are bit patterns, signed or unsigned",
                        "entries of known/imprecise.json were judged by hand"]
