"""PCM saturates: every conversion of a sample to output words is preceded by a clip to exactly the full scale."""
from vlib.build import Broken


def check(ctx):
    rows = [l.split("\t")[1:] for l in ctx.tool("rules", "fpconv", ctx.program().inlined()).splitlines()]
    if len(rows) < 20:
        raise Broken("only %d conversions found" % len(rows))
    # a function that emits a converted sample byte by byte is a PCM writer; all its narrowing stores count
    writers = {r[0] for r in rows if int(r[7]) >= 16}
    n, seen = [], 0
    for fn, via, where, ok, ty, lo, hi, nbytes, narrow, scale in rows:
        nbytes, narrow, lo, hi, scale = int(nbytes), int(narrow), float(lo), float(hi), float(scale)
        bits = nbytes if nbytes >= 16 else narrow if fn in writers and 16 <= narrow <= 32 else 0
        if not bits:
            continue
        seen += 1
        full = 2.0 ** (bits - 1)
        site = {"function": via or fn, "where": where, "bits": bits, "range": [lo, hi], "scale": scale}
        n.append(site)
        if ok != "ok":
            ctx.violate(("convert", via, bits), "%s: a sample beyond [%g, %g] reaches the conversion to %s unclipped or "
                        "clipped too wide (possible range %g .. %g): the delivered word wraps" %
                        (via, -full, full - 1, ty, lo, hi), where)
            continue
        if lo < -full or hi >= full:
            ctx.violate(("wrap", via, bits), "%s: values up to %g .. %g are cut down to %d bits without saturation" %
                        (via, lo, hi, bits), where)
        elif lo > 1 - full or hi < min(full - 1, full * (1 - 2.0 ** -24)):
            ctx.violate(("early", via, bits), "%s: clipping to %g .. %g is below the full scale of %d-bit words" %
                        (via, lo, hi, bits), where)
        if scale > 0 and scale != 2.0 ** (bits - 16):
            ctx.violate(("scale", via, bits), "%s: samples are scaled by %g for %d-bit words, full scale needs %g" %
                        (via, scale, bits, 2.0 ** (bits - 16)), where)
    if not seen:
        raise Broken("no PCM conversion found")
    ctx.coverage.update(
        explanation="For each float-to-integer conversion whose bytes are emitted as PCM the interval of the converted "
                    "value is derived from the clips on every path to it (value-range analysis with branch conditions): "
                    "it must lie within the word, reach its full scale, and the scale factor must be that of the width.",
        conversions_in_library=len(rows), pcm_conversions=seen, sites=n, writers=sorted(writers))
    ctx.assumptions.append("samples are numbers: a NaN compares false with every limit and is not considered")
