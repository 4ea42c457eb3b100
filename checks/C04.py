"""Errors are never dropped: seeded constant propagation from every call that can return an error code."""
import os, re
from vlib import build
from vlib.build import Broken

# Calls whose error result need not reach the application, with the reason.  Keyed by callee (and codes or file),
# never by position.  (callee, file or None, codes or None)
EXEMPT = [
    ("impeghd_hoa_ren_simple_mtrx_mult", None, {0x1208},
     "dimension mismatch of matrices the same routine shaped a few lines earlier; no input reaches it"),
    ("impeghd_hoa_ren_simple_mtrx_svd_init", None, {0x1208}, "as above"),
    ("impeghd_hoa_ren_space_positions_convert_copy_to_spherical", None, {0x1209},
     "coordinate kind is set by the constructor to one of the two handled kinds"),
    ("impeghd_hoa_ren_space_positions_convert_copy_to_cartesian", None, {0x1209}, "as above"),
    ("impeghd_format_conv_init_data", None, {0xffff9402},
     "recovery: an unknown loudspeaker layout selects the VBAP renderer path instead"),
    ("impeghd_resampler_get_sampling_ratio", None, {0x1004},
     "recovery: an unsupported ratio switches resampling off"),
    ("impeghd_find_comp_tmplt", None, {0xffff9403},
     "called only after both layouts were matched against the template list"),
    ("impeghd_get_geom_frm_spk_cfg", "impeghd_metadata_preprocessor.c", None,
     "recovery: without a signalled local set-up the geometry stays neutral (no loudspeaker is closest)"),
    ("_setjmp", "impeghd_api.c", None,
     "the handler tests the state pointer, which is set before the first jump can be taken"),
]


def codes(ctx, prog):
    hdr = os.path.join(build.REPO, "decoder", "impeghd_error_codes.h")
    if not os.path.exists(hdr):
        raise Broken("error code header vanished")
    # the resolved values come from the preprocessor, not from the text
    names = sorted(set(re.findall(r"^\s*#\s*define\s+(IA_\w+)", open(hdr, errors="replace").read(), re.M)))
    src = os.path.join(ctx.work, "codes.c")
    open(src, "w").write('#include "impeghd_error_codes.h"\n' + "".join('VP_%s = %s\n' % (n, n) for n in names))
    f = next(f for f, _ in prog.units["lib"] if f.endswith("impeghd_api.c"))
    out = build.run([build.LLVM + "clang", "-E", "-P"] + prog.flags[f] + [src])
    d = {}
    for m in re.finditer(r"^VP_(\w+)\s*=\s*\(*(0x[0-9A-Fa-f]+|\d+)\)*\s*$", out, re.M):
        v = int(m.group(2), 0)
        if v:
            d[m.group(1)] = v
    if len(d) < 150:
        raise Broken("only %d error codes resolved" % len(d))
    return d


def exempt(callee, file, cs):
    for c, f, k, why in EXEMPT:
        if c == callee and (f is None or f == file) and (k is None or cs <= k):
            return why
    return None


def rows(ctx, prog, extra=()):
    d = codes(ctx, prog)
    cf = os.path.join(ctx.work, "codes.txt")
    open(cf, "w").write("\n".join("0x%08x" % (v & 0xffffffff) for v in sorted(set(d.values()))))
    rs = [l.split("\t") for l in ctx.tool("rules", "errdrop", prog.lib, cf, *extra).splitlines()]
    # the same for codes assigned to a local: marked before promotion to registers
    raw, out = os.path.join(ctx.work, "marked.raw.bc"), os.path.join(ctx.work, "marked.bc")
    ctx.tool("rules", "errmark", prog.raw, cf, raw)
    build.run([build.LLVM + "opt", "-passes=sroa,simplifycfg<no-switch-to-lookup;no-speculate-blocks>", raw, "-o", out])
    rs += [l.split("\t") for l in ctx.tool("rules", "errdrop", out, cf, "marks").splitlines() if "\tvp_err_" in l]
    return d, rs


def check(ctx):
    p = ctx.program()
    d, rs = rows(ctx, p)
    ok = sum(1 for r in rs if r[0] == "errok")
    ex, bad = [], 0
    callees = set(r[1] for r in rs if r[0] in ("errok", "errdrop") and not r[1].startswith("vp_err_"))
    marks = sum(1 for r in rs if r[0] == "errok" and r[1].startswith("vp_err_"))
    ok -= marks
    for r in rs:
        if r[0] != "errdrop":
            continue
        _, callee, site, caller, exitloc, how, quant, cl = r[:8]
        cs = {int(x, 16) for x in cl.split(",") if x}
        why = exempt(callee, site.split(":")[0], cs)
        if why:
            ex.append({"callee": callee, "site": site, "reason": why})
            continue
        if callee.startswith("vp_err_"):
            code = int(callee[7:], 16)
            name = sorted(n for n, v in d.items() if v & 0xffffffff == code)[0]
            ctx.violate(("errset", name, caller), "%s: error %s assigned at %s is lost: %s (exit at %s)" %
                        (caller, name, site, how, exitloc), site)
            continue
        names = sorted(n for n, v in d.items() if v & 0xffffffff in cs)[:4]
        ctx.violate(("errdrop", callee, caller),
                    "%s: error of %s (%s) is lost: %s (exit at %s)" % (caller, callee, ", ".join(names), how, exitloc),
                    site)
    if marks < 300:
        raise Broken("only %d assigned error codes left" % marks)
    if ok < 200:
        raise Broken("only %d error-propagating call sites left" % ok)
    ctx.coverage.update(
        explanation="For every call site of a function that can return an error code, each code is seeded at the call and "
                    "propagated (conditional constant propagation, per code) to every exit of the caller; the caller's "
                    "result must carry an error on every path on which the call failed.  The same is required of "
                    "every error code assigned to a local variable.",
        error_codes=len(d), callees=len(callees), call_sites_ok=ok, error_assignments_ok=marks, call_sites_exempt=ex,
        samples=[r[1:4] for r in rs if r[0] == "errok"][:5])
    ctx.assumptions.append("an error that has been returned by every frame up to the API call is reported; a status "
                           "delivered through an out-parameter is treated like a return value only where returned")
