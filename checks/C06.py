"""No ambient authority: the only routines outside the library that library code can reach are a closed set."""
from vlib.build import Broken

MATH = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinf", "cosf", "tanf", "asinf", "acosf", "atanf",
        "atan2f", "exp", "expf", "exp2", "exp2f", "log", "logf", "log10", "log10f", "log2", "log2f", "pow", "powf",
        "sqrt", "sqrtf", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "lroundf", "lround", "rint", "rintf",
        "lrint", "lrintf", "trunc", "truncf", "fabs", "fabsf", "fmod", "fmodf", "fmax", "fmaxf", "fmin", "fminf",
        "cbrt", "cbrtf", "sinh", "cosh", "tanh", "sinhf", "coshf", "tanhf", "hypot", "hypotf", "ldexp", "ldexpf",
        "frexp", "frexpf", "modf", "modff", "copysign", "copysignf", "abs", "labs", "llabs", "sincos", "sincosf"}
PURE = {"memcmp", "memcpy", "memmove", "memset", "memchr", "strlen", "strcmp", "strncmp", "qsort", "bsearch"}
JUMP = {"longjmp", "_setjmp", "setjmp", "__sigsetjmp", "_longjmp"}
ALLOWED = MATH | PURE | JUMP


def check(ctx):
    p = ctx.program()
    calls = {}
    n = {}
    for l in ctx.tool("rules", "externs", p.lib).splitlines():
        f = l.split("\t")
        if f[0] == "count":
            n[f[1]] = int(f[2])
            continue
        calls.setdefault(f[1], []).append((f[0], f[2], f[3]))
    if n.get("direct_calls", 0) < 1000 or not any(c in calls for c in JUMP):
        raise Broken("call inventory collapsed: %r" % n)
    for c, sites in sorted(calls.items()):
        if c in ALLOWED:
            continue
        for kind, where, fn in sites:
            ctx.violate(("extern", c, fn), "library function %s reaches outside routine %s%s" %
                        (fn, c, " (address taken)" if kind == "extaddr" else ""), where)
    ctx.coverage.update(
        explanation="Every direct call, inline-asm statement and address-taken declaration in the linked bitcode of all "
                    "library translation units was resolved; any routine that is not defined in the library must be in "
                    "the closed set (math, memory comparison/copy, setjmp/longjmp). Allocation goes through the two "
                    "application-supplied function pointers, which are indirect calls.",
        translation_units=len(p.units["lib"]), direct_calls=n["direct_calls"], indirect_calls=n["indirect_calls"],
        external_routines={c: len(s) for c, s in sorted(calls.items())})
    ctx.assumptions.append("the C library's math and memory routines have no effect beyond their arguments")
