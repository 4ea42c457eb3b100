"""Bounded stack: no variable-size frames, recursion with a proven bound, deepest call chain within one MiB."""
import sys
from vlib.build import Broken

API = ("ia_mpegh_dec_create", "ia_mpegh_dec_init", "ia_mpegh_dec_execute", "ia_mpegh_dec_delete",
       "ia_mpegh_dec_get_lib_id_strings")
LIMIT = 1 << 20          # default thread stack of the smallest supported platform (MSVC)
OVERHEAD = 256           # per frame: return address, saved registers, spills, outgoing arguments
SHRINK_DEPTH = 128       # levels granted to a recursion on a strictly shrinking element count
REVIEWED = {"impegh_quick_sort_idx": "sorts at most the loudspeakers of one layout",
            "impegh_quick_sort_azi": "sorts at most the loudspeakers of one layout"}


def check(ctx):
    p = ctx.program()
    frame, where, edges, sccs, bound = {}, {}, {}, [], {}
    for l in ctx.tool("rules", "stack", p.raw).splitlines():
        r = l.split("\t")
        if r[0] == "frame":
            frame[r[1]], where[r[1]] = int(r[2]), r[3]
        elif r[0] == "edge":
            edges.setdefault(r[1], set()).add(r[2])
        elif r[0] == "vla":
            ctx.violate(("vla", r[1]), "%s has a stack object whose size is computed at run time" % r[1], r[2])
    # recursion is judged on the optimised form (locals in registers)
    for l in ctx.tool("rules", "stack", p.lib).splitlines():
        r = l.split("\t")
        if r[0] == "scc":
            sccs.append(r[1:])
        elif r[0] == "bound":
            bound[r[1]] = r[2:]
    if len(frame) < 300 or not all(a in frame for a in API):
        raise Broken("API functions vanished")
    depth, notes = {}, []
    for c in sccs:
        b = bound[c[0]]
        name = ", ".join(sorted(c))
        if b[0] == "guard":
            d = 2
        elif b[0] == "shrinks":
            d = SHRINK_DEPTH
        elif b[0] == "none" and len(c) == 1 and c[0] in REVIEWED:
            d = SHRINK_DEPTH
            ctx.assumptions.append("recursion of %s: %s" % (c[0], REVIEWED[c[0]]))
        else:
            d = 1
            ctx.violate(("recursion",) + tuple(sorted(c)), "recursion through %s has no bound that follows from the code (%s)" %
                        (name, "it passes its size on undiminished" if b[0] == "same" else "neither a shrinking size nor a "
                         "state that ends it"), where.get(c[0], "?:0"))
        notes.append({"functions": sorted(c), "bound": " ".join(b), "levels": d})
        for f in c:
            depth[f] = (d, frozenset(c))
    # deepest chain over the condensation: a component costs all its frames, times its levels
    comp = {f: (depth[f][1] if f in depth else frozenset([f])) for f in frame}
    memo = {}
    sys.setrecursionlimit(10000)

    def deepest(c):
        if c in memo:
            return memo[c]
        own = sum(frame[f] + OVERHEAD for f in c) * (depth[next(iter(c))][0] if next(iter(c)) in depth else 1)
        best = (0, ())
        for f in c:
            for g in edges.get(f, ()):
                if g in comp and comp[g] != c:
                    x = deepest(comp[g])
                    if x[0] > best[0]:
                        best = x
        memo[c] = (own + best[0], (tuple(sorted(c)),) + best[1])
        return memo[c]

    chains = {}
    for a in API:
        n, path = deepest(comp[a])
        chains[a] = n
        if n > LIMIT:
            big = sorted((f for c in path for f in c), key=lambda f: -frame[f])[:3]
            ctx.violate(("depth", a, big[0]), "%s needs up to %d bytes of stack (limit %d); largest frames: %s" %
                        (a, n, LIMIT, ", ".join("%s %d" % (f, frame[f]) for f in big)), where.get(big[0], "?:0"))
    ctx.coverage.update(
        explanation="Frame sizes are the locals of every function in the unoptimised program; the deepest chain over the "
                    "call graph (indirect calls resolved by type) is bounded per API function, recursive components "
                    "counted with a bound proven from the code (a parameter that is zero on re-entry, or a size that "
                    "strictly shrinks); objects of run-time size are forbidden.",
        functions=len(frame), call_edges=sum(map(len, edges.values())), recursion=notes, stack_bytes=chains,
        limit=LIMIT)
