"""Blocks from the application's allocator: checked, large enough, aligned, recorded once, released once."""
from vlib.build import Broken


def check(ctx):
    blocks, counts = [], {}
    for l in ctx.tool("rules", "alloc", ctx.program().lib).splitlines():
        r = l.split("\t")
        if r[0] in ("nofield", "noroot", "limit", "opaque"):
            raise Broken("creation can no longer be followed: " + l)
        if r[0] == "count":
            counts[r[1]] = int(r[2])
        elif r[0] == "block":
            blocks.append("%s: %s bytes aligned to %s" % (r[4], r[2], r[3]))
        elif r[0] == "viol":
            ctx.violate((r[1], r[2]), r[4], r[3])
    if counts.get("blocks", 0) < 1 or counts.get("paths", 0) < 8 or counts.get("callback_uses", 0) < 2:
        raise Broken("no allocation found: %s" % counts)
    ctx.coverage.update(
        explanation="Path-sensitive constant propagation through creation (every allocation succeeding or failing, every "
                    "configuration branch) followed by deletion, with a typestate per block: unchecked, usable, recorded, "
                    "released; each access, clear and object placed in a block is checked against its size and alignment. "
                    "No other function may use the allocator callbacks.",
        blocks=sorted(set(blocks)), paths=counts["paths"], checked_accesses=counts["accesses"],
        objects_placed=counts["placed"], allocator_callback_uses=counts["callback_uses"])
    ctx.assumptions += ["the allocator returns NULL or size+alignment usable bytes (the sample application's contract)",
                        "the output configuration starts with malloc_count 0, as the sample application sets it",
                        "sizes of areas inside the persistent and scratch blocks beyond the objects creation places there "
                        "are not covered"]
