"""Values the application puts into the configuration are bounded before the decoder works with them."""
from vlib import bounds
from vlib.build import Broken

LEVEL = "other"

# documented ranges (impeghd_config_params.h, README) of what the decoder keeps of the configuration; 0 is the value
# of the cleared instance
CREATED = {"ui_pcm_wdsz": (0, 32), "ui_effect_type": (0, 8), "ui_target_loudness": (-63, 0), "ui_cicp_layout_idx": (0, 19),
           "i_preset_id": (-128, 31), "drc_apply": (0, 1), "ui_loud_norm_flag": (0, 1), "ui_mhas_flag": (0, 1),
           "resample_output": (0, 1)}
END = dict(CREATED, ui_cicp_layout_idx=(-1, 20), fac_up=(0, 3), fac_down=(0, 2), output_framelength=(0, 3072),
           extrn_rend_flag=(0, 1))


def check(ctx):
    total, used = bounds.decide(ctx, "app", ("index", "memlen", "div", "shift", "width"), 3500)
    seen = {}
    for when, name, lo, hi in ctx.config:
        seen[when, name] = (int(lo), int(hi))
    for when, want in (("create", CREATED), ("end", END)):
        for name, (lo, hi) in want.items():
            if (when, name) not in seen:
                raise Broken("the decoder no longer keeps %s" % name)
            l, h = seen[when, name]
            if l < lo or h > hi:
                ctx.violate(("config", when, name), "the decoder's %s can be %d..%d, documented are %d..%d" %
                            (name, l, h, lo, hi), "decoder/impeghd_api.c")
    ctx.coverage.update(
        explanation="Whole-program interval analysis with every integer field of the application's configuration unbounded: "
                    "no such value reaches an index, a divisor, a shift amount or a copy length out of range, and what "
                    "creation and decoding keep of the configuration stays in the documented range.",
        sites=total, imprecise_ranges_silenced=used,
        kept={"%s after %s" % (n, w): list(r) for (w, n), r in sorted(seen.items()) if n in END})
    ctx.assumptions += ["undecided sites are not covered", "pointers and their lengths in the configuration are correct"]
