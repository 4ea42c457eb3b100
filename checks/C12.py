"""Every loop ends.

Per natural loop: count (computable trip count, not assuming that loops end), mono (a counter that advances in every round
towards a limit of no more than its own width; a value halved or multiplied towards a limit), walk (an address that moves on
by a constant and is dereferenced every round: memory safety, C01, bounds it by the object), read (at least one bit of input
is taken in every round, and input that runs out leaves the function).  What remains has been reviewed: REVIEWED holds, per
file, how many such loops there are and why they end.  A file with more of them is an alarm."""
from collections import Counter, defaultdict
import os
from vlib.build import Broken

READERS = ("ia_core_coder_read_bits_buf:1", "ia_core_coder_skip_bits_buf:1", "ia_core_coder_read_bits_buf_32:-1")
DRC, FFT = "sizes of the code tables never fall along the table, so every round consumes a bit or moves on", \
    "step nodespacing is a positive power of four or two, computed from the transform length"
REVIEWED = {
    "impd_drc_dynamic_payload.c": {"impd_drc_update_value": DRC},
    "impd_drc_extr_delta_coded_info.c": {"impd_drc_create_delta_time_code_tbl": "1 << val grows past a limit below 2^12"},
    "impd_drc_filter_bank.c": {"impd_drc_init_all_filter_banks": "each round moves on or removes an entry of the list"},
    "impd_drc_selection_process.c": {
        "impd_select_drc_set": "a second round needs the album restriction, which the first one lifts",
        "impd_get_dependent_drc_set": "8-bit counter, limit is the validated number of DRC instructions (below 128)"},
    "impeghd_binaural_filter_design.c": {"impeghd_compute_filter_params": "product of the counter and a length of at least 1"},
    "impeghd_binaural_renderer.c": {"impeghd_binaural_renderer_init#1": "counter to BINAURAL_NB_OUTPUT",
                                    "impeghd_binaural_renderer_init#2": "counter to the number of channels",
                                    "impeghd_binaural_struct_process_ld_ola": "a block is half the transform length (filter_size = fft_size / 2, fft_size a power of two of at least 2), so at least one sample",
                                    "impeghd_binaural_struct_init": "1 << n grows past a block length checked just before"},
    "impeghd_dmx_mtx.c": {"impeghd_decode_flat_compact_mtx": "each round of either loop reads a bit or moves mtx_idx on",
                          "impeghd_generate_gain_table#1": "s falls by at least 2^-3 towards a limit of at least -64",
                          "impeghd_generate_gain_table#2": "s rises by at least 2^-3 towards a limit of at most 32"},
    "impeghd_ext_rend_intrfc.c": {"impeghd_write_ch_meta_data_for_ext_ren": "finds the group that was counted",
                                  "impeghd_write_hoa_matrix_wrapper": "sqr falls from 7 until its square is small enough",
                                  "impeghd_write_hoa_meta_data_for_ext_ren": "finds the group that was counted"},
    "impeghd_ext_rend_intrfc_util.c": {"impeghd_read_ch_meta_data_for_ext_ren": "finds the group that was counted",
                                       "impeghd_read_hoa_matrix_wrapper": "sqr falls from 7",
                                       "impeghd_read_hoa_meta_data_for_ext_ren": "finds the group that was counted"},
    "impeghd_fft.c": {"impeghd_rad2_cplx_fft#%d" % i: FFT for i in range(1, 5)},
    "impeghd_ifft.c": {"impeghd_rad2_cplx_ifft#%d" % i: FFT for i in range(1, 5)},
    "impeghd_fft_ifft.h": {"norm32#1": "a positive value doubles until bit 30 is set", "norm32#2": "as above"},
    "impeghd_format_conv_init.c": {"impeghd_format_conv_init_data": "two nested counters sharing a header"},
    "impeghd_hoa_common_functions.c": {"impeghd_hoa_get_ceil_log2": "1 << ceil grows past a limit below 2^30"},
    "impeghd_hoa_config.c": {"impeghd_fill_config": "i grows until a sum that grows with it passes the coefficient count"},
    "impeghd_hoa_spatial_decoder.c": {"impeghd_hoa_spatial_decode_frame_side_info#1": "list ends with -1 (difference set)",
                                      "impeghd_hoa_spatial_decode_frame_side_info#2": "list ends with -1 (difference set)"},
    "impeghd_tbe_dec.c": {"ia_core_coder_tbe_gen_random_vec": "full-period generator",
                          "ia_core_coder_tbe_shift_lsf": "relaxation of ten values with gaps that fit the interval"},
    "ia_core_coder_acelp_bitparse.c": {"ia_core_coder_lpd_channel_stream": "idx grows by 1 << (mod - 1) or 1"},
    "ia_core_coder_arith_dec.c": {"ia_core_coder_arith_decode#1": "cfl is halved (after adding one) until it is 1",
                                  "ia_core_coder_arith_decode#2": "interval doubles until it spans the middle",
                                  "ia_core_coder_arth_decoding_level2": "escape symbols use up the input; then an error return",
                                  "ia_core_coder_arith_get_pk": "binary search"},
    "ia_core_coder_bitbuffer.c": {"impeghd_write_bits_buf": "at least one bit is written per round"},
    "ia_core_coder_env_extr.c": {"ia_core_coder_huffman_decode": "complete code (C14): every word is found"},
    "ia_core_coder_lpc.c": {"ia_core_coder_lpd_dec": "k grows by 1, 2 or 4 with the mode"},
    "ia_core_coder_spectrum_dec.c": {"ia_core_coder_fd_channel_stream": "group limits rise to the window count",
                                     "ia_core_coder_scale_factor_data": "tot_sfb is at most sfb_per_sbk times win_len"},
    "ia_core_coder_basic_ops40.h": {"ia_core_coder_rounded_sqrt64": "bit_set falls by two bits until not above a value"},
}


def check(ctx):
    p = ctx.program()
    kinds, open_, n, recur = Counter(), defaultdict(list), 0, []
    for l in ctx.tool("rules", "loops", p.lib, *READERS).splitlines():
        r = l.split("\t")
        if r[0] == "noreader":
            raise Broken("bit reader %s vanished" % r[1])
        if r[0] != "loop":
            continue
        n += 1
        kinds[r[3]] += 1
        if r[3] not in ("count", "mono", "walk", "read"):
            open_[os.path.basename(r[2].rsplit(":", 1)[0])].append((r[1].split(".")[0], r[2], r[3], r[4]))
    if n < 1000 or kinds["read"] < 5:
        raise Broken("loops vanished")
    for f, ls in sorted(open_.items()):
        rev = REVIEWED.get(f, {})
        if len(ls) <= len(rev):
            continue
        per = Counter(k.split("#")[0] for k in rev)
        over = []
        for fn, where, kind, why in ls:
            if per[fn] > 0:
                per[fn] -= 1
            else:
                over.append((fn, where, kind, why))
        for fn, where, kind, why in over or ls:
            ctx.violate(("loop", fn), "loop in %s is not bounded by a counter, a walk through an object or input it reads%s" %
                        (fn, ": " + why if why else ""), where)
    for f, rev in REVIEWED.items():
        for fn, note in rev.items():
            ctx.assumptions.append("%s ends: %s" % (fn.split("#")[0], note))
    ctx.assumptions.append("memory accesses stay inside their objects (C01); running out of input leaves the function (C03)")
    ctx.coverage.update(
        explanation="Every natural loop of the library is classified by the argument that bounds it; loops without such an "
                    "argument are listed individually with the reason that was found by review.",
        loops=n, by_argument=dict(kinds), reviewed=sum(len(v) for v in REVIEWED.values()))
