From 1bb393ddc90d0f17100d24a5492adc2b35be3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 01/67] fix: share no writable Huffman code book between
 decoder instances

The scale factor code book was a writable global that every initialisation
rewrote while other instances may be decoding with it; make it constant.
---
 decoder/ia_core_coder_create.c     |  4 ---
 decoder/ia_core_coder_ext_ch_ele.c |  2 +-
 decoder/ia_core_coder_huff_tools.c | 57 ------------------------------
 decoder/ia_core_coder_igf_dec.c    |  2 +-
 decoder/ia_core_coder_info.h       |  8 +----
 decoder/ia_core_coder_rom.c        | 13 ++++++-
 6 files changed, 15 insertions(+), 71 deletions(-)

diff --git a/decoder/ia_core_coder_create.c b/decoder/ia_core_coder_create.c
index 6c80235..d5e7c77 100644
--- a/decoder/ia_core_coder_create.c
+++ b/decoder/ia_core_coder_create.c
@@ -268,10 +268,6 @@ static IA_ERRORCODE ia_core_coder_decode_init(VOID *handle, ia_usac_data_struct
   memset(usac_data->window_shape, 0, MAX_NUM_CHANNELS * sizeof(WORD32));
   memset(usac_data->window_shape_prev, 0, MAX_NUM_CHANNELS * sizeof(WORD32));
 
-  ia_core_coder_hufftab(&ia_core_coder_book, ia_core_coder_book_scl_huff_code_word,
-                        ia_core_coder_book_scl_code_book, ia_core_coder_book_scl_index, 1, 60, 60,
-                        1, 19);
-
   usac_data->pstr_usac_winmap[4] = &usac_data->str_only_long_info;
   usac_data->pstr_usac_winmap[3] = &usac_data->str_only_long_info;
   usac_data->pstr_usac_winmap[2] = &usac_data->str_eight_short_info;
diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 5eec955..7854154 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -129,7 +129,7 @@ static VOID ia_core_coder_cplx_pred_data(ia_usac_data_struct *usac_data,
                                          WORD32 num_win_groups, ia_bit_buf_struct *it_bit_buff,
                                          WORD32 chn)
 {
-  ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
+  const ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
   const ia_huff_code_word_struct *ptr_huff_code_word = ptr_huff_code_book->pstr_huff_code_word;
   WORD32 cplx_pred_all;
   WORD32 delta_code_time;
diff --git a/decoder/ia_core_coder_huff_tools.c b/decoder/ia_core_coder_huff_tools.c
index 7e61840..f234d06 100644
--- a/decoder/ia_core_coder_huff_tools.c
+++ b/decoder/ia_core_coder_huff_tools.c
@@ -45,63 +45,6 @@
  * @{
  */
 
-/**
- *  ia_core_coder_hufftab
- *
- *  \brief Initialize huffman code book and sort codewords by length
- *
- *  \param [in,out]    ptr_huff_code_book      Huffman code book
- * structure
- *  \param [in]      ptr_huff_code_word      Huffman code word
- * structure
- *  \param [in]      code_book_tbl        code book table pointer
- *  \param [in]      index            code book index
- *  \param [in]      dim              dimension
- *  \param [in]      lav              Largest
- * Absolute
- * Value
- *  \param [in]      lav_incr_esc        LAV escape
- *  \param [in]      sign_code_book        specify code books as signed
- * or
- * unsigned
- *  \param [in]      max_code_word_len      maximum code word length
- *
- *
- *
- */
-VOID ia_core_coder_hufftab(ia_huff_code_book_struct *ptr_huff_code_book,
-                           const ia_huff_code_word_struct *ptr_huff_code_word,
-                           const WORD16 *code_book_tbl, const WORD32 *index, WORD32 dim,
-                           WORD32 lav, WORD32 lav_incr_esc, WORD32 sign_code_book,
-                           UWORD8 max_code_word_len)
-{
-  WORD32 i, num;
-
-  if (sign_code_book)
-  {
-    ptr_huff_code_book->huff_mode = (lav << 1) + 1;
-    ptr_huff_code_book->off = lav;
-  }
-  else
-  {
-    ptr_huff_code_book->huff_mode = lav + 1;
-    ptr_huff_code_book->off = 0;
-  }
-  num = 1;
-  for (i = 0; i < dim; i++)
-    num = num * ptr_huff_code_book->huff_mode;
-
-  ptr_huff_code_book->code_book_tbl = code_book_tbl;
-  ptr_huff_code_book->dim = dim;
-  ptr_huff_code_book->idx_tbl = index;
-  ptr_huff_code_book->lav = lav;
-  ptr_huff_code_book->lav_incr_esc = lav_incr_esc;
-  ptr_huff_code_book->max_code_word_len = max_code_word_len;
-  ptr_huff_code_book->num = num;
-  ptr_huff_code_book->pstr_huff_code_word = ptr_huff_code_word;
-  ptr_huff_code_book->sign_code_book = sign_code_book;
-}
-
 /**
  *  ia_core_coder_huff_codeword
  *
diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index 97c2071..a4fafc1 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -1772,7 +1772,7 @@ VOID ia_core_coder_igf_stereo_pred_data(ia_usac_data_struct *usac_data, WORD32 n
                                         WORD32 igf_win_type, ia_bit_buf_struct *it_bit_buff,
                                         WORD32 chn, WORD32 elem_idx)
 {
-  ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
+  const ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
   const ia_huff_code_word_struct *ptr_huff_code_word = ptr_huff_code_book->pstr_huff_code_word;
   WORD32 igf_stereo_pred_all;
   WORD32 delta_code_time;
diff --git a/decoder/ia_core_coder_info.h b/decoder/ia_core_coder_info.h
index 11891a2..9a8721d 100644
--- a/decoder/ia_core_coder_info.h
+++ b/decoder/ia_core_coder_info.h
@@ -106,13 +106,7 @@ typedef struct
   WORD32 buffer_fullness;
 } ia_prog_config_struct;
 
-extern ia_huff_code_book_struct ia_core_coder_book;
-
-VOID ia_core_coder_hufftab(ia_huff_code_book_struct *ptr_huff_code_book,
-                           const ia_huff_code_word_struct *ptr_huff_code_word,
-                           const WORD16 *code_book_tbl, const WORD32 *index, WORD32 dim,
-                           WORD32 lav, WORD32 lav_incr_esc, WORD32 sign_code_book,
-                           UWORD8 max_code_word_len);
+extern const ia_huff_code_book_struct ia_core_coder_book;
 
 WORD32 ia_core_coder_huff_codeword(const ia_huff_code_word_struct *h,
                                    ia_bit_buf_struct *it_bit_buff);
diff --git a/decoder/ia_core_coder_rom.c b/decoder/ia_core_coder_rom.c
index 53fae36..6a6d00f 100644
--- a/decoder/ia_core_coder_rom.c
+++ b/decoder/ia_core_coder_rom.c
@@ -1322,7 +1322,18 @@ const FLOAT32 ia_core_coder_pow_neg_igf_whitening[64] = {
     796131445440512.0000000f,  1125899906842624.0000000f, 1592262890881024.0000000f,
     2251799813685248.0000000f, 3184525781762048.0000000f, 4503599627370496.0000000f,
     6369051563524096.0000000f};
-ia_huff_code_book_struct ia_core_coder_book;
+const ia_huff_code_book_struct ia_core_coder_book = {
+    .num = 121,
+    .dim = 1,
+    .lav = 60,
+    .lav_incr_esc = 60,
+    .huff_mode = 121,
+    .off = 60,
+    .sign_code_book = 1,
+    .max_code_word_len = 19,
+    .pstr_huff_code_word = ia_core_coder_book_scl_huff_code_word,
+    .code_book_tbl = ia_core_coder_book_scl_code_book,
+    .idx_tbl = ia_core_coder_book_scl_index};
 
 const WORD16 ia_core_coder_sfb_96_1024[] = {4,   8,   12,  16,  20,  24,  28,  32,  36,  40,  44,
                                             48,  52,  56,  64,  72,  80,  88,  96,  108, 120, 132,
-- 
2.43.0


From 75fb32d91ba928a2b1caf56513937f3a9d2b68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 02/67] fix: report set-up failures instead of ending the host
 process

The format converter called exit() and the downmix matrix decoder asserted
when the derived layout is inconsistent; return an error code instead.
---
 decoder/impeghd_dmx_mtx.c          | 11 ++++++++---
 decoder/impeghd_format_conv_init.c |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index a6472e2..795457a 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -36,7 +36,6 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
-#include <assert.h>
 
 #include <impeghd_type_def.h>
 #include "impeghd_hoa_common_values.h"
@@ -824,14 +823,20 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   for (i = 0; i < num_in_compact; i++)
   {
     WORD32 in_type = pscr->ptr_inp_spk_comp_conf[i]->pair_type;
-    assert(in_type != DMX_SPK_NONE);
+    if (in_type == DMX_SPK_NONE)
+    {
+      return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_PARAM;
+    }
 
     for (j = 0; j < num_out_compact; j++)
     {
       WORD32 out_type = pscr->ptr_out_spk_comp_conf[j]->pair_type;
       WORD32 in_org_pos = pscr->ptr_inp_spk_comp_conf[i]->original_position;
       WORD32 out_org_pos = pscr->ptr_out_spk_comp_conf[j]->original_position;
-      assert(out_type != DMX_SPK_NONE);
+      if (out_type == DMX_SPK_NONE)
+      {
+        return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_PARAM;
+      }
 
       if (in_type != DMX_SPK_SYMMETRIC && out_type != DMX_SPK_SYMMETRIC)
       {
diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 64ad1be..ab8dce7 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -864,7 +864,7 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
   }
   if (channel != ptr)
   {
-    exit(-1);
+    return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
   }
   if (ref_spk_layout->spk_layout_type == 2)
   {
-- 
2.43.0


From dcd34b1264249db1b227feef05722cb9d094bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 03/67] fix: propagate errors raised while setting up the
 format converter

Results of the CICP geometry look-up, the downmix matrix decoder, the gain
table generator and the EQ set-up were discarded, so initialisation carried
on with unset geometry pointers or half decoded tables.
---
 decoder/ia_core_coder_decode_main.c | 12 ++++++++----
 decoder/impeghd_dmx_mtx.c           |  6 +++++-
 decoder/impeghd_format_conv_init.c  | 18 ++++++++++++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..e309899 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -683,7 +683,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       const WORD32 *in_channel_names, *out_channel_names;
       ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
       ia_cicp_ls_geo_str *ptr_cicp_out_geometry[CICP_MAX_NUM_LS];
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx,
           (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[0], &num_speakers_lcl, &num_lfes_lcl,
           (const WORD32 **)&in_channel_names);
@@ -692,7 +692,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
       }
 
-      impeghd_cicpidx_2_ls_geometry(
+      error_num = impeghd_cicpidx_2_ls_geometry(
           cicp_idx, (const ia_cicp_ls_geo_str **)&ptr_cicp_out_geometry[0], &num_speakers_out,
           &num_lfes_out, (const WORD32 **)&out_channel_names);
       if (error_num != IA_MPEGH_DEC_NO_ERROR)
@@ -782,8 +782,12 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
                7) /
                   8);
           dmx_bitbuf.xmpeghd_jmp_buf = p_obj_mpegh_dec->p_state_mpeghd->xmpeghd_jmp_buf;
-          impeghd_decode_downmix_matrix(pstr_fc_params, pstr_dmx_params, &dmx_bitbuf,
-                                        ptr_scratch);
+          error_num = impeghd_decode_downmix_matrix(pstr_fc_params, pstr_dmx_params,
+                                                    &dmx_bitbuf, ptr_scratch);
+          if (error_num != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return error_num;
+          }
         }
       }
     }
diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index 795457a..2a0e637 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -817,7 +817,11 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   if (0 == raw_code_non_zeros)
   {
     pscr->gain_coder.gain_lg_param = ia_core_coder_read_bits_buf(ptr_bit_buf, 3);
-    impeghd_generate_gain_table(&pscr->gain_coder);
+    err_code = impeghd_generate_gain_table(&pscr->gain_coder);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
   }
 
   for (i = 0; i < num_in_compact; i++)
diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index ab8dce7..56c8388 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -901,8 +901,13 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
             }
             else
             {
-              impeghd_format_conv_compute_eq_dev(sampling_freq, pstr_params, RULE_NOPROC,
-                                                 ptr_io_proc[i], nrm_height, 1 - nrm_height);
+              err_code = impeghd_format_conv_compute_eq_dev(sampling_freq, pstr_params, RULE_NOPROC,
+                                                            ptr_io_proc[i], nrm_height,
+                                                            1 - nrm_height);
+              if (err_code != IA_MPEGH_DEC_NO_ERROR)
+              {
+                return err_code;
+              }
               // compute_eq(bands_nrm, nbands, sfreq_Hz, RULE_NOPROC, nrm_height,
               // params->ptr_io_proc[i], 1.0f - nrm_height, params->eq[rand_eq_index]);
               ptr_io_proc[i] = rand_eq_index;
@@ -919,8 +924,13 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
             }
             else
             {
-              impeghd_format_conv_compute_eq_dev(sampling_freq, pstr_params, RULE_EQ5,
-                                                 ptr_io_proc[i], nrm_height, 1 - nrm_height);
+              err_code = impeghd_format_conv_compute_eq_dev(sampling_freq, pstr_params, RULE_EQ5,
+                                                            ptr_io_proc[i], nrm_height,
+                                                            1 - nrm_height);
+              if (err_code != IA_MPEGH_DEC_NO_ERROR)
+              {
+                return err_code;
+              }
               // compute_eq(bands_nrm, nbands, sfreq_Hz, RULE_EQ5, nrm_height,
               // params->ptr_io_proc[i], 1.0f - nrm_height, params->eq[rand_eq_index]);
               ptr_io_proc[i] = rand_eq_index;
-- 
2.43.0


From e1f109175c2ff666f4303248702aea7f8eaee462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 04/67] fix: stop decoding a frame when a processing stage
 reports an error

Errors of the domain switcher, format converter, second DRC stage and earcon
converter were overwritten or ignored and the frame was output regardless.
---
 decoder/ia_core_coder_decode_main.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index e309899..2928734 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2129,8 +2129,12 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         ptr_scratch += (MAX_NUM_CHANNELS * FC_STFT_FRAMEx2 * 4);
 
         ia_format_converter_scratch *pstr_ds_scratch = (ia_format_converter_scratch *)ptr_scratch;
-        impeghd_domain_switcher_process(handle, num_channel_out, 1,
-                                        &pstr_ds_scratch->scratch_ds[0]);
+        err_code = impeghd_domain_switcher_process(handle, num_channel_out, 1,
+                                                   &pstr_ds_scratch->scratch_ds[0]);
+        if (err_code != IA_MPEGH_DEC_NO_ERROR)
+        {
+          return err_code;
+        }
         pstr_dec_data->str_drc_payload.str_gain_dec[0].ia_drc_params_struct.gain_delay_samples =
             128;
         err_code = impeghd_uni_drc_dec_process(pstr_usac_dec_cfg, pstr_dec_data, ele,
@@ -2143,6 +2147,10 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         pstr_ds_scratch = (ia_format_converter_scratch *)ptr_scratch;
         err_code = impeghd_domain_switcher_process(handle, num_channel_out, 0,
                                                    &pstr_ds_scratch->scratch_ds[0]);
+        if (err_code != IA_MPEGH_DEC_NO_ERROR)
+        {
+          return err_code;
+        }
       }
       else
       {
@@ -2766,6 +2774,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         pstr_fc_scratch = (ia_format_converter_scratch *)ptr_fc_scratch;
         err_code = impeghd_format_converter_process(handle, num_channel_out,
                                                     &pstr_fc_scratch->scratch_fc[0]);
+        if (err_code != IA_MPEGH_DEC_NO_ERROR)
+        {
+          return err_code;
+        }
       }
       if ((pstr_dec_data->str_drc_payload.num_sets[1] > 0 ||
            pstr_dec_data->str_drc_payload.num_sets[2] > 0))
@@ -2784,6 +2796,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         }
         err_code = impeghd_uni_drc_dec_process(&pstr_asc->str_usac_config.str_usac_dec_config,
                                                pstr_dec_data, 0, 0, FC_STFT_FRAMEx2, 1);
+        if (err_code != IA_MPEGH_DEC_NO_ERROR)
+        {
+          return err_code;
+        }
       }
       if ((pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0) &&
           (!pstr_asc->str_mae_asi.earcon_info.earcon_fc_init_done))
@@ -2805,8 +2821,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
           ia_pcm_data_config *pstr_pcm_data = &pstr_asc->str_mae_asi.pcm_data_config;
           ia_format_converter_scratch *pstr_earcon_scratch;
           pstr_earcon_scratch = handle->p_state_mpeghd->mpeghd_scratch_mem_v;
-          impeghd_format_conv_earcon_process(handle, pstr_pcm_data,
-                                             &pstr_earcon_scratch->scratch_fc_ercon[0]);
+          err_code = impeghd_format_conv_earcon_process(
+              handle, pstr_pcm_data, &pstr_earcon_scratch->scratch_fc_ercon[0]);
+          if (err_code != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return err_code;
+          }
           for (channel = 0; channel < (WORD32)handle->mpeghd_config.ui_n_channels; channel++)
           {
             ia_core_coder_mem_cpy(pstr_pcm_data->pcm_sample[channel],
-- 
2.43.0


From e9d81ee47655970ce67d02ea064469ea52088adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 05/67] fix: honour errors of MHAS packet payload parsers

The result of the PCM data and loudness parsers (and of the packet parser
itself during initialisation) was ignored, and parsing did not resume at the
declared end of a loudness packet.
---
 decoder/ia_core_coder_headerdecode.c |  7 ++++++-
 decoder/impeghd_mhas_parse.c         | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..df01cf4 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -177,7 +177,12 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
 
     if (0 == ui_raw_flag)
     {
-      impeghd_mhas_parse(&info, &pstr_asc->str_mae_asi, handle_bit_buff);
+      err = impeghd_mhas_parse(&info, &pstr_asc->str_mae_asi, handle_bit_buff);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        return err;
+      }
       if (MHAS_PAC_TYP_MPEGH3DACFG != info.packet_type)
       {
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..518c641 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1351,7 +1351,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_packet_data_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_config_present = 1;
-      impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
@@ -1362,9 +1366,20 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     break;
     case MHAS_PAC_TYP_LOUDNESS:
     {
+      WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       ia_drc_payload_struct str_drc_payload;
       err_code = impd_drc_mpegh3da_parse_loudness_info_set(&str_drc_payload.str_loud_info,
                                                            pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
+      cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
+      if (cnt_bits < (pkt_len << 3))
+      {
+        WORD32 skip_bits = (pkt_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(pstr_bit_buf, skip_bits);
+      }
     }
     break;
     default:
-- 
2.43.0


From 377160c7bbe340e547e450c90c6efac6701d2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 06/67] fix: propagate loudspeaker set-up and object metadata
 configuration errors

---
 decoder/ia_core_coder_init_config.c     | 102 +++++++++++++++---------
 decoder/impeghd_metadata_preprocessor.c |  28 +++++--
 decoder/impeghd_scene_displacement.c    |  38 ++++++---
 3 files changed, 115 insertions(+), 53 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..1b0c7a0 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -305,7 +305,11 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   {
     *ptr_usac_ext_ele_payload_len = usac_ext_element_config_length;
     cnt_bits = it_bit_buff->cnt_bits;
-    impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    err_code = impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
     if (cnt_bits > (WORD32)(usac_ext_element_config_length << 3))
     {
@@ -1164,14 +1168,19 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                             WORD32 num_spk)
 {
   WORD32 i = 0, in_num_channels = 0, in_num_lfes = 0, azimuth;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_flex_spk_data->angular_precision = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   while (i < num_spk)
   {
     azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    err = impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                  pstr_flex_spk_data->angular_precision);
+    if (err != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
@@ -1308,9 +1317,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1438,8 +1451,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err != IA_MPEGH_DEC_NO_ERROR)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1731,6 +1748,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
   UWORD32 i;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
   if (spk_config_3d->spk_layout_type == 0)
@@ -1751,8 +1769,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      err = impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
+                                    spk_config_3d->num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       break;
     }
     case 1:
@@ -1765,8 +1787,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  err = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                     &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1901,12 +1927,12 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
+  WORD32 spk_idx;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
@@ -1929,18 +1955,18 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
-          ptr_geometry[i].cicp_loudspeaker_idx =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          spk_idx = speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
+          if (spk_idx < 0 || spk_idx >= CICP_MAX_CH)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+          }
+          ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[spk_idx];
+          ptr_geometry[i].cicp_loudspeaker_idx = spk_idx;
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
         if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
         {
@@ -1956,18 +1982,18 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        spk_idx = speaker_config_3d->cicp_spk_idx[i];
+        if (spk_idx < 0 || spk_idx >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+        }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[spk_idx];
+        ptr_geometry[i].cicp_loudspeaker_idx = spk_idx;
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 040aa1e..cb3fc09 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2221,9 +2221,17 @@ static IA_ERRORCODE impeghd_md_create_diffuse_part(
       }
       else if ((pstr_local_setup_config->spk_config.spk_layout_type == 0) && (i == 0))
       {
-        impeghd_cicpidx_2_ls_geometry(pstr_local_setup_config->spk_config.cicp_spk_layout_idx,
-                                      (const ia_cicp_ls_geo_str **)&str_ls_geo[0], &num_ch,
-                                      &num_lfes, (const WORD32 **)&channel_names);
+        const ia_cicp_ls_geo_str *ptr_ls_geo[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
+        if (impeghd_cicpidx_2_ls_geometry(
+                pstr_local_setup_config->spk_config.cicp_spk_layout_idx, &ptr_ls_geo[0], &num_ch,
+                &num_lfes, (const WORD32 **)&channel_names))
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+        }
+        for (j = 0; j < num_ch; j++)
+        {
+          str_ls_geo[j] = *ptr_ls_geo[j];
+        }
       }
 
       if (str_ls_geo[i].lfe_flag == 0)
@@ -2273,9 +2281,17 @@ static IA_ERRORCODE impeghd_md_create_diffuse_part(
       }
       else if ((pstr_local_setup_config->spk_config.spk_layout_type == 0) && (i == 0))
       {
-        impeghd_cicpidx_2_ls_geometry(pstr_local_setup_config->spk_config.cicp_spk_layout_idx,
-                                      (const ia_cicp_ls_geo_str **)&str_ls_geo[0], &num_ch,
-                                      &num_lfes, (const WORD32 **)&channel_names);
+        const ia_cicp_ls_geo_str *ptr_ls_geo[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
+        if (impeghd_cicpidx_2_ls_geometry(
+                pstr_local_setup_config->spk_config.cicp_spk_layout_idx, &ptr_ls_geo[0], &num_ch,
+                &num_lfes, (const WORD32 **)&channel_names))
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+        }
+        for (j = 0; j < num_ch; j++)
+        {
+          str_ls_geo[j] = *ptr_ls_geo[j];
+        }
       }
 
       if (str_ls_geo[i].lfe_flag == 0)
diff --git a/decoder/impeghd_scene_displacement.c b/decoder/impeghd_scene_displacement.c
index a285d1d..3dff3b7 100644
--- a/decoder/impeghd_scene_displacement.c
+++ b/decoder/impeghd_scene_displacement.c
@@ -392,10 +392,18 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
         }
         else if ((layout_type == 0) && (i == 0))
         {
-          impeghd_cicpidx_2_ls_geometry(pstr_local_setup->spk_config.cicp_spk_layout_idx,
-                                        (const ia_cicp_ls_geo_str **)&str_ls_geo[0],
-                                        &num_channels, &num_lfes,
-                                        (const WORD32 **)&channel_names);
+          const ia_cicp_ls_geo_str *ptr_ls_geo[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
+          error = impeghd_cicpidx_2_ls_geometry(pstr_local_setup->spk_config.cicp_spk_layout_idx,
+                                                &ptr_ls_geo[0], &num_channels, &num_lfes,
+                                                (const WORD32 **)&channel_names);
+          if (error != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return error;
+          }
+          for (j = 0; j < num_channels; j++)
+          {
+            str_ls_geo[j] = *ptr_ls_geo[j];
+          }
         }
       }
     }
@@ -438,10 +446,18 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
         }
         else if ((layout_type == 0) && (i == 0))
         {
-          impeghd_cicpidx_2_ls_geometry(pstr_local_setup->spk_config.cicp_spk_layout_idx,
-                                        (const ia_cicp_ls_geo_str **)&str_ls_geo[0],
-                                        &num_channels, &num_lfes,
-                                        (const WORD32 **)&channel_names);
+          const ia_cicp_ls_geo_str *ptr_ls_geo[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
+          error = impeghd_cicpidx_2_ls_geometry(pstr_local_setup->spk_config.cicp_spk_layout_idx,
+                                                &ptr_ls_geo[0], &num_channels, &num_lfes,
+                                                (const WORD32 **)&channel_names);
+          if (error != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return error;
+          }
+          for (j = 0; j < num_channels; j++)
+          {
+            str_ls_geo[j] = *ptr_ls_geo[j];
+          }
         }
       }
     }
@@ -530,10 +546,14 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
             { /* CICP speaker layout idx */
               WORD32 num_channels = -1;
               WORD32 num_lfes = -1;
-              impeghd_cicpidx_2_ls_geometry(
+              error = impeghd_cicpidx_2_ls_geometry(
                   pstr_signals_3d->audio_ch_layout[sig_grp_idx].cicp_spk_layout_idx,
                   (const ia_cicp_ls_geo_str **)&ptr_str_geo[0], &num_channels, &num_lfes,
                   (const WORD32 **)&channel_names);
+              if (error != IA_MPEGH_DEC_NO_ERROR)
+              {
+                return error;
+              }
               pstr_interact_cfg->az_modified[k] = geo[k].ls_azimuth;
               pstr_interact_cfg->ele_modified[k] = geo[k].ls_elevation;
               if (max_ls_dist > 0)
-- 
2.43.0


From d7b80fafa057dc23b35454c53427a049d843f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 07/67] fix: propagate LPD synthesis, interaction and renderer
 set-up errors

---
 decoder/ia_core_coder_imdct.c            |  9 ++++++---
 decoder/ia_core_coder_lpc.c              |  8 ++++++--
 decoder/impeghd_ele_interaction_intrfc.c | 18 +++++++++++++++---
 decoder/impeghd_hoa_decoder.c            |  7 ++++++-
 decoder/impeghd_obj_ren_dec.c            |  6 +++++-
 5 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/decoder/ia_core_coder_imdct.c b/decoder/ia_core_coder_imdct.c
index 85e71a4..f9fa68e 100644
--- a/decoder/ia_core_coder_imdct.c
+++ b/decoder/ia_core_coder_imdct.c
@@ -654,9 +654,12 @@ IA_ERRORCODE impeghd_lpd_bpf(WORD32 isShort, FLOAT32 out_buffer[], ia_usac_lpd_d
     }
   }
 
-  ia_core_coder_bass_post_filter(synth, synth, td_config->fac_fb, pitch, pit_gain, signal_out,
-                                 (lpd_sfd + 2) * LEN_SUBFR + (BPF_SUBFRAME * LEN_SUBFR),
-                                 len_frame - (lpd_sfd + 4) * LEN_SUBFR, st->bpf_prev);
+  if (ia_core_coder_bass_post_filter(synth, synth, td_config->fac_fb, pitch, pit_gain, signal_out,
+                                     (lpd_sfd + 2) * LEN_SUBFR + (BPF_SUBFRAME * LEN_SUBFR),
+                                     len_frame - (lpd_sfd + 4) * LEN_SUBFR, st->bpf_prev))
+  {
+    return IA_MPEGH_DEC_EXE_FATAL_INVALID_PITCH_LAG;
+  }
 
   ia_core_coder_mem_cpy(signal_out, out_buffer,
                         td_config->fac_fb *
diff --git a/decoder/ia_core_coder_lpc.c b/decoder/ia_core_coder_lpc.c
index 8958041..ebc21e9 100644
--- a/decoder/ia_core_coder_lpc.c
+++ b/decoder/ia_core_coder_lpc.c
@@ -1059,8 +1059,12 @@ IA_ERRORCODE ia_core_coder_lpd_dec(ia_usac_data_struct *usac_data, ia_usac_lpd_d
   if (first_lpd_flag && (pmode[0] == 0 || pmode[1] == 0 ||
                          (!td_config->full_band_lpd && pmode[2] == 0 && len_subfrm != LEN_FRAME)))
   {
-    ia_core_coder_lpd_dec_preemph_res(usac_data, st, pstr_td_frame_data, td_config,
-                                      short_fac_flag, tmp_scratch, synth_fb, synth);
+    err = ia_core_coder_lpd_dec_preemph_res(usac_data, st, pstr_td_frame_data, td_config,
+                                            short_fac_flag, tmp_scratch, synth_fb, synth);
+    if (err != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err;
+    }
   }
 
   if (first_lpd_flag && pmode[0] > 0 && td_config->full_band_lpd && st != NULL)
diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..149c858 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -103,10 +103,15 @@ mpegh3dapstr_local_setup_dataInformation
 static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
                                          ia_local_setup_struct *pstr_local_setup_data)
 {
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  err_code = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -433,7 +438,10 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     }
   }
 
-  impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  if (impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi))
+  {
+    return IA_MPEGH_EI_INIT_FATAL_INVALID_ID;
+  }
   ptr_ele_intrctn->ei_data_present = 1;
   return IA_MPEGH_DEC_NO_ERROR;
 }
@@ -566,7 +574,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
diff --git a/decoder/impeghd_hoa_decoder.c b/decoder/impeghd_hoa_decoder.c
index f48ad8d..71beb54 100644
--- a/decoder/impeghd_hoa_decoder.c
+++ b/decoder/impeghd_hoa_decoder.c
@@ -93,7 +93,12 @@ IA_ERRORCODE impeghd_hoa_dec_init(impeghd_hoa_dec_struct *dec_handle, WORD32 spk
   ia_hoa_config_struct *ia_hoa_config = dec_handle->ia_hoa_config;
   IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   dec_handle->ptr_scratch = scratch;
-  impeghd_hoa_spatial_init(&dec_handle->spat_dec_handle, ia_hoa_config, dec_handle->ptr_scratch);
+  err = impeghd_hoa_spatial_init(&dec_handle->spat_dec_handle, ia_hoa_config,
+                                 dec_handle->ptr_scratch);
+  if (err)
+  {
+    return err;
+  }
   {
     err = impeghd_hoa_ren_renderer_init(&(dec_handle->hoa_renderer), spk_idx, ref_spk_layout,
                                         &ia_hoa_config->order, MAX_NUM_HOA_ORDERS, 1,
diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..19182fb 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1292,7 +1292,11 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   {
     impeghd_remap_imag_spks(ptr_obj_ren_dec_state);
   }
-  impeghd_vbap_core_init(ptr_obj_ren_dec_state);
+  err_code = impeghd_vbap_core_init(ptr_obj_ren_dec_state);
+  if (err_code)
+  {
+    return err_code;
+  }
 
   for (i = MAX_NUM_OAM_OBJS; i > 0; i--)
   {
-- 
2.43.0


From 0e2b76eaae3fb1011256994ea6067d6622c153f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 08/67] fix: report configuration and initialisation errors to
 the application

---
 decoder/impeghd_api.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..8fdec72 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -501,6 +501,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   pVOID pv_value;
   WORD32 ui_api_size;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
+  IA_ERRORCODE config_err_code = IA_MPEGH_DEC_NO_ERROR;
   ia_input_config *pstr_input_config = (ia_input_config *)pv_input;
   ia_output_config *pstr_output_config = (ia_output_config *)pv_output;
   ia_mpegh_dec_api_struct *p_obj_mpegh_dech;
@@ -538,7 +539,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
         (ia_mpegh_dec_block_tables_struct *)&ia_core_coder_mpeghd_block_tables;
   }
 
-  err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
+  config_err_code = impeghd_set_config_params(p_obj_mpegh_dech, pstr_input_config);
 
   pstr_output_config->ui_proc_mem_tabs_size =
       (sizeof(ia_mem_info_struct) + sizeof(pVOID *)) * (NUM_MEMTABS);
@@ -577,7 +578,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   }
   impeghd_update_output_config(p_obj_mpegh_dech, pstr_output_config);
 
-  return err_code;
+  return config_err_code;
 }
 
 /**
@@ -804,7 +805,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
         p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
   }
-  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag && err_code == IA_MPEGH_DEC_NO_ERROR)
   {
     ia_binaural_in_stream_cfg_str wav_info;
     ia_dec_data_struct *pstr_dec_data =
@@ -1276,7 +1277,7 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
         return return_val;
       }
 
-      if (return_val == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES)
+      if (return_val != IA_MPEGH_DEC_NO_ERROR)
       {
         p_state_mpegh_dec->i_bytes_consumed = header_bytes_consumed;
         return return_val;
-- 
2.43.0


From 8adf58aa95cfd79aa60b48f7f3ccd99506a724fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 09/67] fix: reject configuration packets longer than the
 saved-configuration buffer

---
 decoder/ia_core_coder_decode_main.c  | 4 ++++
 decoder/ia_core_coder_headerdecode.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 2928734..29e79c4 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2517,6 +2517,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         WORD32 bytes_consumed;
         WORD32 flush = 0;
+        if (pac_info.packet_length < 0 || pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index df01cf4..132907f 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -188,6 +188,10 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
+      if (info.packet_length < 0 || info.packet_length > MAX_CFG_DATA_LENGTH)
+      {
+        return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
+      }
     }
     {
       bit_offset = handle_bit_buff->cnt_bits;
-- 
2.43.0


From 1e9bfd9a069f4d7b08264c767d27652f4b38e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 10/67] fix: keep flexible loudspeaker descriptions inside
 their arrays

---
 decoder/ia_core_coder_init_config.c | 12 +++++++-----
 decoder/impeghd_obj_ren_dec.c       |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 1b0c7a0..b2f43b9 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1193,11 +1193,9 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
              (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 0) &&
              (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 8))
     {
-      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-
-      ptr_cicp_ls_geometry[i] =
+      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry =
           &ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx];
-      if (!ptr_cicp_ls_geometry[i]->lfe_flag)
+      if (!ptr_cicp_ls_geometry->lfe_flag)
       {
         in_num_channels++;
       }
@@ -1205,7 +1203,7 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       {
         in_num_lfes++;
       }
-      azimuth = (WORD32)(ptr_cicp_ls_geometry[i]->ls_azimuth);
+      azimuth = (WORD32)(ptr_cicp_ls_geometry->ls_azimuth);
     }
 
     if ((azimuth != 0) && (azimuth != 180))
@@ -1214,6 +1212,10 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       if (pstr_flex_spk_data->also_add_symetric_pair)
       {
         i++;
+        if (i >= num_spk)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+        }
         pstr_flex_spk_data->str_flex_spk_descr[i] = pstr_flex_spk_data->str_flex_spk_descr[i - 1];
         pstr_flex_spk_data->str_flex_spk_descr[i].az_direction =
             1 - pstr_flex_spk_data->str_flex_spk_descr[i].az_direction;
diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 19182fb..efbd539 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -150,7 +150,7 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
       pp_cicp_ls_geometry[i]->ls_azimuth_start = ia_cicp_ls_geo_tbls[idx].ls_azimuth_start;
       pp_cicp_ls_geometry[i]->ls_azimuth_end = ia_cicp_ls_geo_tbls[idx].ls_azimuth_end;
       pp_cicp_ls_geometry[i]->lfe_flag = ia_cicp_ls_geo_tbls[idx].lfe_flag;
-      *num_lfe += ptr_flex_spk->str_flex_spk_descr[idx].is_lfe;
+      *num_lfe += ia_cicp_ls_geo_tbls[idx].lfe_flag;
     }
   }
   return 0;
-- 
2.43.0


From 3f66e4bc835e4de5c9d3cd3499b176626745f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 11/67] fix: reject multichannel groups beyond the channel
 arrays

---
 decoder/impeghd_multichannel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..9f30b4a 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -275,6 +275,12 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
   ia_bit_buf_struct it_bit_buff;
   ia_multichannel_data *ptr_mc_data = &pstr_usac_dec_config->ia_mcdata[mct_cnt];
 
+  if (start_ch < 0 || num_ch < 0 || start_ch > MAX_NUM_CHANNELS || num_ch > MAX_NUM_CHANNELS ||
+      start_ch + num_ch > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_INVALID_CONFIG_FOR_NUM_CH;
+  }
+
   ptr_bitbuf = pstr_usac_dec_config->usac_ext_ele_payload_buf[start_element];
   bitbuf_len = (UWORD8)pstr_usac_dec_config->usac_ext_ele_payload_len[start_element];
   ia_core_coder_create_init_bit_buf(&it_bit_buff, ptr_bitbuf, bitbuf_len);
-- 
2.43.0


From b28d18e1b296e6d9eb36f310e7f60e321523b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 12/67] fix: reject DRC gain set counts beyond the gain set
 array

---
 decoder/impd_drc_static_payload.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..0d11852 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -718,6 +718,12 @@ impd_drc_parse_coeff(ia_drc_uni_drc_coeffs_struct *pstr_p_loc_drc_coefficients_u
     pstr_p_loc_drc_coefficients_uni_drc->gain_set_count =
         (WORD8)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
 
+    if (GAIN_SET_COUNT_MAX < pstr_p_loc_drc_coefficients_uni_drc->gain_set_count)
+    {
+      pstr_p_loc_drc_coefficients_uni_drc->gain_set_count = 0;
+      return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
+    }
+
     for (cnt = 0; cnt < pstr_p_loc_drc_coefficients_uni_drc->gain_set_count; cnt++)
     {
       err_code = impd_drc_parse_gain_set_params(
-- 
2.43.0


From fa69b66a37e54880b53feb2485be42df3a90db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 13/67] fix: reject group members beyond the channel arrays

---
 decoder/impeghd_metadata_preprocessor.c | 20 ++++++++++++++++++++
 decoder/impeghd_mhas_parse.c            | 10 ++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index cb3fc09..782f094 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2378,6 +2378,10 @@ static IA_ERRORCODE impeghd_md_create_diffuse_part(
           {
             mae_id = pstr_mae_asi->group_definition[i].start_id + j;
           }
+          if (mae_id < 0 || mae_id >= MAX_NUM_CHANNELS)
+          {
+            return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+          }
           for (k = 0; k < num_objects; k++)
           {
             if (mae_id == pstr_interact_cfg->list_oam[k])
@@ -3699,6 +3703,10 @@ static IA_ERRORCODE impeghd_md_proc_apply_scrn_rel_remapping_zooming(
               {
                 member_id = pstr_asc->str_mae_asi.group_definition[i].start_id + k;
               }
+              if (member_id < 0 || member_id >= MAX_NUM_CHANNELS)
+              {
+                return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+              }
 
               /* get OAM data for the current group member */
               for (j = 0; j < pstr_interaction_config->oam_count; j++)
@@ -3812,6 +3820,10 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
 
           member_id = pstr_mae_asi->group_definition[i].start_id + k;
         }
+        if (member_id < 0 || member_id >= MAX_NUM_CHANNELS)
+        {
+          return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+        }
 
         memset(&pstr_dec_data->str_usac_data.time_sample_vector[member_id][0], 0,
                sizeof(pstr_dec_data->str_usac_data.time_sample_vector[member_id][j]) *
@@ -3844,6 +3856,10 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
               {
                 member_id = pstr_mae_asi->group_definition[i].start_id + k;
               }
+              if (member_id < 0 || member_id >= MAX_NUM_CHANNELS)
+              {
+                return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+              }
 
               /* interpolate between lastGain and currentGain over the interval of 1 frame */
 
@@ -3986,6 +4002,10 @@ static IA_ERRORCODE impeghd_md_proc_apply_div_proc(ia_interaction_data_struct *p
 
           if (has_divergence)
           {
+            if (mae_id < 0 || mae_id >= MAX_NUM_CHANNELS)
+            {
+              return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+            }
             for (m = 0; m < pstr_interact_cfg->oam_count; m++)
             {
               if (pstr_interact_cfg->list_oam[m] == mae_id)
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 518c641..9507f7b 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -339,6 +339,7 @@ impeghd_mae_parse_drc_user_interface_info(ia_drc_user_interface_info *pstr_drc_u
 static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_definition,
                                               ia_bit_buf_struct *pstr_bit_buf, WORD32 num_grps)
 {
+  WORD32 num_members;
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
     pstr_group_definition[grp].group_id = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
@@ -386,8 +387,13 @@ static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_defin
       pstr_group_definition[grp].max_gain = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
     }
 
-    pstr_group_definition[grp].group_num_members =
-        (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
+    num_members = ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
+    /* divergence processing may append two more members */
+    if (num_members > MAX_GROUP_NUM_MEMBERS - 2)
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
+    }
+    pstr_group_definition[grp].group_num_members = (WORD8)num_members;
 
     if ((pstr_group_definition[grp].has_conjunct_members =
              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
-- 
2.43.0


From c9dc9178008059f1c1d16d406fb1c7caf10c2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 14/67] fix: reject a coded sampling frequency of 1 Hz, whose
 half divides in the IGF setup

---
 decoder/ia_core_coder_init_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index b2f43b9..a47b355 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1274,7 +1274,7 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
   }
 
   if ((pstr_usac_conf->usac_sampling_frequency > MAX_SAMPLE_RATE) ||
-      (pstr_usac_conf->usac_sampling_frequency == 0))
+      (pstr_usac_conf->usac_sampling_frequency < 2)) /* half the rate is a divisor */
   {
     return IA_MPEGH_DEC_INIT_FATAL_SAMP_FREQ_NOT_SUPPORTED;
   }
-- 
2.43.0


From 369465dfe60e03741419f20a19f45371f793df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 15/67] fix: reject MP4 mae boxes with more groups, presets or
 conditions than stored

---
 decoder/impeghd_api.c            | 21 +++++++++++++---
 decoder/impeghd_mae_mp4_intrfc.c | 43 +++++++++++++++++++++++++-------
 decoder/impeghd_mae_mp4_intrfc.h | 12 ++++-----
 3 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 8fdec72..384f31b 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -724,7 +724,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maeg_buf,
                                       pstr_input_config->maeg_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maes_flag == 1 && pstr_input_config->ptr_maes_buf != NULL)
@@ -742,7 +747,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maes_buf,
                                       pstr_input_config->maes_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maep_flag == 1 && pstr_input_config->ptr_maep_buf != NULL)
@@ -760,7 +770,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maep_buf,
                                       pstr_input_config->maep_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
diff --git a/decoder/impeghd_mae_mp4_intrfc.c b/decoder/impeghd_mae_mp4_intrfc.c
index 8876eae..a2c470f 100644
--- a/decoder/impeghd_mae_mp4_intrfc.c
+++ b/decoder/impeghd_mae_mp4_intrfc.c
@@ -35,6 +35,7 @@
 #include <impeghd_type_def.h>
 #include "ia_core_coder_bitbuffer.h"
 #include "ia_core_coder_cnst.h"
+#include "impeghd_error_codes.h"
 #include "impeghd_memory_standards.h"
 #include "impeghd_mhas_parse.h"
 
@@ -162,17 +163,22 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE error if any
  *
  */
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 i, j, num_conditions, num_group_presets;
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->num_group_presets =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_group_presets = ptr_mae_audio_scene_info->num_group_presets;
+  if (num_group_presets > MAX_NUM_GROUPS_PRESETS)
+  {
+    ptr_mae_audio_scene_info->num_group_presets = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
+  }
   for (i = 0; i < num_group_presets; i++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
@@ -185,6 +191,12 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions =
         ia_core_coder_read_bits_buf(ptr_read_buff, 8);
     num_conditions = ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions;
+    if (num_conditions > MAX_GROUP_PRESET_NUM_CONDITIONS)
+    {
+      ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions = 0;
+      ptr_mae_audio_scene_info->num_group_presets = 0;
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_PR_GRP_NUM_COND;
+    }
     for (j = 0; j < num_conditions; j++)
     {
       ptr_mae_audio_scene_info->group_presets_definition[i].reference_id[j] =
@@ -225,6 +237,7 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
       }
     }
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maes
@@ -234,11 +247,11 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE error if any
  *
  */
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_switch_groups, i, j;
 
@@ -246,6 +259,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_switch_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_switch_groups = ptr_mae_audio_scene_info->num_switch_groups;
+  if (num_switch_groups > MAX_NUM_SWITCH_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_switch_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS;
+  }
   for (i = 0; i < num_switch_groups; i++)
   {
     ptr_mae_audio_scene_info->switch_group_definition[i].allow_on_off = 0;
@@ -269,6 +287,7 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->switch_group_definition[i].default_group_id =
         ia_core_coder_read_bits_buf(ptr_read_buff, 7); // default id
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maeg
@@ -278,11 +297,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE error if any
  *
  */
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_grps;
   ptr_mae_audio_scene_info->main_stream_flag = 1;
@@ -293,6 +312,11 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_grps = ptr_mae_audio_scene_info->num_groups;
+  if (num_grps > MAX_NUM_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
+  }
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
@@ -348,4 +372,5 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   }
   ptr_mae_audio_scene_info->group_definition[0].start_id = 0;
   ptr_mae_audio_scene_info->group_definition[1].start_id = 2;
+  return IA_MPEGH_DEC_NO_ERROR;
 }
diff --git a/decoder/impeghd_mae_mp4_intrfc.h b/decoder/impeghd_mae_mp4_intrfc.h
index a7f774e..8c5d9a8 100644
--- a/decoder/impeghd_mae_mp4_intrfc.h
+++ b/decoder/impeghd_mae_mp4_intrfc.h
@@ -37,11 +37,11 @@
 
 VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
                           ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
 
 #endif /* IMPEGHD_MAE_INTRFC_H */
\ No newline at end of file
-- 
2.43.0


From f498c7ecaa13cdc7a25400d78d132c9a3c4d71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 16/67] fix: reject more loudness info sets than the decoder
 stores

---
 decoder/impd_drc_static_payload.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 0d11852..0417bb4 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -483,6 +483,11 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   WORD32 cnt;
 
   pstr_loudness_info_set->loudness_info_count = ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+  if (pstr_loudness_info_set->loudness_info_count > LOUDNESS_INFO_COUNT_MAX)
+  {
+    pstr_loudness_info_set->loudness_info_count = 0;
+    return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
+  }
 
   for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_count; cnt++)
   {
@@ -519,6 +524,11 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   {
     pstr_loudness_info_set->loudness_info_album_count =
         ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+    if (pstr_loudness_info_set->loudness_info_album_count > LOUDNESS_INFO_COUNT_MAX)
+    {
+      pstr_loudness_info_set->loudness_info_album_count = 0;
+      return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
+    }
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-- 
2.43.0


From d41d7ec93d0f833f3c10ce97fb43a77a41a2ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 17/67] fix: bound the time domain BRIR filter and diffuse
 block lengths

---
 decoder/impeghd_binaural.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..0503779 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -179,6 +179,14 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   {
     return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
   }
+  if (pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER)
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_TAPS;
+  }
+  if (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS)
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_FILTER_LENGTH;
+  }
 
   for (pair = 0; pair < pstr_binaural_rep->brir_pairs; pair++)
   {
-- 
2.43.0


From 410dc6822240379271252c1a3d16f972e076d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 18/67] fix: reject local setup with more loudspeakers or WIRE
 outputs than stored

---
 decoder/impeghd_ele_interaction_intrfc.c | 7 ++++++-
 decoder/impeghd_ele_interaction_intrfc.h | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 149c858..97a1fb2 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -107,6 +107,10 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
   err_code = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
   if (err_code != IA_MPEGH_DEC_NO_ERROR)
   {
@@ -586,7 +590,8 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
 
   /*bsNumWIREoutputs shall not be larger than (numAudioChannels +
   numAudioObjects)*/
-  if (num_wire_out > (pstr_signals_3d.num_audio_obj + pstr_signals_3d.num_ch))
+  if (num_wire_out > (pstr_signals_3d.num_audio_obj + pstr_signals_3d.num_ch) ||
+      num_wire_out > MAX_NUM_WIRE_OUTS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_INVALID_NUM_WIRE_OUTS;
   }
diff --git a/decoder/impeghd_ele_interaction_intrfc.h b/decoder/impeghd_ele_interaction_intrfc.h
index 911b461..7ccf9f1 100644
--- a/decoder/impeghd_ele_interaction_intrfc.h
+++ b/decoder/impeghd_ele_interaction_intrfc.h
@@ -38,6 +38,7 @@
 #define MAX_NUM_EI_BRIR_PAIRS 10
 #define MAX_EI_BRIR_SIZE 128
 #define MAX_EI_LENGTH_DIRECT_FILTER 1024
+#define MAX_NUM_WIRE_OUTS (128)
 #define MAX_NUM_DIFFUSE_BLOCKS_EI 10
 
 #define MAE_MAX_NUM_OBJECTS (32)
@@ -66,7 +67,7 @@ typedef struct
 } ia_cicp_ls_geo_str_1;
 typedef struct
 {
-  UWORD32 wire_id[128];
+  UWORD32 wire_id[MAX_NUM_WIRE_OUTS];
   WORD32 enable_ele_int;
   UWORD32 num_spk;
   WORD32 *ptr_spk_dist;
-- 
2.43.0


From d5cf37c9238f135d1e81a2dfd0d531e07c96e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 19/67] fix: reject groups with more members than the scene
 displacement arrays

---
 decoder/impeghd_scene_displacement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_scene_displacement.c b/decoder/impeghd_scene_displacement.c
index 3dff3b7..339425a 100644
--- a/decoder/impeghd_scene_displacement.c
+++ b/decoder/impeghd_scene_displacement.c
@@ -471,6 +471,11 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
       WORD32 num_members = pstr_mae_asi->group_definition[i].group_num_members;
       WORD32 type = impeghd_md_proc_signal_group_type(pstr_asc, pstr_signals_3d, i);
 
+      if (num_members > MAE_MAX_NUM_GROUPS)
+      {
+        return IA_MPEGH_MAE_EXE_FATAL_ASI_NUM_GROUP_DIFFER;
+      }
+
       if ((type == 1) && (!oamDataAvailable))
       {
         break;
-- 
2.43.0


From 07e7b799b79f8aa4d3e103507bf29f92a76e7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 20/67] fix: reject PCM packets with more signals or longer
 frames than stored

---
 decoder/ia_core_coder_decode_main.c | 12 +++++++++++-
 decoder/ia_core_coder_rom.c         |  2 +-
 decoder/ia_core_coder_rom.h         |  3 ++-
 decoder/impeghd_mhas_parse.c        | 22 ++++++++++++++++++----
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 29e79c4..2fe1bd5 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1313,6 +1313,12 @@ static IA_ERRORCODE impeghd_earcon_obj_md_dec_ren_process(ia_dec_data_struct *ps
   ia_obj_ren_dec_state_struct *pstr_obj_ren_dec_state = &pstr_dec_data->str_obj_ren_dec_state;
   ia_oam_dec_state_struct *pstr_obj_md_dec_state = &pstr_obj_ren_dec_state->str_obj_md_dec_state;
 
+  if (pstr_pcm_data_config->pcm_frame_size_idx >= PCM_FRAME_SIZE_TBL_LEN ||
+      ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx] > MAX_NUM_PCM_SAMPLES)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
+  }
+
   num_objects = pstr_obj_md_dec_state->num_objects;
   ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
   ptr_in_buf = &pstr_pcm_data_config->pcm_sample[0][0];
@@ -2840,7 +2846,11 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         }
         else
         {
-          impeghd_earcon_obj_md_dec_ren_process(pstr_dec_data, ptr_ec_scratch);
+          err_code = impeghd_earcon_obj_md_dec_ren_process(pstr_dec_data, ptr_ec_scratch);
+          if (err_code != IA_MPEGH_DEC_NO_ERROR)
+          {
+            return err_code;
+          }
           for (channel = 0; channel < (WORD32)handle->mpeghd_config.ui_n_channels; channel++)
           {
             ia_core_coder_mem_cpy(&ptr_ec_scratch[channel * pstr_dec_data->str_usac_data.ccfl],
diff --git a/decoder/ia_core_coder_rom.c b/decoder/ia_core_coder_rom.c
index 6a6d00f..d94a2c2 100644
--- a/decoder/ia_core_coder_rom.c
+++ b/decoder/ia_core_coder_rom.c
@@ -1283,7 +1283,7 @@ const UWORD32 ia_core_coder_pow10_gain_div28[128] = {
     32381723, 35157197};
 
 const WORD32 ia_pcm_bits_per_sample_table[] = {16, 24, 32};
-const WORD32 ia_pcm_frame_size_tbl[] = {0, 768, 1024, 2048, 4096};
+const WORD32 ia_pcm_frame_size_tbl[PCM_FRAME_SIZE_TBL_LEN] = {0, 768, 1024, 2048, 4096};
 const FLOAT32 ia_core_coder_pow_igf_whitening[64] = {
     2097152.0000000f, 1482910.3750000f, 1048576.0000000f, 741455.1875000f, 524288.0000000f,
     370727.5937500f,  262144.0000000f,  185363.7968750f,  131072.0000000f, 92681.8984375f,
diff --git a/decoder/ia_core_coder_rom.h b/decoder/ia_core_coder_rom.h
index bae2618..a426304 100644
--- a/decoder/ia_core_coder_rom.h
+++ b/decoder/ia_core_coder_rom.h
@@ -142,7 +142,8 @@ extern const FLOAT32 ia_core_coder_pow_igf_whitening[64];
 extern const FLOAT32 ia_core_coder_pow_neg_igf_whitening[64];
 extern const FLOAT32 ia_core_coder_res_pred_gain_qtable[];
 extern const WORD32 ia_pcm_bits_per_sample_table[];
-extern const WORD32 ia_pcm_frame_size_tbl[];
+#define PCM_FRAME_SIZE_TBL_LEN (5)
+extern const WORD32 ia_pcm_frame_size_tbl[PCM_FRAME_SIZE_TBL_LEN];
 
 extern const ia_usac_samp_rate_info ia_core_coder_samp_rate_info[];
 extern const WORD32 ia_core_coder_sampling_boundaries[(1 << LEN_SAMP_IDX)];
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 9507f7b..005b12d 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -784,17 +784,22 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     break;
   case 5:
     pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   case 6:
     pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   default:
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   }
 
+  if (pstr_pcm_data_config->pcm_frame_size_idx >= PCM_FRAME_SIZE_TBL_LEN ||
+      ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx] > MAX_NUM_PCM_SAMPLES)
+  {
+    pstr_pcm_data_config->pcm_frame_size_idx = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
+  }
+  pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+
   WORD32 pcm_sample, temp, temp_num;
   for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
   {
@@ -852,6 +857,11 @@ IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *pstr_pcm_data_config,
                                      ia_bit_buf_struct *pstr_bit_buf)
 {
   pstr_pcm_data_config->bs_num_pcm_signals = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+  if (pstr_pcm_data_config->bs_num_pcm_signals > (MAX_NUM_CHANNELS - 1))
+  {
+    pstr_pcm_data_config->bs_num_pcm_signals = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
   pstr_pcm_data_config->pcm_align_audio_flag = ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
   pstr_pcm_data_config->pcm_sampling_rate_idx = ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
   pstr_pcm_data_config->pcm_sampling_rate =
@@ -1342,7 +1352,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
 
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
-      impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
-- 
2.43.0


From 7b901688b21c6fdb7e1a0dae00d09aacae920dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 21/67] fix: num_earcons is one less than the number of earcons
 stored

---
 decoder/impeghd_mhas_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 005b12d..18d326d 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -913,7 +913,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons >= MAX_NUM_EARCONS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
-- 
2.43.0


From 173da3f652c7e5072660be8fa8184a05006728f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 22/67] fix: leave room for the two DRC instructions appended
 after parsing

---
 decoder/impd_drc_static_payload.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 0417bb4..68b8984 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -1573,14 +1573,17 @@ impd_drc_parse_config(ia_drc_config *pstr_drc_config,
 
   if (DRC_COEFF_COUNT_MAX < pstr_drc_config->drc_coefficients_drc_count)
   {
+    pstr_drc_config->drc_coefficients_drc_count = 0;
     return IA_MPEGD_DRC_INIT_NONFATAL_COEFF_MAX_EXCEEDED;
   }
 
   pstr_drc_config->drc_instructions_uni_drc_count =
       ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
 
-  if (DRC_INSTRUCTIONS_COUNT_MAX < pstr_drc_config->drc_instructions_uni_drc_count)
+  /* one instruction for the base layout and one for the downmix are appended */
+  if (DRC_INSTRUCTIONS_COUNT_MAX < (pstr_drc_config->drc_instructions_uni_drc_count + 2))
   {
+    pstr_drc_config->drc_instructions_uni_drc_count = 0;
     return IA_MPEGD_DRC_INIT_NONFATAL_DRC_INSTR_MAX_EXCEEDED;
   }
 
@@ -1662,11 +1665,6 @@ impd_drc_parse_config(ia_drc_config *pstr_drc_config,
       return (err_code);
   }
 
-  if (DRC_INSTRUCTIONS_COUNT_MAX <= (pstr_drc_config->drc_instructions_uni_drc_count +
-                                     pstr_drc_config->drc_dwnmix_instructions_count))
-  {
-    return (IA_MPEGD_DRC_INIT_NONFATAL_DRC_INSTR_MAX_EXCEEDED);
-  }
   impd_drc_gen_instructions_for_drc_off(pstr_drc_config);
   return IA_MPEGH_DEC_NO_ERROR;
 }
-- 
2.43.0


From 22355ef90b2ea03620a68132771a5abad6ea82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 23/67] fix: do not copy BRIR taps from beyond the filter end

---
 decoder/impeghd_binaural_filter_design.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/decoder/impeghd_binaural_filter_design.c b/decoder/impeghd_binaural_filter_design.c
index f7a23dd..fbd975e 100644
--- a/decoder/impeghd_binaural_filter_design.c
+++ b/decoder/impeghd_binaural_filter_design.c
@@ -544,9 +544,11 @@ IA_ERRORCODE impeghd_compute_filter_params(ia_td_binaural_ren_param_str *ptr_par
   ptr_param->len_direct = len_direct;
   ptr_param->num_channel = n_brir_pairs;
   ptr_param->num_diffuse_block = num_diffuse_block;
-  cpy_len = ptr_fir_data->n_taps < ptr_param->len_direct
-                ? ptr_fir_data->n_taps
-                : ptr_param->len_direct; /* take min of the 2 len */
+  cpy_len = ptr_fir_data->n_taps - ptr_param->begin_delay;
+  if (cpy_len > ptr_param->len_direct)
+  {
+    cpy_len = ptr_param->len_direct; /* take min of the 2 len */
+  }
   for (i_ear = 0; i_ear < 2; ++i_ear)
   {
     for (ch = 0; ch < ptr_param->num_channel; ++ch)
-- 
2.43.0


From de8ce098dbf61d465b6c57db7a5a20e1a05c57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 24/67] fix: look up the preset ID among the presets, not the
 groups

---
 decoder/impeghd_ele_interaction_intrfc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 97a1fb2..ef80350 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -425,9 +425,9 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     ptr_ele_intrctn->ei_group_preset_id = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
     if (str_mae_asi->asi_present)
     {
-      for (WORD32 grp = 0; grp < str_mae_asi->num_groups; grp++)
+      for (WORD32 preset = 0; preset < str_mae_asi->num_group_presets; preset++)
       {
-        if (str_mae_asi->group_presets_definition[grp].group_id ==
+        if (str_mae_asi->group_presets_definition[preset].group_id ==
             ptr_ele_intrctn->ei_group_preset_id)
         {
           valid_id++;
-- 
2.43.0


From abb6edab38cd2f15a5eedc87fb0fc0a9e0cc6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 25/67] fix: IGF start and stop bands are kept per element

---
 decoder/ia_core_coder_main.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_main.h b/decoder/ia_core_coder_main.h
index ae9dd77..42342a2 100644
--- a/decoder/ia_core_coder_main.h
+++ b/decoder/ia_core_coder_main.h
@@ -205,8 +205,8 @@ typedef struct ia_usac_data_main_struct
 
   FLAG igf_hasmask[MAX_NUM_ELEMENTS][MAX_NUM_CHANNELS];
   WORD32 igf_pred_dir[MAX_NUM_ELEMENTS];
-  WORD32 igf_sfb_start[MAX_NUM_CHANNELS];
-  WORD32 igf_sfb_stop[MAX_NUM_CHANNELS];
+  WORD32 igf_sfb_start[MAX_NUM_ELEMENTS];
+  WORD32 igf_sfb_stop[MAX_NUM_ELEMENTS];
 
   ia_usac_td_config_struct td_config[MAX_NUM_ELEMENTS];
   ia_usac_slpd_dec_data_struct slpd_dec_data[MAX_NUM_CHANNELS >> 1];
-- 
2.43.0


From 5d7fb14648baba7927b9fd88aa86d60dd455b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 26/67] fix: bound the number of multichannel coding elements
 per frame

---
 decoder/ia_core_coder_process.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index 567b074..89950ae 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -914,6 +914,10 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
   {
     if (pstr_usac_dec_config->ia_ext_ele_payload_type[elem_idx] == ID_MPEGH_EXT_ELE_MCT)
     {
+      if (mct_cnt >= MAX_NUM_SIGNALGROUPS)
+      {
+        return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_ELEM_INDEX;
+      }
       err = impeghd_mc_parse(&pstr_usac_dec_config->ia_mcdata[mct_cnt],
                              pstr_usac_dec_config->usac_ext_gain_payload_buf[elem_idx],
                              pstr_usac_dec_config->usac_ext_gain_payload_len[elem_idx],
@@ -923,12 +927,12 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       {
         return err;
       }
-      mct_cnt++;
       for (i = 0; i < MAX_NUM_CHANNELS; i++)
       {
         pstr_usac_dec_config->ia_mcdata[mct_cnt].prev_out_spec[i] =
             &pstr_usac_data->mct_prev_out_spec[i][0];
       }
+      mct_cnt++;
     }
   }
   for (sig_group = 0; sig_group < mct_cnt; sig_group++)
-- 
2.43.0


From a0d2d019468d7cbb215e49559770d2d55952f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 27/67] fix: channel groups have at most one member per channel
 in scene displacement

---
 decoder/impeghd_scene_displacement.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_scene_displacement.c b/decoder/impeghd_scene_displacement.c
index 339425a..59da40d 100644
--- a/decoder/impeghd_scene_displacement.c
+++ b/decoder/impeghd_scene_displacement.c
@@ -471,7 +471,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
       WORD32 num_members = pstr_mae_asi->group_definition[i].group_num_members;
       WORD32 type = impeghd_md_proc_signal_group_type(pstr_asc, pstr_signals_3d, i);
 
-      if (num_members > MAE_MAX_NUM_GROUPS)
+      if (num_members > MAE_MAX_NUM_GROUPS || (type == 0 && num_members > MAX_NUM_CHANNELS))
       {
         return IA_MPEGH_MAE_EXE_FATAL_ASI_NUM_GROUP_DIFFER;
       }
-- 
2.43.0


From 83dc1e3f65c48b97e5ec3da600ed623a4e7ba4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 28/67] fix: reject switch groups whose members are not defined

---
 decoder/impeghd_metadata_preprocessor.c | 41 +++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 782f094..5457436 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2707,6 +2707,11 @@ static IA_ERRORCODE impehgd_apply_switch_group_off(ia_audio_specific_config_stru
       }
     }
 
+    if (grp_index < 0)
+    {
+      return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+    }
+
     if (group_id2 != group_id)
     {
       if (on_off_status_modified[grp_index] == 1)
@@ -2762,6 +2767,10 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
     {
       idx = impeghd_md_proc_grp_idx(pstr_asc,
                                     pstr_mae_asi->switch_group_definition[i].member_id[k]);
+      if (idx < 0)
+      {
+        return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+      }
       if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
       {
         num_non_zero++;
@@ -2779,6 +2788,10 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
       if (sw_grp_allow_on_off != 1)
       {
         idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
+        if (idx < 0)
+        {
+          return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+        }
         pstr_interact_cfg->on_off_status_modified[idx] = 1;
       }
       else
@@ -2794,11 +2807,19 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
         if (default_id != member_id)
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, member_id);
+          if (idx < 0)
+          {
+            return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+          }
           pstr_interact_cfg->on_off_status_modified[idx] = 0;
         }
         else
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
+          if (idx < 0)
+          {
+            return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+          }
           pstr_interact_cfg->on_off_status_modified[idx] = 1;
         }
       }
@@ -3118,7 +3139,11 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
               for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
               {
                 idx = impeghd_md_proc_grp_idx(
-                    pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
+                    pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
+                if (idx < 0)
+                {
+                  return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+                }
                 if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
                 {
                   pstr_interact_cfg->on_off_status_modified[idx] = 0;
@@ -3150,7 +3175,11 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
             {
               idx = impeghd_md_proc_grp_idx(
-                  pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
+                  pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
+              if (idx < 0)
+              {
+                return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+              }
               if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
               {
                 num_non_zero++;
@@ -3159,6 +3188,10 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             if (num_non_zero == 0)
             {
               idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
+              if (idx < 0)
+              {
+                return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+              }
               pstr_interact_cfg->on_off_status_modified[idx] = 1;
             }
             else if (num_non_zero > 1)
@@ -4652,6 +4685,10 @@ static IA_ERRORCODE impeghd_mp_process_frame(ia_audio_specific_config_struct *ps
         {
           group_id = pstr_mae_asi->switch_group_definition[0].member_id[m];
           grp_index = impeghd_md_proc_grp_idx(pstr_asc, group_id);
+          if (grp_index < 0)
+          {
+            return IA_MPEGH_MAE_EXE_FATAL_ON_OFF_INTERACT_FAILED;
+          }
           if (m == choose_switch_grp_member)
           {
             pstr_mae_asi->group_definition[grp_index].default_on_off = 1;
-- 
2.43.0


From 3b138ed1de8a1baa56bed57b5ff059de3721d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 29/67] fix: no ASI group describes objects beyond the last
 signal group

---
 decoder/impeghd_ext_rend_intrfc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_ext_rend_intrfc.c b/decoder/impeghd_ext_rend_intrfc.c
index 1494fc1..0083205 100644
--- a/decoder/impeghd_ext_rend_intrfc.c
+++ b/decoder/impeghd_ext_rend_intrfc.c
@@ -319,7 +319,7 @@ impeghd_write_gha_prod_meta_data_for_ext_ren(ia_write_bit_buf_struct *pstr_bit_b
 static WORD16
 impeghd_get_goa_ele_id(ia_mae_audio_scene_info *pstr_mae_asi, WORD32 grp, WORD32 obj, WORD32 ele_id_offset)
 {
-  if (pstr_mae_asi->asi_present)
+  if (pstr_mae_asi->asi_present && grp < pstr_mae_asi->num_groups)
   {
     return pstr_mae_asi->group_definition[grp].metadata_ele_id[obj];
   }
-- 
2.43.0


From b229c1d206bdbd33114ac1c3539a46f72f61edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 30/67] fix: refuse a negative CICP layout index from the
 application

---
 decoder/impeghd_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 384f31b..5d2de78 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -256,7 +256,7 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
     p_obj_mpegh_dec->mpeghd_config.ui_mhas_flag = ptr_input_config->ui_mhas_flag;
   }
 
-  if ((ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
+  if ((ptr_input_config->ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
       (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
-- 
2.43.0


From 6c70693b325267f716902b2dc393a1a03f885d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 31/67] fix: do not keep an unsupported CICP layout index of a
 signal group

---
 decoder/ia_core_coder_init_config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index a47b355..8a9ed58 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1481,6 +1481,7 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           speaker_config_3d->cicp_spk_layout_idx = ia_core_coder_read_bits_buf(it_bit_buff, 6);
           if (speaker_config_3d->cicp_spk_layout_idx > MAX_CICP_INDEX)
           {
+            speaker_config_3d->cicp_spk_layout_idx = IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL;
             return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_LAYOUT_INDEX;
           }
         }
-- 
2.43.0


From 138ff470dcf9f5118d9d14f1bd7019c9b60991a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 32/67] fix: check the CICP layout index of the element
 interface and BRIR set-ups

---
 decoder/ia_core_coder_init_config.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 8a9ed58..30efa65 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1757,6 +1757,11 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
   if (spk_config_3d->spk_layout_type == 0)
   {
     spk_config_3d->cicp_spk_layout_idx = (WORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 6);
+    if (spk_config_3d->cicp_spk_layout_idx > MAX_CICP_INDEX)
+    {
+      spk_config_3d->cicp_spk_layout_idx = IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL;
+      return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_LAYOUT_INDEX;
+    }
   }
   else if (spk_config_3d->spk_layout_type < 3)
   {
-- 
2.43.0


From 7cea658a02ce9e79c857babda209a4bcfbe24c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 33/67] fix: writing the external renderer metadata must not
 change the decoder configuration

---
 decoder/impeghd_ext_rend_intrfc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/decoder/impeghd_ext_rend_intrfc.c b/decoder/impeghd_ext_rend_intrfc.c
index 0083205..48f2982 100644
--- a/decoder/impeghd_ext_rend_intrfc.c
+++ b/decoder/impeghd_ext_rend_intrfc.c
@@ -205,7 +205,6 @@ static IA_ERRORCODE impeghd_write_speaker_config_3d(ia_write_bit_buf_struct *pst
     impeghd_write_bits_buf(pstr_bit_buf, pstr_spk_config_3d->cicp_spk_layout_idx, 6);
     break;
   case 1:
-    pstr_spk_config_3d->cicp_spk_layout_idx = (WORD16)-1;
     impeghd_write_escape_value(pstr_bit_buf, pstr_spk_config_3d->num_speakers - 1, 5, 8, 16);
     for (spk = 0; spk < pstr_spk_config_3d->num_speakers; spk++)
     {
@@ -213,7 +212,6 @@ static IA_ERRORCODE impeghd_write_speaker_config_3d(ia_write_bit_buf_struct *pst
     }
     break;
   case 2:
-    pstr_spk_config_3d->cicp_spk_layout_idx = (WORD16)-1;
     impeghd_write_escape_value(pstr_bit_buf, pstr_spk_config_3d->num_speakers - 1, 5, 8, 16);
     impeghd_write_flexispk_config(pstr_bit_buf, &(pstr_spk_config_3d->str_flex_spk),
                                   pstr_spk_config_3d->num_speakers);
-- 
2.43.0


From 480a0dec3134f0909e0df36eb836c20d0fe813cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 34/67] fix: an explicit local set-up has no CICP layout index
 to look up

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 decoder/impeghd_cicp_2_geometry.c   | 2 +-
 decoder/impeghd_obj_ren_dec.c       | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 2fe1bd5..39c02e6 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -3523,7 +3523,7 @@ IA_ERRORCODE impeghd_uni_drc_dec_init(ia_audio_specific_config_struct *pstr_audi
       }
     }
     audio_num_chan = num_ch_in;
-    if (ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL)
+    if (ui_cicp_layout_idx > IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL)
     {
       audio_num_chan = impgehd_cicp_get_num_ls[ui_cicp_layout_idx];
     }
diff --git a/decoder/impeghd_cicp_2_geometry.c b/decoder/impeghd_cicp_2_geometry.c
index 579ebc3..261a279 100644
--- a/decoder/impeghd_cicp_2_geometry.c
+++ b/decoder/impeghd_cicp_2_geometry.c
@@ -80,7 +80,7 @@ IA_ERRORCODE impeghd_cicpidx_2_ls_geometry(WORD32 cicp_idx,
 {
   WORD32 ch;
   WORD32 ch_idx;
-  if (cicp_idx > NUM_LS_CFGS || cicp_idx == 8 || cicp_idx == 0)
+  if (cicp_idx > NUM_LS_CFGS || cicp_idx == 8 || cicp_idx <= 0)
   {
     return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
   }
diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index efbd539..b9ff5c7 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1088,12 +1088,10 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     if (pstr_local_setup->enable_ele_int == 0)
     {
       cicp_idx = ptr_obj_ren_dec_state->cicp_out_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     else
     {
       cicp_idx = pstr_local_setup->spk_config.cicp_spk_layout_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     if (cicp_idx <= 0 || cicp_idx == 8 || cicp_idx > NUM_LS_CFGS)
     {
@@ -1103,6 +1101,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     {
       in_channel_names = ia_cicp_idx_ls_set_map_tbl[cicp_idx];
       in_num_channels = impgehd_cicp_get_num_ls[cicp_idx];
+      ptr_obj_ren_dec_state->num_cicp_speakers = in_num_channels;
       in_num_lfes = 0;
       const ia_cicp_ls_geo_str **pp_cicp_ls_geometry =
           (const ia_cicp_ls_geo_str **)&ptr_obj_ren_dec_state->ptr_cicp_ls_geo[0];
-- 
2.43.0


From 620203b33db4798a80d5ebeb126db7304fae32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 35/67] fix: HOA rendering looked up a loudspeaker index in the
 table of layouts

---
 decoder/impeghd_hoa_render_mtrx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index aa0bfe5..193bc90 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -389,8 +389,7 @@ impeghd_hoa_ren_mtrx_init_with_spc_pos_param(ia_render_hoa_render_mtrx_str *ren_
 
       for (i = 0; i < loop; i++)
       {
-        speaker_table = ia_cicp_idx_ls_set_map_tbl[ref_spk_layout->cicp_spk_idx[i]];
-        if (1 == ia_cicp_ls_geo_tbls[speaker_table[i]].lfe_flag)
+        if (1 == ia_cicp_ls_geo_tbls[ref_spk_layout->cicp_spk_idx[i]].lfe_flag)
           ren_handle->spk_idx[i] = 1;
       }
     }
-- 
2.43.0


From 9cc239a5e5512d15399f8417a6e25eedc164d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 36/67] fix: the deviation buffer holds azimuth and elevation
 of every loudspeaker

---
 decoder/impeghd_format_conv_data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_format_conv_data.h b/decoder/impeghd_format_conv_data.h
index 49c8808..36a36cc 100644
--- a/decoder/impeghd_format_conv_data.h
+++ b/decoder/impeghd_format_conv_data.h
@@ -112,9 +112,9 @@ typedef struct
   FLOAT32 scratch_fc[MAX_NUM_CHANNELS * FC_STFT_FRAMEx2 * 4];
   FLOAT32 scratch_fc_ercon[MAX_NUM_CHANNELS * FC_STFT_FRAMEx2 * 4];
   FLOAT32 earcon_fc[FC_MAX_CHANNELS * FC_BANDS * FC_MAX_CHANNELS];
-  FLOAT32 earcon_fc_data[FC_OUT_MAX_CH];
+  FLOAT32 earcon_fc_data[2 * FC_OUT_MAX_CH];
   FLOAT32 fc_array[FC_MAX_CHANNELS * FC_BANDS * FC_MAX_CHANNELS];
-  FLOAT32 fc_data[FC_OUT_MAX_CH];
+  FLOAT32 fc_data[2 * FC_OUT_MAX_CH];
   ia_cicp_ls_geo_str str_azi_elev[CICP_MAX_CH];
   ia_cicp_ls_geo_str str_azi_elev_ec[CICP_MAX_CH];
 
-- 
2.43.0


From 94750fcdba028b914e0ad9896e4dfb2f7a2cd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 37/67] fix: undocumented error values returned by the metadata
 preprocessor and the DRC selection

---
 decoder/impd_drc_selection_process.c    | 2 +-
 decoder/impeghd_metadata_preprocessor.c | 2 +-
 decoder/impeghd_scene_displacement.c    | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoder/impd_drc_selection_process.c b/decoder/impd_drc_selection_process.c
index e9bef38..3fce269 100644
--- a/decoder/impd_drc_selection_process.c
+++ b/decoder/impd_drc_selection_process.c
@@ -78,7 +78,7 @@ impd_drc_uni_selction_proc_init(ia_drc_sel_pro_struct *pstr_drc_uni_sel_proc,
 
   if (pstr_drc_uni_sel_proc == NULL)
   {
-    return 1;
+    return IA_MPEGD_DRC_INIT_FATAL_UNEXPECTED_ERROR;
   }
 
   if (pstr_drc_uni_sel_proc->first_frame == 1)
diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 5457436..7517ed6 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -3538,7 +3538,7 @@ static IA_ERRORCODE impeghd_screen_rel_zooming(FLOAT32 *azimuth, FLOAT32 *elevat
       ia_lt_flt(NINETY_DEGREE, *elevation) || ia_lt_flt(*azimuth, -ONE_EIGHTY_DEGREE) ||
       ia_lt_flt(ONE_EIGHTY_DEGREE, *azimuth))
   {
-    error = -1;
+    error = IA_MPEGH_MAE_EXE_FATAL_UNSUPPORTED_AZIMUTH;
   }
   if (error == 0)
   {
diff --git a/decoder/impeghd_scene_displacement.c b/decoder/impeghd_scene_displacement.c
index 59da40d..5051c43 100644
--- a/decoder/impeghd_scene_displacement.c
+++ b/decoder/impeghd_scene_displacement.c
@@ -535,7 +535,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
             }
             if (oam_idx == -1)
             {
-              return -1;
+              return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
             }
             pstr_interact_cfg->az_modified[k] = pstr_oam_dec_state->azimuth_descaled[oam_idx];
             pstr_interact_cfg->ele_modified[k] = pstr_oam_dec_state->elevation_descaled[oam_idx];
@@ -571,7 +571,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
               }
               if ((num_channels + num_lfes) != num_members)
               {
-                error = -1;
+                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
                 break;
               }
             }
@@ -582,7 +582,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
                                                                   k)]
                       .num_speakers != num_members)
               {
-                error = -1;
+                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
                 break;
               }
               memcpy(&geo[k],
@@ -605,7 +605,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
             {
               if (pstr_signals_3d->audio_ch_layout[sig_grp_idx].num_speakers != num_members)
               {
-                error = -1;
+                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
                 break;
               }
               if (pstr_signals_3d->audio_ch_layout[sig_grp_idx]
-- 
2.43.0


From f19560831c998f39b24aff97e28555a53f0817e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 38/67] fix: 32-bit PCM wrapped to negative full scale when a
 sample clipped

---
 decoder/ia_core_coder_cnst.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_cnst.h b/decoder/ia_core_coder_cnst.h
index 5a9af68..4419f2f 100644
--- a/decoder/ia_core_coder_cnst.h
+++ b/decoder/ia_core_coder_cnst.h
@@ -49,7 +49,7 @@
 /* Below values will be used for writing */
 /* 32-bit PCM data                       */
 #define MIN_FLT_VAL_32 (-2147483647.0f)
-#define MAX_FLT_VAL_32 (2147483647.0f)
+#define MAX_FLT_VAL_32 (2147483520.0f)
 #define MUL_FAC_PCM_32 (65536)
 
 #define ESC_VAL_BITS_2 3      // 0000 0011
-- 
2.43.0


From cd30039b00584ca27dfaced82a64e52241361106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 39/67] fix: samples for the external renderer were clipped
 after an overflowing conversion

---
 decoder/ia_core_coder_decode_main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 39c02e6..b183914 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2091,9 +2091,10 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
     {
       for (channel = 0; channel < num_cc_channels; channel++)
       {
-        pcm_sample =
-            (WORD32)(pstr_dec_data->str_usac_data.time_sample_vector[channel][s] * 256.0f);
-        pcm_sample = ia_max_int(ia_min_int(pcm_sample, MAX_24), MIN_24);
+        FLOAT32 pcm_sample_float =
+            pstr_dec_data->str_usac_data.time_sample_vector[channel][s] * 256.0f;
+        pcm_sample_float = ia_max_flt(ia_min_flt(pcm_sample_float, MAX_FLT_VAL_24), MIN_FLT_VAL_24);
+        pcm_sample = (WORD32)pcm_sample_float;
 
         *ptr_ext_ren_pcm++ = (WORD32)pcm_sample & 0xff;
         *ptr_ext_ren_pcm++ = ((WORD32)pcm_sample >> 8) & 0xff;
-- 
2.43.0


From 017faa50fb6dba49cd85f2aed68ad928f010f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 40/67] fix: decoder object and memory table were placed at
 misaligned addresses

---
 decoder/impeghd_api.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 5d2de78..2a55eaf 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -508,7 +508,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
 
   ui_api_size = sizeof(ia_mpegh_dec_api_struct);
   pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] =
-      pstr_output_config->malloc_mpegh(ui_api_size, 4);
+      pstr_output_config->malloc_mpegh(ui_api_size, 8);
   if (NULL == pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count])
   {
     return IA_MPEGH_DEC_API_FATAL_MEM_ALLOC;
@@ -521,10 +521,10 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
 
   /*Errror*/
   pstr_output_config->ui_rem = (UWORD32)(
-      (SIZE_T)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] & 3);
+      (SIZE_T)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] & 7);
   pstr_output_config->pv_ia_process_api_obj =
       (pVOID)((WORD8 *)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] +
-              4 - pstr_output_config->ui_rem);
+              8 - pstr_output_config->ui_rem);
   pstr_output_config->malloc_count++;
 
   p_obj_mpegh_dech = (ia_mpegh_dec_api_struct *)pstr_output_config->pv_ia_process_api_obj;
@@ -544,7 +544,7 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   pstr_output_config->ui_proc_mem_tabs_size =
       (sizeof(ia_mem_info_struct) + sizeof(pVOID *)) * (NUM_MEMTABS);
   pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] =
-      pstr_output_config->malloc_mpegh(pstr_output_config->ui_proc_mem_tabs_size, 4);
+      pstr_output_config->malloc_mpegh(pstr_output_config->ui_proc_mem_tabs_size, 8);
   if (NULL == pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count])
   {
     return IA_MPEGH_DEC_API_FATAL_MEM_ALLOC;
@@ -553,10 +553,10 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
          pstr_output_config->ui_proc_mem_tabs_size);
 
   pstr_output_config->ui_rem = (UWORD32)(
-      (SIZE_T)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] & 3);
+      (SIZE_T)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] & 7);
   pv_value =
       (pVOID)((WORD8 *)pstr_output_config->arr_alloc_memory[pstr_output_config->malloc_count] +
-              4 - pstr_output_config->ui_rem);
+              8 - pstr_output_config->ui_rem);
   if (pv_value == NULL)
   {
     return IA_MPEGH_DEC_API_FATAL_MEM_ALLOC;
-- 
2.43.0


From fc0e580032f68304eb3cd6990e62ce8efa6f038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 41/67] fix: bound the list of objects and what divergence
 processing adds to it

---
 decoder/impeghd_metadata_preprocessor.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 7517ed6..ba1f022 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -715,6 +715,10 @@ static IA_ERRORCODE impeghd_get_oam_list(ia_interaction_data_struct *pstr_intera
     {
       for (j = 0; j < pstr_mae_asi->group_definition[i].group_num_members; j++)
       {
+        if (oam_count >= MAX_NUM_OAM_OBJS)
+        {
+          return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+        }
         if (!(pstr_mae_asi->group_definition[i].has_conjunct_members))
         {
           list_oam[oam_count] = pstr_mae_asi->group_definition[i].metadata_ele_id[j];
@@ -3696,6 +3700,11 @@ static IA_ERRORCODE impeghd_md_proc_apply_scrn_rel_remapping_zooming(
       pstr_interaction_config->scrn_rel_objs[i] = -1;
       if (pstr_asc->str_usac_config.obj_md_cfg.is_screen_rel_obj[i] == 1)
       {
+        if (pstr_interaction_config->list_oam[i] < 0 ||
+            pstr_interaction_config->list_oam[i] >= MAE_MAX_NUM_GROUPS)
+        {
+          return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+        }
         pstr_interaction_config->scrn_rel_objs[pstr_interaction_config->list_oam[i]] = 1;
       }
     }
@@ -4049,6 +4058,16 @@ static IA_ERRORCODE impeghd_md_proc_apply_div_proc(ia_interaction_data_struct *p
                 break;
               }
             }
+            /* two virtual objects are added for each object with divergence */
+            if (m == pstr_interact_cfg->oam_count ||
+                pstr_interact_cfg->oam_count + *overall_num_div_objs_added + 2 >
+                    MAX_NUM_OAM_OBJS ||
+                pstr_interact_cfg->num_objs_in + count + 2 > MAX_NUM_OAM_OBJS ||
+                pstr_interact_cfg->num_ele_in + *overall_num_div_objs_added + 2 >
+                    MAX_NUM_CHANNELS)
+            {
+              return IA_MPEGH_MAE_EXE_FATAL_DIVERGENCE_ERROR;
+            }
 
             temp_az =
                 ia_min_flt(3 * pstr_enh_obj_md_cfg->divergence_az_range[ct], ONE_EIGHTY_DEGREE);
-- 
2.43.0


From fe3c71bb3359a02538bb496e1bcce25994ea0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 42/67] fix: values kept per group member are indexed by up to
 128 members

---
 decoder/impeghd_ele_interaction_intrfc.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.h b/decoder/impeghd_ele_interaction_intrfc.h
index 7ccf9f1..54a0da5 100644
--- a/decoder/impeghd_ele_interaction_intrfc.h
+++ b/decoder/impeghd_ele_interaction_intrfc.h
@@ -46,6 +46,7 @@
 #define MAE_MAX_NUM_SPEAKERS (32)
 #define MAE_DIFFUSE_DECORR_LENGTH (256)
 #define MAE_MAX_NUM_GROUPS (32)
+#define MAE_MAX_NUM_GROUP_MEMBERS (128)
 
 #define MAE_MAX_NUM_GROUP_PRESETS (32)
 
@@ -198,8 +199,8 @@ typedef struct
 typedef struct
 {
   FLOAT32 gain_modified_prev_frm[MAE_MAX_NUM_GROUPS];
-  FLOAT32 az_modified[MAE_MAX_NUM_GROUPS];
-  FLOAT32 ele_modified[MAE_MAX_NUM_GROUPS];
+  FLOAT32 az_modified[MAE_MAX_NUM_GROUP_MEMBERS];
+  FLOAT32 ele_modified[MAE_MAX_NUM_GROUP_MEMBERS];
   WORD32 on_off_status_modified[MAE_MAX_NUM_GROUPS];
   WORD32 process[MAE_MAX_NUM_GROUPS];
   WORD32 scrn_rel_objs[MAE_MAX_NUM_GROUPS];
@@ -207,8 +208,8 @@ typedef struct
   WORD32 divergence_asi_modified;
 
   FLOAT32 gain_modified_grp[MAE_MAX_NUM_GROUPS];
-  FLOAT32 gain_modified_single_object[MAE_MAX_NUM_GROUPS];
-  FLOAT32 dist_modified[MAE_MAX_NUM_GROUPS];
+  FLOAT32 gain_modified_single_object[MAE_MAX_NUM_GROUP_MEMBERS];
+  FLOAT32 dist_modified[MAE_MAX_NUM_GROUP_MEMBERS];
   FLOAT32 diffuse_decorr_filt_states[MAE_MAX_NUM_SPEAKERS][MAE_DIFFUSE_DECORR_LENGTH];
   WORD32 diffuse_counter;
   WORD32 diffuse_compensateDelay;
-- 
2.43.0


From f1a2e4c31ffc1dcafe65b009249aae6e323800a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 43/67] fix: a group the preset does not name has no condition
 to look up

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index b183914..3dd4e28 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1004,7 +1004,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
       }
       else
       {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[cond].has_conjunct_members;
+        has_conjuct_mbrs = ptr_mae_asi->group_definition[grp_idx].has_conjunct_members;
       }
 
       for (mbr = 0; mbr < num_members; mbr++)
-- 
2.43.0


From c78f5a57763f828657ebace9019ad89d7419ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 44/67] fix: keep no downmix matrix count that was refused

---
 decoder/ia_core_coder_init_config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 30efa65..f60ff2f 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -753,6 +753,7 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
     ptr_dmx_cfg->downmix_id_count = ia_core_coder_read_bits_buf(it_bit_buff, 5);
     if (ptr_dmx_cfg->downmix_id_count > ASCPARSER_MAX_DMX_MATRIX_ELEMENTS)
     {
+      ptr_dmx_cfg->downmix_id_count = 0;
       return IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED;
     }
 
-- 
2.43.0


From b578b527316a8ae66a5a299a7bd8aee27b5cbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 45/67] fix: a rejected HOA order must not be left in the HOA
 configuration

---
 decoder/impeghd_hoa_config.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/impeghd_hoa_config.c b/decoder/impeghd_hoa_config.c
index d4fb296..945755a 100644
--- a/decoder/impeghd_hoa_config.c
+++ b/decoder/impeghd_hoa_config.c
@@ -107,11 +107,11 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
     val += ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
   }
 
-  ptr_config_data->order = val;
   if (val > MAXIMUM_HOA_ORDER)
   {
     return IA_MPEGH_HOA_INIT_NONFATAL_INVALID_HOA_ORDER;
   }
+  ptr_config_data->order = val;
   ptr_config_data->num_coeffs = (ptr_config_data->order + 1) * (ptr_config_data->order + 1);
 
   ptr_config_data->is_screen_relative = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -138,15 +138,16 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
   {
     val += ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
   }
-  ptr_config_data->min_amb_order = val - 1;
+  val = val - 1;
 
   /*shall be smaller than or equal to min( floor(sqrt(numHOATransportChannels)−1), HoaOrder)*/
 
-  if (ptr_config_data->min_amb_order >
+  if (val >
       ia_min_int(floor(sqrt(ptr_config_data->num_transport_ch) - 1), ptr_config_data->order))
   {
     return IA_MPEGH_HOA_INIT_FATAL_INVALID_MIN_AMB_ORDER;
   }
+  ptr_config_data->min_amb_order = val;
 
   ptr_config_data->min_coeffs_for_amb =
       (ptr_config_data->min_amb_order + 1) * (ptr_config_data->min_amb_order + 1);
-- 
2.43.0


From 979c2744cf4121c81605287de729e8cd046ebf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 46/67] fix: HOA rendering matrix overflows its loudspeaker
 position array for 24 loudspeakers

---
 decoder/impeghd_hoa_common_values.h |  1 +
 decoder/impeghd_hoa_render_mtrx.c   | 10 +++++++---
 decoder/impeghd_hoa_render_mtrx.h   |  2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_hoa_common_values.h b/decoder/impeghd_hoa_common_values.h
index 16f1f65..d9c34ae 100644
--- a/decoder/impeghd_hoa_common_values.h
+++ b/decoder/impeghd_hoa_common_values.h
@@ -63,6 +63,7 @@
 #define MAXIMUM_FRAME_SIZE (1024)
 #define MAX_HOA_CHANNELS (16)
 #define HOA_MAXIMUM_OUTPUT_LS (24)
+#define HOA_MAX_SPK_POS_SIZE (3 * HOA_MAXIMUM_OUTPUT_LS)
 #define HOA_N_PSI_POINTS (324)
 #define HOA_NUM_VIRTMICS (256)
 #define HOA_MAX_PRED_DIR_SIGNALS (4) // 2 bit field in bistream + 1
diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index 193bc90..bfa98f6 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -423,13 +423,17 @@ impeghd_hoa_ren_mtrx_init_with_spc_pos_param(ia_render_hoa_render_mtrx_str *ren_
 VOID impeghd_hoa_ren_mtrx_resort_spk_pos(pVOID handle, const pUWORD32 order, pVOID scratch)
 {
   pUWORD32 temp_ls_type = (UWORD32 *)scratch;
-  FLOAT32 temp_signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE];
+  FLOAT32 temp_signaled_speaker_pos_rad[HOA_MAX_SPK_POS_SIZE];
   WORD32 i;
   ia_render_hoa_render_mtrx_str *ren_handle = (ia_render_hoa_render_mtrx_str *)handle;
 
-  for (i = 0; i < HOA_MAX_VECTOR_SIZE; i++)
+  for (i = 0; i < HOA_MAX_SPK_POS_SIZE; i++)
   {
     temp_signaled_speaker_pos_rad[i] = 1000.0;
+  }
+
+  for (i = 0; i < HOA_MAX_VECTOR_SIZE; i++)
+  {
     temp_ls_type[i] = 2;
   }
 
@@ -446,6 +450,6 @@ VOID impeghd_hoa_ren_mtrx_resort_spk_pos(pVOID handle, const pUWORD32 order, pVO
 
   memcpy(&ren_handle->spk_idx[0], &temp_ls_type[0], sizeof(UWORD32) * HOA_MAX_VECTOR_SIZE);
   ia_core_coder_mem_cpy(&temp_signaled_speaker_pos_rad[0],
-                        &ren_handle->signaled_speaker_pos_rad[0], HOA_MAX_VECTOR_SIZE);
+                        &ren_handle->signaled_speaker_pos_rad[0], HOA_MAX_SPK_POS_SIZE);
 }
 /** @} */ /* End of HOAProc */
\ No newline at end of file
diff --git a/decoder/impeghd_hoa_render_mtrx.h b/decoder/impeghd_hoa_render_mtrx.h
index 236286f..d145ca9 100644
--- a/decoder/impeghd_hoa_render_mtrx.h
+++ b/decoder/impeghd_hoa_render_mtrx.h
@@ -37,7 +37,7 @@
 
 typedef struct
 {
-  FLOAT32 signaled_speaker_pos_rad[HOA_MAX_VECTOR_SIZE];
+  FLOAT32 signaled_speaker_pos_rad[HOA_MAX_SPK_POS_SIZE];
   UWORD32 spk_idx[HOA_MAX_VECTOR_SIZE];
   WORD32 num_subwoofer;
   WORD32 num_satellites;
-- 
2.43.0


From 3692c15a9e1f0ebf24099008fb0bfbda7fbfd978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 47/67] fix: preset lookup runs over the group count instead of
 the preset count

---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 3dd4e28..82c7834 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -965,7 +965,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
   {
     WORD32 pr_grp_idx = -1;
     WORD32 grp_idx = -1;
-    for (grp = 0; grp < num_decoded_groups; grp++)
+    for (grp = 0; grp < ptr_mae_asi->num_group_presets; grp++)
     {
       if (ptr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
-- 
2.43.0


From b469379c0bfe25f4c50233bf56556a03928245f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 48/67] fix: a rejected element count must not be left in the
 decoder configuration

---
 decoder/ia_core_coder_init_config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index f60ff2f..cb54adb 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -578,6 +578,7 @@ static IA_ERRORCODE ia_core_coder_decoder_config(ia_bit_buf_struct *it_bit_buff,
 
   if (pstr_usac_decoder_config->num_elements > MAX_ELEMENTS_USAC)
   {
+    pstr_usac_decoder_config->num_elements = 0;
     return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
   }
 
-- 
2.43.0


From af5a730f49d88c12c5b1b32205d653d4b2710dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 49/67] fix: binaural channel map overflows for more
 loudspeakers than BRIR pairs

---
 decoder/impeghd_binaural_renderer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..4ee426b 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -356,6 +356,10 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
   ia_td_binaural_ren_param_str *ptr_td_binaural_renderer_param = NULL;
   ia_ch_geometry geometry_expected[CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR] = {{0}};
 
+  if (wav_param->num_speaker_expected > MAX_NUM_BRIR_PAIRS)
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_SPEAKERS;
+  }
   if (wav_param->cicp_spk_idx > 0)
   {
     error = impeghd_fill_ls_geom_frm_cicp_spk_idx(wav_param->cicp_spk_idx, &geometry_expected[0],
-- 
2.43.0


From ececd5656589a44695d464c6709a2c939cfd3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 50/67] fix: temporal noise shaping of an earlier LPD frame was
 applied where none is sent

A filter left behind by a frame whose TNS data had been refused (start band below one) was
used by the next frame without TNS data and addressed in front of the band table.
---
 decoder/ia_core_coder_acelp_bitparse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_acelp_bitparse.c b/decoder/ia_core_coder_acelp_bitparse.c
index 3a10f6c..016a7c1 100644
--- a/decoder/ia_core_coder_acelp_bitparse.c
+++ b/decoder/ia_core_coder_acelp_bitparse.c
@@ -625,6 +625,10 @@ IA_ERRORCODE ia_core_coder_tcx_coding(ia_usac_data_struct *ptr_usac_data, pWORD3
       return err;
     }
   }
+  else
+  {
+    td_decoder->str_tns_info_td.str_tns_info[k].n_filt = 0;
+  }
   if (first_tcx_flag)
   {
     pstr_td_frame_data->arith_reset_flag =
-- 
2.43.0


From 728241067860afeb2891e57d4cd5c56c27eb47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 51/67] fix: scene displacement lost a channel count mismatch
 when a later group succeeded

---
 decoder/impeghd_scene_displacement.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_scene_displacement.c b/decoder/impeghd_scene_displacement.c
index 5051c43..9616765 100644
--- a/decoder/impeghd_scene_displacement.c
+++ b/decoder/impeghd_scene_displacement.c
@@ -571,8 +571,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
               }
               if ((num_channels + num_lfes) != num_members)
               {
-                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
-                break;
+                return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
               }
             }
             else if (pstr_signals_3d->audio_ch_layout[sig_grp_idx].cicp_spk_idx[k] >= 0)
@@ -582,8 +581,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
                                                                   k)]
                       .num_speakers != num_members)
               {
-                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
-                break;
+                return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
               }
               memcpy(&geo[k],
                      &ia_cicp_ls_geo_tbls[pstr_signals_3d->audio_ch_layout[sig_grp_idx]
@@ -605,8 +603,7 @@ IA_ERRORCODE impeghd_apply_scene_displacement(ia_dec_data_struct *pstr_dec_data,
             {
               if (pstr_signals_3d->audio_ch_layout[sig_grp_idx].num_speakers != num_members)
               {
-                error = IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
-                break;
+                return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
               }
               if (pstr_signals_3d->audio_ch_layout[sig_grp_idx]
                       .str_flex_spk.str_flex_spk_descr[k]
-- 
2.43.0


From 3d2bbf4ce2a6bb4f766360bb4cf0fb41eba707bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 52/67] fix: DRC band borders above 127 were cut down to eight
 bits

---
 decoder/impd_drc_static_payload.c | 2 +-
 decoder/impd_drc_struct.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 68b8984..0ed37bc 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -662,7 +662,7 @@ impd_drc_parse_gain_set_params(ia_drc_gain_set_params_struct *pstr_gain_set_para
       for (cnt = 1; cnt < pstr_gain_set_params->band_count; cnt++)
       {
         pstr_gain_set_params->gain_params[cnt].start_subband_index =
-            (WORD8)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
+            (WORD16)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
       }
     }
     else
diff --git a/decoder/impd_drc_struct.h b/decoder/impd_drc_struct.h
index 3ac68dd..4675dc5 100644
--- a/decoder/impd_drc_struct.h
+++ b/decoder/impd_drc_struct.h
@@ -145,7 +145,7 @@ typedef struct
   WORD8 gain_seq_idx;
   WORD8 drc_characteristic;
   WORD8 crossover_freq_idx;
-  WORD8 start_subband_index;
+  WORD16 start_subband_index;
 } ia_drc_gain_params_struct;
 
 typedef struct
-- 
2.43.0


From d4d99bd56f338a0b21af3944687a76618cae1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 53/67] fix: wire identifiers and zoom area values of the
 interaction data were cut down to eight bits

---
 decoder/impeghd_ele_interaction_intrfc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index ef80350..3a7b488 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -341,7 +341,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
     else
     {
       ptr_ele_intrctn->route_to_wire_id[grp] =
-          (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+          ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
     }
     if (ptr_ele_intrctn->ei_on_off[grp] == 1)
     {
@@ -465,10 +465,10 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
 static IA_ERRORCODE impeghd_lcl_zoom_area_size(ia_bit_buf_struct *ptr_bit_buf,
                                                ia_ele_intrctn *ptr_ele_intrctn)
 {
-  ptr_ele_intrctn->zoom_az_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_az = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_el_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
-  ptr_ele_intrctn->zoom_el = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_el_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
+  ptr_ele_intrctn->zoom_el = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
-- 
2.43.0


From 22ef99508cae404ff76a2eb58ed2bbcb23c13857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 54/67] fix: the set of available DRC effects was cut down to
 eight bits

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 18d326d..c33f297 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -319,7 +319,7 @@ impeghd_mae_parse_drc_user_interface_info(ia_drc_user_interface_info *pstr_drc_u
       pstr_drc_user_ix_info->tgt_loudness_value[cnt + 1] =
           (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 6);
       pstr_drc_user_ix_info->set_effect_available[cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
+          (UWORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
     }
   }
 }
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..143b251 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -284,7 +284,7 @@ typedef struct
 {
   WORD32 num_tgt_loudness_cnd;
   WORD32 version;
-  WORD8 set_effect_available[MAX_NUM_TGT_LOUDNESS_CONDITIONS];
+  UWORD16 set_effect_available[MAX_NUM_TGT_LOUDNESS_CONDITIONS];
   WORD8 tgt_loudness_value[MAX_NUM_TGT_LOUDNESS_CONDITIONS + 1];
 } ia_drc_user_interface_info;
 typedef struct
-- 
2.43.0


From 4d1cbb51bc6e39d14872e4d4110f8b5c81e139fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 55/67] fix: multichannel coding payloads longer than 255 bytes
 were cut short

---
 decoder/impeghd_multichannel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 9f30b4a..49065d3 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -271,7 +271,8 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
 {
   IA_ERRORCODE error = IA_MPEGH_DEC_NO_ERROR;
   WORD32 chan;
-  UWORD8 *ptr_bitbuf, bitbuf_len;
+  UWORD8 *ptr_bitbuf;
+  WORD32 bitbuf_len;
   ia_bit_buf_struct it_bit_buff;
   ia_multichannel_data *ptr_mc_data = &pstr_usac_dec_config->ia_mcdata[mct_cnt];
 
@@ -282,7 +283,7 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
   }
 
   ptr_bitbuf = pstr_usac_dec_config->usac_ext_ele_payload_buf[start_element];
-  bitbuf_len = (UWORD8)pstr_usac_dec_config->usac_ext_ele_payload_len[start_element];
+  bitbuf_len = pstr_usac_dec_config->usac_ext_ele_payload_len[start_element];
   ia_core_coder_create_init_bit_buf(&it_bit_buff, ptr_bitbuf, bitbuf_len);
 
   it_bit_buff.xmpeghd_jmp_buf = xmpeghd_jmp_buf;
-- 
2.43.0


From 5b037b95f6f50f83daf571d46f62452f77e45896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 56/67] fix: the size of an initialisation input above 32767
 bytes was cut down to sixteen bits

---
 decoder/ia_core_coder_headerdecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index 132907f..97364ef 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -162,7 +162,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
   header_len = mpeghd_state_struct->ui_in_bytes;
 
   handle_bit_buff =
-      ia_core_coder_create_bit_buf(&it_bit_buff, (UWORD8 *)buffer, (WORD16)header_len);
+      ia_core_coder_create_bit_buf(&it_bit_buff, (UWORD8 *)buffer, header_len);
   handle_bit_buff->cnt_bits += (header_len << 3);
   handle_bit_buff->xmpeghd_jmp_buf = mpeghd_state_struct->xmpeghd_jmp_buf;
   if (1 == is_ga_header)
-- 
2.43.0


From 440bef0eade7c2f077a640771dea5c041665f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 57/67] fix: BRIR file names longer than 127 characters were
 not skipped

---
 decoder/impeghd_binaural.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 0503779..0ce259b 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -260,13 +260,14 @@ static IA_ERRORCODE impeghd_parse_brir_info(VOID *buf_handle,
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 hoa_order_binaural = 0, brir_pairs = 0;
   UWORD32 fill_bits, rem;
-  WORD8 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
+  WORD8 brir_sampling_freq_index = 0;
+  WORD32 filename_length = 0, i = 0;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   ia_binaural_representation_str *ptr_binaural_rep = &binaural_ren_info->binaural_rep;
 
   ia_core_coder_read_bits_buf_32(ia_bit_buf);
   ia_core_coder_read_bits_buf(ia_bit_buf, 8);
-  filename_length = (WORD8)ia_core_coder_read_bits_buf(ia_bit_buf, 8);
+  filename_length = ia_core_coder_read_bits_buf(ia_bit_buf, 8);
 
   for (i = 0; i < filename_length; i++)
   {
-- 
2.43.0


From 453372018bc50bd1a2fb53dcda44bbaa72a615aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 58/67] fix: more than 127 group preset conditions in an MP4
 box passed the limit as a negative number

---
 decoder/impeghd_mhas_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 143b251..cde680f 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -143,7 +143,7 @@ typedef struct
 typedef struct
 {
   WORD8 group_id;
-  WORD8 num_conditions;
+  UWORD8 num_conditions;
   WORD8 preset_kind;
   WORD8 azimuth_offset[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 cond_on_off[MAX_GROUP_PRESET_NUM_CONDITIONS];
-- 
2.43.0


From 5628dbf926cd824b40c4f850de82599cbb545200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 59/67] fix: group preset position values of eight bits became
 negative

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index c33f297..0ed6ec3 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -540,7 +540,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
                  (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
         {
           pstr_group_presets_definition[grp].azimuth_offset[cnt] =
-              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8);
+              (UWORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8);
 
           pstr_group_presets_definition[grp].elevation_offset[cnt] =
               (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 6);
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index cde680f..88d76d0 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -145,12 +145,12 @@ typedef struct
   WORD8 group_id;
   UWORD8 num_conditions;
   WORD8 preset_kind;
-  WORD8 azimuth_offset[MAX_GROUP_PRESET_NUM_CONDITIONS];
+  UWORD8 azimuth_offset[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 cond_on_off[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 disable_gain_interact[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 disable_pos_interact[MAX_GROUP_PRESET_NUM_CONDITIONS];
-  WORD8 dist_factor[MAX_GROUP_PRESET_NUM_CONDITIONS];
-  WORD8 elevation_offset[MAX_GROUP_PRESET_NUM_CONDITIONS];
+  UWORD8 dist_factor[MAX_GROUP_PRESET_NUM_CONDITIONS];
+  UWORD8 elevation_offset[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 gain_flag[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 position_interact[MAX_GROUP_PRESET_NUM_CONDITIONS];
   WORD8 reference_id[MAX_GROUP_PRESET_NUM_CONDITIONS];
-- 
2.43.0


From 7dc2c3be1b72d9f84f005d057eb516c0659c35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 60/67] fix: metadata element identifiers above 127 became
 negative

---
 decoder/impeghd_mhas_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 88d76d0..f89e455 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -127,7 +127,7 @@ typedef struct
   WORD8 min_gain;
   WORD8 start_id;
   WORD8 allow_on_off;
-  WORD8 metadata_ele_id[MAX_GROUP_NUM_MEMBERS];
+  UWORD8 metadata_ele_id[MAX_GROUP_NUM_MEMBERS];
 } ia_mae_group_def;
 
 typedef struct
-- 
2.43.0


From 1a3bafe1eae75b2d970656c31ced6a585099380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 61/67] fix: scene data sets of 32768 bytes and more got a
 negative length

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 0ed6ec3..2817a8d 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -999,7 +999,7 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
     WORD32 cnt_bits = 0;
     pstr_mae_data->data_type[cnt] = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     data_len = ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
-    pstr_mae_data->data_length[cnt] = (WORD16)data_len;
+    pstr_mae_data->data_length[cnt] = (UWORD16)data_len;
     cnt_bits = pstr_bit_buf->cnt_bits;
     switch (pstr_mae_data->data_type[cnt])
     {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index f89e455..9a40394 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -205,7 +205,7 @@ typedef struct
 {
   WORD8 num_data_sets;
   WORD8 data_type[MAX_MAE_NUM_DATASETS];
-  WORD16 data_length[MAX_MAE_NUM_DATASETS];
+  UWORD16 data_length[MAX_MAE_NUM_DATASETS];
 } ia_mae_data;
 
 typedef struct
-- 
2.43.0


From aaeb76fbafd99b8e71075cff7aca987c97caa80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 62/67] fix: descriptions longer than 127 characters were not
 read, the parser went on inside them

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 2817a8d..aaf9933 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -93,7 +93,7 @@ static IA_ERRORCODE impeghd_mae_parse_description_data(ia_description_data *pstr
       pstr_description_data->descr_language[blk][cnt] =
           ia_core_coder_read_bits_buf(pstr_bit_buf, 24);
       pstr_description_data->descr_data_length[blk][cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
+          (WORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
 
       for (WORD32 idx = 0; idx < pstr_description_data->descr_data_length[blk][cnt]; idx++)
       {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 9a40394..3388f76 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -221,7 +221,7 @@ typedef struct
 typedef struct
 {
   UWORD8 num_descr_blks;
-  WORD8 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
+  WORD16 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 descr_data[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES][MAX_DESCRIPTON_DATA_LEN];
   WORD32 descr_language[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 grp_id[MAX_NUM_DESCRIPTOIN_BLOCKS];
-- 
2.43.0


From df0eba52e94a103915b249ea8d26f9922b30edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 63/67] fix: 128 members of a group, two of them from
 divergence, became a negative number

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index aaf9933..be27d48 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -393,7 +393,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_defin
     {
       return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
     }
-    pstr_group_definition[grp].group_num_members = (WORD8)num_members;
+    pstr_group_definition[grp].group_num_members = (UWORD8)num_members;
 
     if ((pstr_group_definition[grp].has_conjunct_members =
              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 3388f76..2c3d73e 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -114,7 +114,7 @@ typedef struct
   WORD8 allow_pos_interact;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  UWORD8 group_num_members;
   WORD8 has_conjunct_members;
   WORD8 has_content_language;
   WORD8 max_az_offset;
-- 
2.43.0


From 9927867d28d919a9734cb3867838c73025e4aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 64/67] fix: report the configuration packet as consumed when
 its parsing fails

ia_core_coder_dec_main copied bytes_consumed to i_bytes_consumed after a
failed in-band reconfiguration, but impegh_3daudio_config_dec writes it only
on success, so the count was whatever the stack held.
---
 decoder/ia_core_coder_decode_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 82c7834..5d2c53c 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2522,7 +2522,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       }
       if (MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type)
       {
-        WORD32 bytes_consumed;
+        WORD32 bytes_consumed = pac_info.packet_length;
         WORD32 flush = 0;
         if (pac_info.packet_length < 0 || pac_info.packet_length > MAX_CFG_DATA_LENGTH)
         {
-- 
2.43.0


From cbed65b4fbe9c008d723c596143dd9c73fb2dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 65/67] fix: count the LFEs of a flexible layout from zero

impeghd_flex_spk_2_ls_geometry added to its output num_lfe, which the object
renderer's initialisation passes without a value.
---
 decoder/impeghd_obj_ren_dec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index b9ff5c7..7511649 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -120,6 +120,7 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
   WORD32 num_speakers;
   ia_flex_spk_data_str *ptr_flex_spk = &ptr_ref_spk_layout->str_flex_spk;
   num_speakers = ptr_ref_spk_layout->num_speakers;
+  *num_lfe = 0;
 
   if (ptr_ref_spk_layout->spk_layout_type == 2)
   {
-- 
2.43.0


From 88ab52bc371e4babb475e32ec18d8894b1fbc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:37 +0000
Subject: [PATCH 66/67] fix: format converter reads speaker positions nothing
 has set

For a reference layout given as a speaker list (type 1) only the first
entries of the position array were set, by output index, and for type 3
none, while the array is read by channel name: with a CICP target layout the
converter followed indeterminate pointers.  Use the nominal positions for
every layout that is not a flexible one.
---
 decoder/impeghd_format_conv_init.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 56c8388..e4c7d79 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -645,21 +645,16 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
       }
     }
   }
-  if ((invalid_order == 1) || (ref_spk_layout->spk_layout_type == 0))
+  if ((invalid_order == 1) || (ref_spk_layout->spk_layout_type != 2))
   {
     for (i = 0; i < USED_CHANNEL; i++)
     {
       name_chn = ia_channel_names[i];
       pstr_azi_ele[name_chn] = (ia_cicp_ls_geo_str *)&ia_cicp_ls_geo_tbls[name_chn];
     }
-    ref_spk_layout->spk_layout_type = 0;
-  }
-  if (ref_spk_layout->spk_layout_type == 1)
-  {
-    for (i = 0; i < out_chn_num; i++)
+    if (ref_spk_layout->spk_layout_type == 2)
     {
-      pstr_azi_ele[i] =
-          (ia_cicp_ls_geo_str *)&ia_cicp_ls_geo_tbls[ref_spk_layout->cicp_spk_idx[i]];
+      ref_spk_layout->spk_layout_type = 0;
     }
   }
   channel = 0;
-- 
2.43.0


From 9088b4aefbd82dee66b39ec0886d97ab2083d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 67/67] fix: report consumed bytes when ia_mpegh_dec_init or
 _execute fails early

An error of the element interaction data, the binaural renderer or the
scene displacement data was returned with zero or a previous call's byte
count, so a caller that skips what was consumed and tries again never
advances.
---
 decoder/impeghd_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 2a55eaf..8a0019c 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -605,6 +605,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   ia_mae_audio_scene_info *ptr_mae_audio_scene_info = &pstr_audio_specific_config->str_mae_asi;
 
   pstr_output_config->i_bytes_consumed = 0;
+  p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 0;
   p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes = pstr_input_config->num_inp_bytes;
   p_obj_mpegh_dec->mpeghd_config.ui_raw_flag = pstr_input_config->ui_raw_flag;
   p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag = pstr_input_config->binaural_flag;
@@ -629,6 +630,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                        &pstr_audio_specific_config->str_mae_asi);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
   }
@@ -844,6 +846,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                               &pstr_dec_data->binaural_handle);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
 
@@ -1051,6 +1054,7 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
       err_code = impeghd_scene_displacement_data(ptr_scene_disp_data);
       if (err_code)
       {
+        pstr_output_config->i_bytes_consumed = 1;
         return err_code;
       }
     }
-- 
2.43.0

