From d1bb28ccd36ab05461ad702087423ced067573ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 01/22] verif hook: include external verification harnesses
 under cfg(laya_verif)

---
 openjp2-rs/src/bio.rs           | 6 ++++++
 openjp2-rs/src/c_api_types.rs   | 6 ++++++
 openjp2-rs/src/cio.rs           | 6 ++++++
 openjp2-rs/src/codec.rs         | 6 ++++++
 openjp2-rs/src/consts.rs        | 6 ++++++
 openjp2-rs/src/dwt.rs           | 6 ++++++
 openjp2-rs/src/event.rs         | 6 ++++++
 openjp2-rs/src/function_list.rs | 6 ++++++
 openjp2-rs/src/ht_dec.rs        | 6 ++++++
 openjp2-rs/src/image.rs         | 6 ++++++
 openjp2-rs/src/invert.rs        | 6 ++++++
 openjp2-rs/src/j2k.rs           | 6 ++++++
 openjp2-rs/src/jp2.rs           | 6 ++++++
 openjp2-rs/src/malloc.rs        | 6 ++++++
 openjp2-rs/src/math.rs          | 6 ++++++
 openjp2-rs/src/mct.rs           | 6 ++++++
 openjp2-rs/src/mqc.rs           | 6 ++++++
 openjp2-rs/src/openjpeg.rs      | 6 ++++++
 openjp2-rs/src/pi.rs            | 6 ++++++
 openjp2-rs/src/sparse_array.rs  | 6 ++++++
 openjp2-rs/src/stream.rs        | 6 ++++++
 openjp2-rs/src/t1.rs            | 6 ++++++
 openjp2-rs/src/t1_ht_luts.rs    | 6 ++++++
 openjp2-rs/src/t1_luts.rs       | 6 ++++++
 openjp2-rs/src/t2.rs            | 6 ++++++
 openjp2-rs/src/tcd.rs           | 6 ++++++
 openjp2-rs/src/tgt.rs           | 6 ++++++
 openjp2-rs/src/types.rs         | 6 ++++++
 src/http.rs                     | 6 ++++++
 src/iiif/parse.rs               | 6 ++++++
 src/resolve.rs                  | 6 ++++++
 31 files changed, 186 insertions(+)

diff --git a/openjp2-rs/src/bio.rs b/openjp2-rs/src/bio.rs
index f9c709a..9c2a184 100644
--- a/openjp2-rs/src/bio.rs
+++ b/openjp2-rs/src/bio.rs
@@ -193,3 +193,9 @@ pub(crate) unsafe fn opj_bio_inalign(mut bio: *mut opj_bio_t) -> OPJ_BOOL {
     (*bio).ct = 0 as OPJ_UINT32;
     1i32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/bio.rs"));
+}
diff --git a/openjp2-rs/src/c_api_types.rs b/openjp2-rs/src/c_api_types.rs
index 2ba948a..860135d 100644
--- a/openjp2-rs/src/c_api_types.rs
+++ b/openjp2-rs/src/c_api_types.rs
@@ -622,3 +622,9 @@ pub struct opj_codestream_index {
     pub tile_index: *mut opj_tile_index_t,
 }
 pub type opj_codestream_index_t = opj_codestream_index;
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/c_api_types.rs"));
+}
diff --git a/openjp2-rs/src/cio.rs b/openjp2-rs/src/cio.rs
index 2b76fac..6d0961d 100644
--- a/openjp2-rs/src/cio.rs
+++ b/openjp2-rs/src/cio.rs
@@ -102,3 +102,9 @@ pub(crate) fn opj_read_float(mut p_buffer: *const OPJ_BYTE, mut p_value: *mut OP
     };
     *value = f32::from_be_bytes([src[0], src[1], src[2], src[3]]);
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/cio.rs"));
+}
diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6e68959..91a0eee 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -530,3 +530,9 @@ impl Codec {
         }
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/codec.rs"));
+}
diff --git a/openjp2-rs/src/consts.rs b/openjp2-rs/src/consts.rs
index cc87c62..4494195 100644
--- a/openjp2-rs/src/consts.rs
+++ b/openjp2-rs/src/consts.rs
@@ -685,3 +685,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/consts.rs"));
+}
diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..7914d04 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -2977,3 +2977,9 @@ pub(crate) unsafe fn opj_dwt_decode_real(
         opj_dwt_decode_partial_97(tilec, numres)
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/dwt.rs"));
+}
diff --git a/openjp2-rs/src/event.rs b/openjp2-rs/src/event.rs
index f972160..f6ab41d 100644
--- a/openjp2-rs/src/event.rs
+++ b/openjp2-rs/src/event.rs
@@ -151,3 +151,9 @@ macro_rules! event_msg {
     }
   };
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/event.rs"));
+}
diff --git a/openjp2-rs/src/function_list.rs b/openjp2-rs/src/function_list.rs
index 1c46753..dcbff6f 100644
--- a/openjp2-rs/src/function_list.rs
+++ b/openjp2-rs/src/function_list.rs
@@ -21,3 +21,9 @@ impl<P> ProcedureList<P> {
         true
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/function_list.rs"));
+}
diff --git a/openjp2-rs/src/ht_dec.rs b/openjp2-rs/src/ht_dec.rs
index cded279..26411b0 100644
--- a/openjp2-rs/src/ht_dec.rs
+++ b/openjp2-rs/src/ht_dec.rs
@@ -2833,3 +2833,9 @@ pub(crate) unsafe fn opj_t1_ht_decode_cblk(
     }
     1i32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/ht_dec.rs"));
+}
diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..ab31d9a 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -481,3 +481,9 @@ pub unsafe fn opj_image_tile_create(
     }
     Box::into_raw(image)
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/image.rs"));
+}
diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..92af112 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -260,3 +260,9 @@ fn opj_lupInvert(
         }
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/invert.rs"));
+}
diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..3027b38 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -13169,3 +13169,9 @@ pub(crate) fn opj_j2k_write_tile(
         1i32
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/j2k.rs"));
+}
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..f6f0845 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -2069,3 +2069,9 @@ pub(crate) unsafe fn opj_jp2_encoder_set_extra_options(
 ) -> bool {
     opj_j2k_encoder_set_extra_options(&mut p_jp2.j2k, options, p_manager)
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/jp2.rs"));
+}
diff --git a/openjp2-rs/src/malloc.rs b/openjp2-rs/src/malloc.rs
index 533cc21..a176f60 100644
--- a/openjp2-rs/src/malloc.rs
+++ b/openjp2-rs/src/malloc.rs
@@ -189,3 +189,9 @@ pub(crate) unsafe fn opj_realloc(
 pub(crate) unsafe fn opj_free(mut ptr: *mut core::ffi::c_void) {
     free(ptr);
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/malloc.rs"));
+}
diff --git a/openjp2-rs/src/math.rs b/openjp2-rs/src/math.rs
index b077f2b..9d2b1cc 100644
--- a/openjp2-rs/src/math.rs
+++ b/openjp2-rs/src/math.rs
@@ -125,3 +125,9 @@ pub(crate) fn opj_int_sub_no_overflow(mut a: i32, mut b: i32) -> i32 {
 pub(crate) fn opj_int_add_no_overflow(mut a: i32, mut b: i32) -> i32 {
     a.wrapping_add(b)
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/math.rs"));
+}
diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index ed38713..7ebad96 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -321,3 +321,9 @@ pub(crate) unsafe fn opj_calculate_norms(
         i += 1;
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/mct.rs"));
+}
diff --git a/openjp2-rs/src/mqc.rs b/openjp2-rs/src/mqc.rs
index 51fcd18..f60d94f 100644
--- a/openjp2-rs/src/mqc.rs
+++ b/openjp2-rs/src/mqc.rs
@@ -767,3 +767,9 @@ pub(crate) fn opj_mqc_byteout(mut mqc: &mut opj_mqc_t) {
         }
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/mqc.rs"));
+}
diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..98fca34 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -700,3 +700,9 @@ pub fn opj_has_thread_support() -> OPJ_BOOL {
 pub fn opj_get_num_cpus() -> core::ffi::c_int {
     1i32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/openjpeg.rs"));
+}
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..8e73456 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2839,3 +2839,9 @@ pub(crate) unsafe fn opj_pi_next(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
     }
     0i32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/pi.rs"));
+}
diff --git a/openjp2-rs/src/sparse_array.rs b/openjp2-rs/src/sparse_array.rs
index 9488bbf..dfa8e9a 100644
--- a/openjp2-rs/src/sparse_array.rs
+++ b/openjp2-rs/src/sparse_array.rs
@@ -534,3 +534,9 @@ pub(crate) unsafe fn opj_sparse_array_int32_write(
         0i32,
     )
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/sparse_array.rs"));
+}
diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..38b111f 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -569,3 +569,9 @@ pub(crate) fn opj_stream_has_seek(mut p_stream: *const opj_stream_private_t) ->
     let p_stream = unsafe { &*p_stream };
     p_stream.has_seek() as _
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/stream.rs"));
+}
diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..390f6eb 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2921,3 +2921,9 @@ fn opj_t1_encode_cblk(
         cumwmsedec
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/t1.rs"));
+}
diff --git a/openjp2-rs/src/t1_ht_luts.rs b/openjp2-rs/src/t1_ht_luts.rs
index 089b42a..c22c2db 100644
--- a/openjp2-rs/src/t1_ht_luts.rs
+++ b/openjp2-rs/src/t1_ht_luts.rs
@@ -148,3 +148,9 @@ pub const vlc_tbl1: [OPJ_UINT16; 1024] = [
     0xFFFF, 0xD5, 0x46, 0xF5FE, 0x323F, 0xF3, 0xE6, 0xF8FD, 0x16, 0x4, 0x86, 0x55, 0x6F, 0xF3,
     0xC6, 0xB5, 0xB8BF, 0xF4FD, 0x115E, 0xA8EE, 0x222F,
 ];
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/t1_ht_luts.rs"));
+}
diff --git a/openjp2-rs/src/t1_luts.rs b/openjp2-rs/src/t1_luts.rs
index 7470e61..de106ad 100644
--- a/openjp2-rs/src/t1_luts.rs
+++ b/openjp2-rs/src/t1_luts.rs
@@ -155,3 +155,9 @@ pub const lut_nmsedec_ref0: [OPJ_INT16; 128] = [
     0x1080, 0x1180, 0x1200, 0x1300, 0x1380, 0x1480, 0x1500, 0x1600, 0x1700, 0x1780, 0x1880, 0x1980,
     0x1A80, 0x1B00, 0x1C00, 0x1D00, 0x1E00, 0x1F00,
 ];
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/t1_luts.rs"));
+}
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..92268db 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1710,3 +1710,9 @@ unsafe fn opj_t2_init_seg(
   }
     1i32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/t2.rs"));
+}
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..cc79aa3 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -3101,3 +3101,9 @@ pub(crate) unsafe fn opj_tcd_marker_info_destroy(
     };
 }
 // -----------------------------------------------------------------------
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/tcd.rs"));
+}
diff --git a/openjp2-rs/src/tgt.rs b/openjp2-rs/src/tgt.rs
index 21579b5..c8c655f 100644
--- a/openjp2-rs/src/tgt.rs
+++ b/openjp2-rs/src/tgt.rs
@@ -390,3 +390,9 @@ pub(crate) unsafe fn opj_tgt_decode(
         0i32
     }) as OPJ_UINT32
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/tgt.rs"));
+}
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9093a14..87b04d8 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -777,3 +777,9 @@ pub(crate) struct opj_j2k_dec {
     pub m_nb_tile_parts_correction: bool,
 }
 pub(crate) type opj_j2k_dec_t = opj_j2k_dec;
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/types.rs"));
+}
diff --git a/src/http.rs b/src/http.rs
index 70d55f7..b00b329 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -185,3 +185,9 @@ mod test {
         );
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/http.rs"));
+}
diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ce16b44..5b61392 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -546,3 +546,9 @@ mod test {
         assert_eq!(result, Err(ParseError::UnrecognisedFormat("TRaFoaMP20230922".into())));
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/parse.rs"));
+}
diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..6302634 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -19,3 +19,9 @@ impl DiskImageSource {
         ImmutableFileBuilder::new(file).build_existing().await
     }
 }
+
+#[cfg(laya_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/resolve.rs"));
+}
-- 
2.43.0


From e3b6a4ccc936dc40ef241daf514711ae52b75480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 02/22] fix: tag tree construction computes parent pointers
 past the node array

A 1x1 tree formed a reference to one past its only node, and trees whose last
parent row is short stepped the saved parent pointer beyond the allocation;
both are undefined behaviour. The pointers are never dereferenced, so compute
them with wrapping arithmetic.
---
 openjp2-rs/src/tgt.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/tgt.rs b/openjp2-rs/src/tgt.rs
index c8c655f..15a6ee2 100644
--- a/openjp2-rs/src/tgt.rs
+++ b/openjp2-rs/src/tgt.rs
@@ -101,10 +101,9 @@ pub(crate) unsafe fn opj_tgt_create(
         .numnodes
         .wrapping_mul(core::mem::size_of::<opj_tgt_node_t>() as OPJ_UINT32);
     node = (*tree).nodes;
-    l_parent_node = &mut *(*tree)
+    l_parent_node = (*tree)
         .nodes
-        .offset((*tree).numleafsh.wrapping_mul((*tree).numleafsv) as isize)
-        as *mut opj_tgt_node_t;
+        .wrapping_offset((*tree).numleafsh.wrapping_mul((*tree).numleafsv) as isize);
     l_parent_node0 = l_parent_node;
     i = 0 as OPJ_UINT32;
     while i < numlvls.wrapping_sub(1u32) {
@@ -129,7 +128,7 @@ pub(crate) unsafe fn opj_tgt_create(
                 l_parent_node0 = l_parent_node
             } else {
                 l_parent_node = l_parent_node0;
-                l_parent_node0 = l_parent_node0.offset(nplh[i as usize] as isize)
+                l_parent_node0 = l_parent_node0.wrapping_offset(nplh[i as usize] as isize)
             }
             j += 1
         }
@@ -218,10 +217,9 @@ pub(crate) unsafe fn opj_tgt_init(
             (*p_tree).nodes_size = l_node_size
         }
         l_node = (*p_tree).nodes;
-        l_parent_node = &mut *(*p_tree)
+        l_parent_node = (*p_tree)
             .nodes
-            .offset((*p_tree).numleafsh.wrapping_mul((*p_tree).numleafsv) as isize)
-            as *mut opj_tgt_node_t;
+            .wrapping_offset((*p_tree).numleafsh.wrapping_mul((*p_tree).numleafsv) as isize);
         l_parent_node0 = l_parent_node;
         i = 0 as OPJ_UINT32;
         while i < l_num_levels.wrapping_sub(1u32) {
@@ -246,7 +244,7 @@ pub(crate) unsafe fn opj_tgt_init(
                     l_parent_node0 = l_parent_node
                 } else {
                     l_parent_node = l_parent_node0;
-                    l_parent_node0 = l_parent_node0.offset(l_nplh[i as usize] as isize)
+                    l_parent_node0 = l_parent_node0.wrapping_offset(l_nplh[i as usize] as isize)
                 }
                 j += 1
             }
-- 
2.43.0


From 7a4712f74518022c8af7b6e78b96fa9c5495dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 03/22] fix: reject infinite percentages in region and size
 parameters

---
 src/iiif/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index 5b61392..e71130c 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -58,7 +58,7 @@ trait SpatialSelector: Copy + Default + FromStr + ToString {
 impl SpatialSelector for f32 {
     fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
-        if value > 0.0 {
+        if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
             Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
@@ -142,7 +142,7 @@ fn parse_scale_percent(s: &str, upscale: bool) -> Result<Size, ParseError> {
 
     // Image API 3.0, s 4: Size ... parameters in percentages ... must be positive
     // Image API 3.0, s 4.2: n must not be greater than 100 [unless explicitly upscaling].
-    if scale > 0.0 && (scale <= 100.0 || upscale) {
+    if scale > 0.0 && scale.is_finite() && (scale <= 100.0 || upscale) {
         Ok(Size { upscale, scale: Scale::Percentage(scale) })
     } else {
         Err(ParseError::SizePercentageOutOfBounds(s.into()))
-- 
2.43.0


From 9b12f8436812cceb28134abf83e8a2461d58e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 04/22] fix: image requests were decoded one segment off
 without debug assertions

---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index b00b329..c7437f3 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let root = segments.next();
+    debug_assert!(root.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From e7da93b8c0799b0019f2e83abb0e852c6f42a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 05/22] fix: image identifiers could name files outside the
 image directory

---
 src/resolve.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 6302634..d68bae4 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,11 +16,22 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        if !is_contained(ident) {
+            return Err(io::Error::from(io::ErrorKind::NotFound).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
 }
 
+/// Whether an identifier names a file below the image directory: joining an absolute path, or one
+/// with parent components, would escape it.
+fn is_contained(ident: &str) -> bool {
+    !ident.is_empty()
+        && Path::new(ident).components().all(|c| matches!(c, Component::Normal(_)))
+}
+
 #[cfg(laya_verif)]
 mod verif {
     use super::*;
-- 
2.43.0


From b025f7668ceaee8c5e706b3fac328bb91d04932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 06/22] fix: an image identifier with a NUL byte panicked when
 opening the file

---
 src/resolve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index d68bae4..ed13d86 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -26,9 +26,10 @@ impl DiskImageSource {
 }
 
 /// Whether an identifier names a file below the image directory: joining an absolute path, or one
-/// with parent components, would escape it.
+/// with parent components, would escape it. No file name contains a NUL, which glommio panics on.
 fn is_contained(ident: &str) -> bool {
     !ident.is_empty()
+        && !ident.contains('\0')
         && Path::new(ident).components().all(|c| matches!(c, Component::Normal(_)))
 }
 
-- 
2.43.0


From d2e97fde8f2e270c3b548f5dc76dae58a0a46c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 07/22] fix: every info.json request panicked the server

---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index c7437f3..567773e 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -138,7 +138,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO: image information
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("info.json is not implemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From d1dcd2612fb67c7f9ccbc6ea0e3699402e44340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 08/22] fix: encoding a tile whose lower resolutions are empty
 corrupts samples or panics

---
 openjp2-rs/src/dwt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 7914d04..c8d87c2 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1201,6 +1201,10 @@ unsafe fn opj_dwt_encode_procedure(
         let mut cas_row: OPJ_INT32 = 0;
         rw = ((*l_cur_res).x1 - (*l_cur_res).x0) as OPJ_UINT32;
         rh = ((*l_cur_res).y1 - (*l_cur_res).y0) as OPJ_UINT32;
+        // This and all lower resolution levels are empty: nothing to transform
+        if rw == 0 || rh == 0 {
+            break;
+        }
         cas_row = (*l_cur_res).x0 & 1i32;
         cas_col = (*l_cur_res).y0 & 1i32;
         // Perform vertical pass
-- 
2.43.0


From 1f3cb1706a6810de02a75c5d6241cd7f92866c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 09/22] fix: support RPCL in the encoder's progression order
 table

ProgressionOrder had no RPCL entry, so opj_j2k_get_num_tp() asserted on every
RPCL encode.
---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 3027b38..0c3be5a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -166,6 +166,7 @@ pub(crate) enum ProgressionOrder {
     Unknown = 0,
     CPRL,
     PCRL,
+    RPCL,
     RLCP,
     LRCP,
 }
@@ -175,6 +176,7 @@ impl ProgressionOrder {
         match enum_prog {
             OPJ_CPRL => Self::CPRL,
             OPJ_PCRL => Self::PCRL,
+            OPJ_RPCL => Self::RPCL,
             OPJ_RLCP => Self::RLCP,
             OPJ_LRCP => Self::LRCP,
             _ => Self::Unknown,
@@ -186,6 +188,7 @@ impl ProgressionOrder {
         match self {
             Self::CPRL => &[Component, Precinct, Resolution, Layer],
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
             Self::Unknown => &[],
@@ -196,6 +199,7 @@ impl ProgressionOrder {
         match self {
             Self::CPRL => "CPRL",
             Self::PCRL => "PCRL",
+            Self::RPCL => "RPCL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
             Self::Unknown => "",
-- 
2.43.0


From e962b74523cf215acff4f15e2d82115466afad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/22] fix: record the tile-part split position in
 opj_j2k_get_num_tp

The position of the split letter in the progression was never advanced, so
m_tp_pos was always 0 while the number of tile-parts was computed for the
requested position.
---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0c3be5a..ffb18e3 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -896,6 +896,7 @@ fn opj_j2k_get_num_tp(
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
                     break;
                 }
+                i += 1;
             }
         } else {
             tpnum = 1 as OPJ_UINT32
-- 
2.43.0


From f27a9f7ab83add975975b5bff5f65cecc419548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 11/22] fix: bound the precinct loop by the resolution's own
 precinct count

With tile-parts on, LRCP and RLCP iterated every resolution up to the largest
precinct count of the tile, so encoding failed as soon as resolutions have
different numbers of precincts.
---
 openjp2-rs/src/pi.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 8e73456..be09598 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -160,7 +160,10 @@ unsafe fn opj_pi_next_lrcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    // when tile parts are on, precno1 covers the resolution with most precincts
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
@@ -272,7 +275,10 @@ unsafe fn opj_pi_next_rlcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    // when tile parts are on, precno1 covers the resolution with most precincts
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
-- 
2.43.0


From dd18f5c4b5d872173caad21450ae37e74493d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 12/22] fix: visit every precinct position in RPCL and PCRL
 progressions

The position step was the smallest precinct extent of all components, so with
subsampling factors that do not divide each other (2 and 3, say) precincts
that start between two steps were never coded nor decoded.
---
 openjp2-rs/src/pi.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index be09598..0660395 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -66,6 +66,15 @@ unsafe fn opj_uint_ceildivpow2(mut a: OPJ_UINT32, mut b: OPJ_UINT32) -> OPJ_UINT
         >> b) as u32
 }
 
+// Greatest common divisor of two positive numbers: the step that visits the multiples of both.
+#[inline]
+fn opj_uint_gcd(mut a: OPJ_UINT32, mut b: OPJ_UINT32) -> OPJ_UINT32 {
+    while b != 0 {
+        (a, b) = (b, a % b);
+    }
+    a
+}
+
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
 // party and contributor rights, including patent rights, and no such rights
@@ -403,7 +412,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -436,7 +445,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
@@ -675,7 +684,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -708,7 +717,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
-- 
2.43.0


From caf4a7743abb0118ec96f9f737fdac901016bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 13/22] fix: tile-parts split by position cover every precinct
 in order

With a positional progression the encoder split the tile along the smallest
precinct extent but counted at most the largest precinct count of one
resolution, and restored a window that may start before the tile. Packets were
lost or coded out of order whenever precinct sizes or subsampling factors
differ. Step by the common divisor, count the actual windows and keep the
restored window inside the tile.
---
 openjp2-rs/src/j2k.rs | 24 +++++++++++++++++++---
 openjp2-rs/src/pi.rs  | 46 ++++++++++++++++++++++++-------------------
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ffb18e3..738765d 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -880,9 +880,27 @@ fn opj_j2k_get_num_tp(
                             as OPJ_UINT32
                     }
                     ProgressionStep::Precinct => {
-                        // precinct wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).prcE)
-                            as OPJ_UINT32
+                        // precinct wise: by number, or by position as opj_pi_create_encode() splits
+                        let nb_positions = match (*l_current_poc).prg {
+                            OPJ_LRCP | OPJ_RLCP => (*l_current_poc).prcE,
+                            _ => {
+                                let steps = |start: OPJ_UINT32, end: OPJ_UINT32, step: OPJ_UINT32| {
+                                    opj_uint_ceildiv(end, step).wrapping_sub(start / step)
+                                };
+                                steps(
+                                    (*l_current_poc).txS,
+                                    (*l_current_poc).txE,
+                                    (*l_current_poc).dx,
+                                )
+                                .wrapping_mul(steps(
+                                    (*l_current_poc).tyS,
+                                    (*l_current_poc).tyE,
+                                    (*l_current_poc).dy,
+                                ))
+                            }
+                        };
+                        tpnum =
+                            (tpnum as core::ffi::c_uint).wrapping_mul(nb_positions) as OPJ_UINT32
                     }
                     ProgressionStep::Layer => {
                         // layer wise
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 0660395..5096326 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -1244,9 +1244,9 @@ unsafe fn opj_get_encoding_parameters(
     // max precision is 0 (can only grow)
     *p_max_prec = 0 as OPJ_UINT32;
     *p_max_res = 0 as OPJ_UINT32;
-    // take the largest value for dx_min and dy_min
-    *p_dx_min = 0x7FFFFFFF as OPJ_UINT32;
-    *p_dy_min = 0x7FFFFFFF as OPJ_UINT32;
+    // position steps: the greatest common divisor of all precinct extents
+    *p_dx_min = 0 as OPJ_UINT32;
+    *p_dy_min = 0 as OPJ_UINT32;
     compno = 0 as OPJ_UINT32;
     while compno < (*p_image).numcomps {
         // arithmetic variables to calculate
@@ -1289,12 +1289,12 @@ unsafe fn opj_get_encoding_parameters(
                 * ((1u64) << (l_pdx + (*l_tccp).numresolutions - 1 - resno));
             l_dy = (*l_img_comp).dy as u64
                 * ((1u64) << (l_pdy + (*l_tccp).numresolutions - 1u32 - resno));
-            // take the minimum size for dx for each comp and resolution
+            // take the common step for each comp and resolution
             if l_dx < u32::MAX as u64 {
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx as u32);
+                *p_dx_min = opj_uint_gcd(*p_dx_min, l_dx as u32);
             }
             if l_dy < u32::MAX as u64 {
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy as u32);
+                *p_dy_min = opj_uint_gcd(*p_dy_min, l_dy as u32);
             }
             // various calculations of extents
             l_level_no = (*l_tccp)
@@ -1403,9 +1403,9 @@ unsafe fn opj_get_all_encoding_parameters(
     // max precision and resolution is 0 (can only grow)
     *p_max_prec = 0 as OPJ_UINT32;
     *p_max_res = 0 as OPJ_UINT32;
-    // take the largest value for dx_min and dy_min
-    *p_dx_min = 0x7FFFFFFF as OPJ_UINT32;
-    *p_dy_min = 0x7FFFFFFF as OPJ_UINT32;
+    // position steps: the greatest common divisor of all precinct extents
+    *p_dx_min = 0 as OPJ_UINT32;
+    *p_dy_min = 0 as OPJ_UINT32;
     compno = 0 as OPJ_UINT32;
     while compno < (*p_image).numcomps {
         // arithmetic variables to calculate
@@ -1467,8 +1467,8 @@ unsafe fn opj_get_all_encoding_parameters(
                 l_dx = (*l_img_comp)
                     .dx
                     .wrapping_mul((1u32) << l_pdx.wrapping_add(l_level_no));
-                // take the minimum size for l_dx for each comp and resolution
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx)
+                // take the common step for each comp and resolution
+                *p_dx_min = opj_uint_gcd(*p_dx_min, l_dx)
             }
             if l_pdy.wrapping_add(l_level_no) < 32u32
                 && (*l_img_comp).dy
@@ -1480,7 +1480,7 @@ unsafe fn opj_get_all_encoding_parameters(
                 l_dy = (*l_img_comp)
                     .dy
                     .wrapping_mul((1u32) << l_pdy.wrapping_add(l_level_no));
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy)
+                *p_dy_min = opj_uint_gcd(*p_dy_min, l_dy)
             }
             // various calculations of extents
             l_rx0 = opj_uint_ceildivpow2(l_tcx0, l_level_no);
@@ -2576,15 +2576,21 @@ pub(crate) unsafe fn opj_pi_create_encode(
                             (*pi.offset(pino as isize)).poc.precno1 = (*tcp).prc_t
                         }
                         _ => {
-                            (*pi.offset(pino as isize)).poc.tx0 = (*tcp)
-                                .tx0_t
-                                .wrapping_sub((*tcp).dx)
-                                .wrapping_sub((*tcp).tx0_t.wrapping_rem((*tcp).dx));
+                            (*pi.offset(pino as isize)).poc.tx0 = opj_uint_max(
+                                (*tcp).txS,
+                                (*tcp)
+                                    .tx0_t
+                                    .wrapping_sub((*tcp).dx)
+                                    .wrapping_sub((*tcp).tx0_t.wrapping_rem((*tcp).dx)),
+                            );
                             (*pi.offset(pino as isize)).poc.tx1 = (*tcp).tx0_t;
-                            (*pi.offset(pino as isize)).poc.ty0 = (*tcp)
-                                .ty0_t
-                                .wrapping_sub((*tcp).dy)
-                                .wrapping_sub((*tcp).ty0_t.wrapping_rem((*tcp).dy));
+                            (*pi.offset(pino as isize)).poc.ty0 = opj_uint_max(
+                                (*tcp).tyS,
+                                (*tcp)
+                                    .ty0_t
+                                    .wrapping_sub((*tcp).dy)
+                                    .wrapping_sub((*tcp).ty0_t.wrapping_rem((*tcp).dy)),
+                            );
                             (*pi.offset(pino as isize)).poc.ty1 = (*tcp).ty0_t
                         }
                     },
-- 
2.43.0


From 3c2c4e210b7535c6643bdc467f4c35ffb4d922e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 14/22] fix: reject encodes that need more than 255 tile-parts
 in a tile

TNsot and TPsot are bytes; they wrapped around and the codestream could not be
decoded.
---
 openjp2-rs/src/j2k.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 738765d..a2f2591 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -938,7 +938,7 @@ fn opj_j2k_calculate_tp(
     mut cp: *mut opj_cp_t,
     mut p_nb_tiles: *mut OPJ_UINT32,
     mut image: &mut opj_image,
-    mut _p_manager: &mut opj_event_mgr,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
     let mut pino: OPJ_UINT32 = 0;
@@ -998,6 +998,16 @@ fn opj_j2k_calculate_tp(
         cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
         pino += 1;
       }
+      // TNsot and TPsot are single bytes, cf. opj_j2k_write_sot()
+      if cur_totnum_tp > 255u32 {
+        event_msg!(
+          p_manager,
+          EVT_ERROR,
+          "Tile %d would need more than 255 tile-parts\n",
+          tileno
+        );
+        return 0i32;
+      }
       (*tcp).m_nb_tile_parts = cur_totnum_tp;
       tcp = tcp.offset(1);
       tileno += 1;
-- 
2.43.0


From cd52a42bb680846bcd45dda99f11226eaac1d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 15/22] fix: keep the bytes a stream returned before its end in
 Stream::read

read_exact consumed and dropped a partial read, so the tail of a stream was
lost and the recorded position no longer matched the reader's.
---
 openjp2-rs/src/stream.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 38b111f..fc5d450 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,23 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
-                    }
+        let mut nb = 0;
+        // A reader can return fewer bytes than asked for: read until the buffer is full or the
+        // stream ends, and keep the bytes read before the end.
+        while nb < buf.len() {
+            match self.m_inner.read(&mut buf[nb..]) {
+                Ok(0) => break,
+                Ok(count) => nb += count,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) if nb == 0 => {
+                    log::trace!("Failed to read from stream: {err}");
+                    return Err(err);
                 }
+                Err(_) => break,
             }
         }
+        self.m_byte_offset += nb as i64;
+        Ok(nb)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From c70afb600b6095cad2d6e7b8677f1e9e31cee06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 16/22] fix: no panic in get_bytes_left when the stream length
 is unknown

---
 openjp2-rs/src/stream.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index fc5d450..3a932b0 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -389,12 +389,10 @@ impl Stream {
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
         assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
-        let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
-        } else {
-            0i64
-        };
+        // The length is zero when it is unknown.
+        let nb = self
+            .m_stream_length
+            .saturating_sub(self.m_byte_offset as OPJ_UINT64) as OPJ_OFF_T;
         log::trace!("-- get_number_byte_left() = {}", nb);
         nb
     }
-- 
2.43.0


From 7f941f6e4fe1289cecabe7fea2a01d1a5de842b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 17/22] fix: seek custom streams with their seek function

Stream::seek called the skip function with negative amounts.
---
 openjp2-rs/src/stream.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 3a932b0..a2811c4 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -223,6 +223,21 @@ impl StreamInner {
         }
     }
 
+    /// Moves from position `from` to position `to`.  Only the seek function of a custom stream
+    /// can move backwards, its skip function can't.
+    pub fn seek_absolute(&mut self, from: i64, to: i64) -> std::io::Result<()> {
+        if to < 0 {
+            return Err(IoError::other(format!("Can't seek to offset < 0: {to}")));
+        }
+        match self {
+            StreamInner::CustomReader(_) | StreamInner::CustomWriter(_) if self.has_seek() => {
+                self.seek(SeekFrom::Start(to as u64))?;
+                Ok(())
+            }
+            _ => self.seek_relative(to - from),
+        }
+    }
+
     pub fn has_seek(&self) -> bool {
         match self {
             StreamInner::Reader(_) => true,
@@ -428,7 +443,7 @@ impl Stream {
     }
 
     pub fn seek(&mut self, offset: i64) -> std::io::Result<()> {
-        let res = self.m_inner.seek_relative(offset - self.m_byte_offset);
+        let res = self.m_inner.seek_absolute(self.m_byte_offset, offset);
         match res {
             Ok(_) => {
                 self.m_byte_offset = offset;
-- 
2.43.0


From 637b1f0a062e4d8e5deb2f6944b6cc5c4e140d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 18/22] fix: continue short skips of a custom stream

---
 openjp2-rs/src/stream.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index a2811c4..9f4490a 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -167,17 +167,26 @@ impl Seek for CustomStream {
                 }
             }
             SeekFrom::Current(offset) => {
-                let res = if let Some(skip) = &self.m_skip_fn {
-                    unsafe { skip(offset, self.m_user_data) }
+                let skip = if let Some(skip) = &self.m_skip_fn {
+                    skip
                 } else {
                     return Err(IoError::other("Custom stream doesn't have a skip function"));
                 };
-                if res != -1 {
-                    self.m_byte_offset += offset;
-                    Ok(self.m_byte_offset as u64)
-                } else {
-                    Err(IoError::other("skip failed"))
+                // The skip function returns the number of bytes it skipped, which can be less
+                // than asked for, or -1.
+                let mut left = offset;
+                loop {
+                    let res = unsafe { skip(left, self.m_user_data) };
+                    if res == -1 || (res == 0 && left > 0) {
+                        return Err(IoError::other("skip failed"));
+                    }
+                    if res < 0 || res >= left {
+                        break;
+                    }
+                    left -= res;
                 }
+                self.m_byte_offset += offset;
+                Ok(self.m_byte_offset as u64)
             }
             SeekFrom::End(_offset) => Err(IoError::other("Unsupported seek from end")),
         }
-- 
2.43.0


From 5c970eefb4eaa826f735360211bc529162614562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 19/22] fix: opj_stream_create_file_stream returns null when
 the file can't be opened

It returned a pointer to a Result instead of a stream.
---
 openjp2-rs/src/openjpeg.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index 98fca34..882cf29 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -667,11 +667,13 @@ pub unsafe fn opj_stream_create_file_stream(
         return std::ptr::null_mut::<opj_stream_t>();
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
-        Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
-        }
+        Ok(name) => match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+            Ok(l_stream) => Box::into_raw(Box::new(l_stream)) as *mut opj_stream_t,
+            Err(err) => {
+                log::error!("Failed to open file: {err}");
+                std::ptr::null_mut::<opj_stream_t>()
+            }
+        },
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
             std::ptr::null_mut::<opj_stream_t>()
-- 
2.43.0


From 5ad109b83d255ea8636012229d3c172c3d383beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 20/22] fix: end of stream in opj_j2k_read_sod adds no data to
 the tile

The -1 returned at the end of the stream was added to the tile's data size.
---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a2f2591..a9bb8d3 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4437,7 +4437,11 @@ fn opj_j2k_read_sod(
                 (*l_current_data).offset(*l_tile_len as isize),
                 p_j2k.m_specific_param.m_decoder.m_sot_length as OPJ_SIZE_T,
                 p_manager,
-            )
+            );
+            if l_current_read_size == -1i32 as OPJ_SIZE_T {
+                // nothing is left in the stream
+                l_current_read_size = 0 as OPJ_SIZE_T
+            }
         } else {
             l_current_read_size = 0 as OPJ_SIZE_T
         }
-- 
2.43.0


From 865609d73bce44af5234d14eb14da6a89b0d13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 21/22] fix: write the component's own parameters in its COC
 marker segment

The segment was sized for the component but filled in from component 0.
---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a9bb8d3..8e0beec 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1989,7 +1989,7 @@ fn opj_j2k_write_coc_in_memory(
         opj_j2k_write_SPCod_SPCoc(
             p_j2k,
             p_j2k.m_current_tile_number,
-            0 as OPJ_UINT32,
+            p_comp_no,
             l_current_data,
             &mut l_remaining_size,
             p_manager,
-- 
2.43.0


From e1b16a84be8c9a7963d6640a1859bd09b2f59eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 22/22] fix: area of a single tile that extends beyond 2^32-1
 wrapped around

---
 openjp2-rs/src/j2k.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8e0beec..1650794 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12015,8 +12015,8 @@ pub(crate) fn opj_j2k_get_tile(
         }
         p_image.x1 = l_tile_x
             .wrapping_add(1u32)
-            .wrapping_mul(p_j2k.m_cp.tdx)
-            .wrapping_add(p_j2k.m_cp.tx0);
+            .saturating_mul(p_j2k.m_cp.tdx)
+            .saturating_add(p_j2k.m_cp.tx0); // the last tile can extend beyond 2^32-1
         if p_image.x1 > (*p_j2k.m_private_image).x1 {
             p_image.x1 = (*p_j2k.m_private_image).x1
         }
@@ -12028,8 +12028,8 @@ pub(crate) fn opj_j2k_get_tile(
         }
         p_image.y1 = l_tile_y
             .wrapping_add(1u32)
-            .wrapping_mul(p_j2k.m_cp.tdy)
-            .wrapping_add(p_j2k.m_cp.ty0);
+            .saturating_mul(p_j2k.m_cp.tdy)
+            .saturating_add(p_j2k.m_cp.ty0); // the last tile can extend beyond 2^32-1
         if p_image.y1 > (*p_j2k.m_private_image).y1 {
             p_image.y1 = (*p_j2k.m_private_image).y1
         }
-- 
2.43.0

