From 0edc1dfc5966303cc3065aaba6da932082c2d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 01/37] fix: clamp a segment's quantizer index to 0..127 before
 using it

---
 src/decoder/frame.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..1216af3 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -26,6 +26,8 @@
    (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
    OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE. */
 
+#include <algorithm>
+
 #include "frame.hh"
 
 using namespace std;
@@ -193,11 +195,14 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_index = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
             ? static_cast<Unsigned<7>>( 0 )
             : segment_indices.y_ac_qi );
 
+      /* the index is clamped before the per-plane adjustments are added */
+      segment_indices.y_ac_qi = min( max( segment_index, 0 ), 127 );
+
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
   }
-- 
2.43.0


From 3a617cd0515aa487d5e26b6a8b12f40fe1148b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 02/37] fix: clamp a segment's loop-filter level to 0..63
 before adjusting it

---
 src/decoder/frame.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 1216af3..cc8a8a8 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -163,6 +163,9 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
               ? 0
               : segment_filter.filter_level );
 
+        /* the segment's level is clamped before the per-macroblock adjustments are added */
+        segment_filter.filter_level = min( max( segment_filter.filter_level, 0 ), 63 );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From 7c04f85080535a2ca28ae872f3f9ee5cc532eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 03/37] fix: loop-filter adjustments that a frame does not
 update keep their value

---
 src/decoder/decoder_state.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 7740940..5de073e 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -56,9 +56,12 @@ void FilterAdjustments::update( const HeaderType & header ) {
 
   /* update additional in-loop deblocking filter adjustments */
   if ( header.mode_lf_adjustments.get().initialized() ) {
+    const auto & updates = header.mode_lf_adjustments.get().get();
+
+    /* an adjustment that is not updated keeps its value */
     for ( unsigned int i = 0; i < loopfilter_ref_adjustments.size(); i++ ) {
-      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( 0 );
-      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( 0 );
+      loopfilter_ref_adjustments.at( i ) = updates.ref_update.at( i ).get_or( loopfilter_ref_adjustments.at( i ) );
+      loopfilter_mode_adjustments.at( i ) = updates.mode_update.at( i ).get_or( loopfilter_mode_adjustments.at( i ) );
     }
   }
 }
-- 
2.43.0


From 96cbb24ae49c62d617bf5797a509b1be9b920d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 04/37] fix: macroblocks belong to segment 0 until a
 segmentation map is sent

---
 src/decoder/decoder_state.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 5de073e..9bf44ed 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -173,7 +173,7 @@ template <class HeaderType>
 Segmentation::Segmentation( const HeaderType & header,
                             const unsigned int width,
                             const unsigned int height )
-  : map( width, height, 3 )
+  : map( width, height, 0 )
 {
   update( header );
 }
-- 
2.43.0


From 7f1ff1f5c5d27471e3eebf131fc866b838a0a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 05/37] fix: segmentation and loop-filter adjustments survive
 frames that disable them

---
 src/decoder/decoder_state.hh |  8 ++------
 src/decoder/frame.cc         | 17 ++++++++++++-----
 src/encoder/encode_inter.cc  |  2 --
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 9bf44ed..97109aa 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -140,9 +140,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     } else {
       filter_adjustments.initialize( myframe.header() );
     }
-  } else {
-    filter_adjustments.clear();
-  }
+  } /* a frame that disables the adjustments leaves them as they were */
 
   /* update segmentation information */
   if ( myframe.header().update_segmentation.initialized() ) {
@@ -151,9 +149,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     } else {
       segmentation.initialize( myframe.header(), width, height );
     }
-  } else {
-    segmentation.clear();
-  }
+  } /* a frame that disables segmentation leaves it as it was */
 
   /* parse the frame (and update the persistent segmentation map) */
   myframe.parse_macroblock_headers( first_partition, frame_probability_tables,
diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index cc8a8a8..eee4d82 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -153,7 +153,9 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     SafeArray< FilterParameters, num_segments > segment_loopfilters;
 
-    if ( segmentation.initialized() ) {
+    const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
+
+    if ( segmentation_enabled ) {
       for ( uint8_t i = 0; i < num_segments; i++ ) {
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
@@ -172,14 +174,17 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     /* the macroblock needs to know whether the mode- and reference-based
        filter adjustments are enabled */
+    const Optional<FilterAdjustments> adjustments_in_use = header_.mode_lf_adjustments.initialized()
+      ? filter_adjustments
+      : Optional<FilterAdjustments>();
 
     macroblock_headers_.get().forall_ij( [&]( const MacroblockType & macroblock,
                                               const unsigned int column,
                                               const unsigned int row )
                                          {
                                            VP8Raster::Macroblock output = raster.macroblock( column, row );
-                                           macroblock.loopfilter( filter_adjustments,
-                                                                  segmentation.initialized()
+                                           macroblock.loopfilter( adjustments_in_use,
+                                                                  segmentation_enabled
                                                                   ? segment_loopfilters.at( macroblock.segment_id() )
                                                                   : frame_loopfilter,
                                                                   output ); } );
@@ -219,12 +224,13 @@ void KeyFrame::decode( const Optional< Segmentation > & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const KeyFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_enabled
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
@@ -238,12 +244,13 @@ void InterFrame::decode( const Optional<Segmentation> & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const InterFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_enabled
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..5d5e8cb 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -164,8 +164,6 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     } else {
       decoder_state_.filter_adjustments.initialize( frame.header() );
     }
-  } else {
-    decoder_state_.filter_adjustments.clear();
   }
 }
 
-- 
2.43.0


From 18ce17bba9197607b016ff589c957052cdb89e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:38 +0000
Subject: [PATCH 06/37] fix: size the motion search's reference copy by whole
 macroblocks

SafeRaster was allocated for the displayed size but filled with the padded
picture, writing past its end for sizes that are not multiples of 16.
---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From 4ecdbd7fe4736223c0e7b09ea14197ed2994e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 07/37] fix: start references from defined contents

Rasters are recycled, so a new decoder's (and encoder's) reference pictures, and
with them its fingerprint, depended on what had been decoded before.
---
 src/decoder/decoder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..3ec57b7 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -158,8 +158,18 @@ bool Decoder::operator==( const Decoder & other ) const
   return state_ == other.state_ and references_ == other.references_;
 }
 
+/* rasters are recycled: start from defined contents */
+static MutableRasterHandle blank_raster( const uint16_t width, const uint16_t height )
+{
+  MutableRasterHandle raster( width, height );
+  raster.get().Y().fill( 0 );
+  raster.get().U().fill( 0 );
+  raster.get().V().fill( 0 );
+  return raster;
+}
+
 References::References( const uint16_t width, const uint16_t height )
-  : References( MutableRasterHandle( width, height ) )
+  : References( blank_raster( width, height ) )
 {}
 
 References::References( MutableRasterHandle && raster )
-- 
2.43.0


From deba9ec64176ea9cbc2e3f122d0c53eaac3a578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 08/37] fix: start every encoded frame from an empty header

Frame objects come from a pool and are used again and again; probability updates
and reference probabilities left from earlier frames (also those of other encoders)
went into later ones, so equal encoders produced different frames.
---
 src/decoder/frame.hh           | 7 +++++++
 src/encoder/encode_inter.cc    | 1 +
 src/encoder/encode_intra.cc    | 1 +
 src/encoder/size_estimation.cc | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/src/decoder/frame.hh b/src/decoder/frame.hh
index 576c27f..7881d95 100644
--- a/src/decoder/frame.hh
+++ b/src/decoder/frame.hh
@@ -82,6 +82,13 @@ class Frame
   const FrameHeaderType & header() const { return header_; }
   FrameHeaderType & mutable_header() { return header_; }
 
+  /* back to the header of an empty frame */
+  void reset_header()
+  {
+    BoolDecoder zero { { nullptr, 0 } };
+    header_ = FrameHeaderType( zero );
+  }
+
   const TwoD<MacroblockType> & macroblocks() const { return macroblock_headers_.get(); }
   TwoD<MacroblockType> & mutable_macroblocks() { return macroblock_headers_.get(); }
 
diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index 5d5e8cb..4429c82 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -581,6 +581,7 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
   DecoderState decoder_state_copy = decoder_state_;
 
   InterFrame & frame = inter_frame_;
+  frame.reset_header();
 
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index f39b785..265431d 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -395,6 +395,7 @@ pair<KeyFrame &, double> Encoder::encode_raster<KeyFrame>( const VP8Raster & ras
   decoder_state_ = DecoderState( width(), height() );
 
   KeyFrame & frame = key_frame_;
+  frame.reset_header();
 
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
diff --git a/src/encoder/size_estimation.cc b/src/encoder/size_estimation.cc
index ad35d1c..4aed114 100644
--- a/src/encoder/size_estimation.cc
+++ b/src/encoder/size_estimation.cc
@@ -45,6 +45,7 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
   decoder_state_ = DecoderState( width(), height() );
 
   KeyFrame & frame = subsampled_key_frame_;
+  frame.reset_header();
 
   QuantIndices quant_indices;
   quant_indices.y_ac_qi = y_ac_qi;
@@ -105,6 +106,7 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
     };
 
   InterFrame & frame = subsampled_inter_frame_;
+  frame.reset_header();
 
   DecoderState decoder_state_copy = decoder_state_;
 
-- 
2.43.0


From 35abbb0ef9fa13c9885f7eff8424b8a932d8c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 09/37] fix: measure the quality of the frames tried for a
 minimum SSIM

The search asked for the state to be kept instead of for the quality, so every
trial counted as quality 0 and the finest quantizer was always chosen.
---
 src/encoder/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..8901259 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -530,7 +530,7 @@ FrameType & Encoder::encode_with_quantizer_search( const VP8Raster & raster,
   while ( y_ac_qi_min <= y_ac_qi_max ) {
     quant_indices.y_ac_qi = ( y_ac_qi_min + y_ac_qi_max ) / 2;
 
-    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, true );
+    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, false, true );
 
     double current_ssim = encoded_frame.second;
 
-- 
2.43.0


From 82c9eabadcbf34f52727a6fc9c0d1db82ab41f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 10/37] fix: refuse malformed state files in every build

---
 src/decoder/decoder.cc              | 52 +++++++++++++++--------------
 src/decoder/enc_state_serializer.hh | 40 +++++++++++-----------
 src/decoder/probability_tables.cc   |  7 ++--
 3 files changed, 50 insertions(+), 49 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 3ec57b7..497ab97 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,9 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  idata.expect(idata.remaining() == 0);
+  idata.expect(references_.last.get().display_width() == state_.width
+               and references_.last.get().display_height() == state_.height);
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -70,12 +72,10 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  idata.expect(data_type == EncoderSerDesTag::DECODER);
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  idata.expect(len == idata.remaining());
 
   return Decoder(idata);
 }
@@ -208,17 +208,18 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 
 References References::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  idata.expect(data_type == EncoderSerDesTag::REFERENCES);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.expect(get_len <= idata.remaining());
+  const size_t left_after = idata.remaining() - get_len;
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
 
-  return References(idata, width, height);
+  References ret(idata, width, height);
+  idata.expect(idata.remaining() == left_after);
+  return ret;
 }
 
 bool References::operator==(const References &other) const {
@@ -256,11 +257,16 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   EncoderSerDesTag seg_opt = idata.get_tag();
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
+    idata.expect(segmentation.get().map.width() == width and segmentation.get().map.height() == height);
+  } else {
+    idata.expect(seg_opt == EncoderSerDesTag::OPT_EMPTY);
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
+  } else {
+    idata.expect(filt_opt == EncoderSerDesTag::OPT_EMPTY);
   }
 }
 
@@ -325,17 +331,18 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  idata.expect(data_type == EncoderSerDesTag::DECODER_STATE);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.expect(get_len <= idata.remaining());
+  const size_t left_after = idata.remaining() - get_len;
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
 
-  return DecoderState(idata, width, height);
+  DecoderState ret(idata, width, height);
+  idata.expect(idata.remaining() == left_after);
+  return ret;
 }
 
 size_t FilterAdjustments::hash( void ) const
@@ -368,14 +375,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
+  idata.expect(data_type == EncoderSerDesTag::FILT_ADJ);
 
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  idata.expect(expect_len == get_len);
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -433,16 +437,14 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
+  idata.expect(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
-  uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  uint32_t expect_len = 4 + num_segments + num_segments + uint32_t(width) * height;
+  idata.expect(expect_len == get_len and get_len - 4 <= idata.remaining() and width > 0 and height > 0);
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..6714eee 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -37,6 +37,7 @@
 #include <utility>
 #include <vector>
 
+#include "exception.hh"
 #include "file.hh"
 #include "file_descriptor.hh"
 
@@ -141,6 +142,13 @@ class EncoderStateDeserializer : File {
       return T::deserialize(idata, std::forward<Ps>(ps)...);
     }
 
+    // state files come from outside: what they claim is checked in every build
+    static void expect(const bool valid) {
+      if (not valid) {
+        throw Invalid("malformed state file");
+      }
+    }
+
     void reset(void) { ptr_ = 0; }
     size_t remaining(void) const { return chunk().size() - ptr_; }
     size_t size(void) const { return chunk().size(); }
@@ -164,26 +172,20 @@ class EncoderStateDeserializer : File {
     }
 
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
-      MutableRasterHandle raster(width, height);
+      expect(this->get_tag() == t);
+      expect(width > 0 and height > 0);
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-      }
+      const uint64_t rwidth = 16 * VP8Raster::macroblock_dimension(width);
+      const uint64_t rheight = 16 * VP8Raster::macroblock_dimension(height);
+
+      const uint64_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+      const uint32_t get_len = this->get<uint32_t>();
+      expect(get_len == expect_len and get_len <= this->remaining());
+
+      MutableRasterHandle raster(width, height);
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
 
       return raster;
     }
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..c0dbbd0 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -159,15 +159,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
+  idata.expect(data_type == EncoderSerDesTag::PROB_TABLE);
 
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  idata.expect(expect_len == get_len);
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From 6e5eabbe2ca463e0f06f45cdb3cf89990af487e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 11/37] fix: fingerprints cover the mode-based filter
 adjustments

---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 497ab97..ad7477e 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -351,7 +351,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 1ac0857b7baf5ebab05e69a32db7ad8f3d96146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 12/37] fix: put_header_field( uint64_t ) writes all eight
 bytes

---
 src/net/packet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..e63af99 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
-- 
2.43.0


From bafe62b6eecb79c591b04a6e0e58797371208805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 13/37] fix: refuse to fragment an empty or oversized frame

---
 src/net/packet.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index e63af99..7f7ef80 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -156,6 +156,11 @@ FragmentedFrame::FragmentedFrame( const uint16_t connection_id,
     fragments_(),
     remaining_fragments_( 0 )
 {
+  /* fragment numbers and counts are 16-bit fields on the wire */
+  if ( whole_frame.empty() or whole_frame.size() > Packet::MAXIMUM_PAYLOAD * UINT16_MAX ) {
+    throw runtime_error( "frame cannot be fragmented: empty or too large" );
+  }
+
   size_t next_fragment_start = 0;
 
   for ( uint16_t fragment_no = 0; next_fragment_start < whole_frame.size();
-- 
2.43.0


From 8d61f09354214a9ca0677a8a418c549d59007f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 14/37] fix: check an acknowledgement's length before
 allocating its states

---
 src/net/packet.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 7f7ef80..d93effb 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -307,10 +307,16 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  const uint64_t complete_state_count = str( 16, 4 ).le32();
+
+  if ( str.size() != 20 + 4 * complete_state_count ) {
+    throw runtime_error( "invalid ack: size does not match the number of complete states" );
+  }
+
+  for ( size_t i = 0; i < complete_state_count; i++ ) {
+    complete_states_.push_back( str( 20 + i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From 00c7783cc5957ff4944eca82d874663d72220987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:54 +0000
Subject: [PATCH 15/37] fix: bound the IVF index by the size of the file

---
 src/util/ivf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 171769e..46d73d6 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -26,6 +26,7 @@
    (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
    OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE. */
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "ivf.hh"
@@ -59,7 +60,7 @@ try :
         }
 
         /* build the index */
-        frame_index_.reserve( frame_count_ );
+        frame_index_.reserve( min<uint64_t>( frame_count_, file_.size() / frame_header_len ) );
 
         uint64_t position = supported_header_len;
         for ( uint32_t i = 0; i < frame_count_; i++ ) {
-- 
2.43.0


From 3ed063c5208ad570f75a4788ca5e7d21419d4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:54 +0000
Subject: [PATCH 16/37] fix: YUV4MPEG pictures of odd width or height have
 rounded-up chroma planes

---
 src/input/yuv4mpeg.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..ee2cbcd 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -55,7 +55,7 @@ size_t YUV4MPEGHeader::frame_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height * 3 ) / 2;
+      return y_plane_length() + 2 * uv_plane_length();
     default: throw LogicError();
   }
 }
@@ -66,7 +66,7 @@ size_t YUV4MPEGHeader::y_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height );
+      return size_t( width ) * height;
     default: throw LogicError();
   }
 }
@@ -77,7 +77,7 @@ size_t YUV4MPEGHeader::uv_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height / 4 );
+      return ( ( size_t( width ) + 1 ) / 2 ) * ( ( size_t( height ) + 1 ) / 2 );
     default: throw LogicError();
   }
 }
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From c4ab0ccc8ea321df7bf093a02f950942acbe796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:54 +0000
Subject: [PATCH 17/37] fix: report YUV4MPEG headers that are cut short

---
 src/input/yuv4mpeg.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index ee2cbcd..641f24a 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -155,6 +155,10 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
     fd_( move( fd ) )
 {
   string header_str = fd_.getline();
+  if ( fd_.eof() ) {
+    throw runtime_error( "yuv4mpeg2 header cut short" );
+  }
+
   istringstream ssin( header_str );
 
   string token;
@@ -276,6 +280,10 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
 
   string frame_header = fd_.getline();
   if ( fd_.eof() ) {
+    if ( not frame_header.empty() ) {
+      throw runtime_error( "yuv4mpeg2 frame header cut short" );
+    }
+
     return {};
   }
 
-- 
2.43.0


From c7058cda9e0e8cd49b4a2993f9a43469faf50ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:54 +0000
Subject: [PATCH 18/37] fix: refuse YUV4MPEG header values that would be
 misread

---
 src/input/yuv4mpeg.cc | 29 ++++++++++++++++++++++-------
 src/input/yuv4mpeg.hh |  8 ++++----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 641f24a..d12aba6 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -127,6 +127,21 @@ string YUV4MPEGHeader::to_string()
   return ss.str();
 }
 
+/* the whole string is a decimal number no greater than the limit */
+static uint32_t parse_number( const string & str, const uint32_t limit )
+{
+  if ( str.empty() or str.find_first_not_of( "0123456789" ) != string::npos ) {
+    throw runtime_error( "invalid number in yuv4mpeg2 header" );
+  }
+
+  const unsigned long value = stoul( str );
+  if ( value > limit ) {
+    throw out_of_range( "number too large in yuv4mpeg2 header" );
+  }
+
+  return value;
+}
+
 pair< size_t, size_t > YUV4MPEGReader::parse_fraction( const string & fraction_str )
 {
   size_t colon_pos = fraction_str.find( ":" );
@@ -138,8 +153,8 @@ pair< size_t, size_t > YUV4MPEGReader::parse_fraction( const string & fraction_s
   size_t numerator = 0;
   size_t denominator = 0;
 
-  numerator = stoi( fraction_str.substr( 0, colon_pos ) );
-  denominator = stoi( fraction_str.substr( colon_pos + 1 ) );
+  numerator = parse_number( fraction_str.substr( 0, colon_pos ), UINT32_MAX );
+  denominator = parse_number( fraction_str.substr( colon_pos + 1 ), UINT32_MAX );
 
   return make_pair( numerator, denominator );
 }
@@ -175,11 +190,11 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
 
     switch ( token[0] ) {
     case 'W': // width
-      header_.width = stoi( token.substr( 1 ) );
+      header_.width = parse_number( token.substr( 1 ), UINT16_MAX );
       break;
 
     case 'H': // height
-      header_.height = stoi( token.substr( 1 ) );
+      header_.height = parse_number( token.substr( 1 ), UINT16_MAX );
       break;
 
     case 'F': // framerate
@@ -191,7 +206,7 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
     }
 
     case 'I':
-      if ( token.length() < 2 ) {
+      if ( token.length() != 2 ) {
         throw runtime_error( "invalid interlacing mode" );
       }
 
@@ -213,8 +228,8 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
     }
 
     case 'C': // color space
-        if ( token.substr( 0, 4 ) != "C420" ) {
-          throw runtime_error( "only yuv420 color space is supported" );
+        if ( token != "C420" and token != "C420jpeg" and token != "C420paldv" and token != "C420mpeg2" ) {
+          throw runtime_error( "only 8-bit yuv420 color space is supported" );
         }
         header_.color_space = YUV4MPEGHeader::ColorSpace::C420;
         break;
diff --git a/src/input/yuv4mpeg.hh b/src/input/yuv4mpeg.hh
index 93709cb..a83ea01 100644
--- a/src/input/yuv4mpeg.hh
+++ b/src/input/yuv4mpeg.hh
@@ -50,10 +50,10 @@ public:
 
   uint16_t width;
   uint16_t height;
-  uint16_t fps_numerator;
-  uint16_t fps_denominator;
-  uint16_t pixel_aspect_ratio_numerator;
-  uint16_t pixel_aspect_ratio_denominator;
+  uint32_t fps_numerator;
+  uint32_t fps_denominator;
+  uint32_t pixel_aspect_ratio_numerator;
+  uint32_t pixel_aspect_ratio_denominator;
   InterlacingMode interlacing_mode;
   ColorSpace color_space;
 
-- 
2.43.0


From fc8999093effa9d2de848af26ab853361479e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 19/37] fix: IVF frame positions do not wrap around at large
 frame lengths

---
 src/util/ivf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 46d73d6..5790957 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -68,7 +68,7 @@ try :
           const uint32_t frame_len = frame_header.le32();
 
           frame_index_.emplace_back( position + frame_header_len, frame_len );
-          position += frame_header_len + frame_len;
+          position += uint64_t( frame_header_len ) + frame_len;
         }
       }
 catch ( const out_of_range & e )
-- 
2.43.0


From 7cb4f834308ae93a803c1a45075b448b24c564fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:31 +0000
Subject: [PATCH 20/37] fix: a truncated first partition is not a complete one

BoolDecoder's second argument says that the chunk is complete; it was given
the opposite, so macroblock headers lost with the end of a truncated first
partition were decoded from implied zeros instead of being concealed.
---
 src/decoder/decoder_state.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 97109aa..48bf1bf 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -79,7 +79,7 @@ inline KeyFrame DecoderState::parse_and_apply<KeyFrame>( const UncompressedChunk
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   if ( uncompressed_chunk.experimental() ) {
     throw Invalid( "experimental key frame" );
@@ -120,7 +120,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   /* parse interframe header */
   InterFrame myframe( uncompressed_chunk.show_frame(),
-- 
2.43.0


From 2409a5d8df4bdb456142a1f00debf9928f588df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:25 +0000
Subject: [PATCH 21/37] fix: in error-concealment mode, accept frames cut in a
 token partition

A frame with several token partitions that was cut before the last one was
refused even in error-concealment mode; the parts that arrived are used.
---
 src/decoder/uncompressed_chunk.cc | 17 ++++++++++++-----
 src/decoder/uncompressed_chunk.hh |  1 +
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/decoder/uncompressed_chunk.cc b/src/decoder/uncompressed_chunk.cc
index a674fc6..a28deda 100644
--- a/src/decoder/uncompressed_chunk.cc
+++ b/src/decoder/uncompressed_chunk.cc
@@ -42,7 +42,8 @@ UncompressedChunk::UncompressedChunk( const Chunk & frame,
     experimental_(),
     first_partition_( nullptr, 0 ),
     rest_( nullptr, 0 ),
-    corruption_level_( NO_CORRUPTION )
+    corruption_level_( NO_CORRUPTION ),
+    accept_partial_( accept_partial )
 {
   try {
     /* flags */
@@ -134,18 +135,24 @@ const vector< Chunk > UncompressedChunk::dct_partitions( const uint8_t num ) con
   /* extract the rest of the partitions */
   Chunk rest_of_frame = rest_;
 
+  /* what is missing from the end of a partial frame is missing from its partitions */
+  auto take = [&] ( const uint64_t length ) {
+    const Chunk taken = rest_of_frame( 0, accept_partial_ ? min( length, rest_of_frame.size() ) : length );
+    rest_of_frame = rest_of_frame( taken.size() );
+    return taken;
+  };
+
   /* get the lengths of all DCT partitions except the last one */
   vector< uint32_t > partition_lengths;
   for ( uint8_t i = 0; i < num - 1; i++ ) {
-    partition_lengths.push_back( rest_of_frame.bits( 0, 24 ) );
-    rest_of_frame = rest_of_frame( 3 );
+    const Chunk length = take( 3 );
+    partition_lengths.push_back( length.size() == 3 ? length.bits( 0, 24 ) : 0 );
   }
 
   /* make all the DCT partitions */
   vector< Chunk > dct_partitions;
   for ( const auto & length : partition_lengths ) {
-    dct_partitions.emplace_back( rest_of_frame( 0, length ) );
-    rest_of_frame = rest_of_frame( length );
+    dct_partitions.emplace_back( take( length ) );
   }
 
   /* make the last DCT partition */
diff --git a/src/decoder/uncompressed_chunk.hh b/src/decoder/uncompressed_chunk.hh
index f4c9c08..fe435c9 100644
--- a/src/decoder/uncompressed_chunk.hh
+++ b/src/decoder/uncompressed_chunk.hh
@@ -59,6 +59,7 @@ private:
   Chunk first_partition_;
   Chunk rest_;
   CorruptionLevel corruption_level_;
+  bool accept_partial_;
 
 public:
   UncompressedChunk( const Chunk & frame, const uint16_t expected_width,
-- 
2.43.0


From 9a664b420589ea16b54548a5b58e8f08a031e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:41 +0000
Subject: [PATCH 22/37] fix: a concealed macroblock always has a reference
 frame

When the first partition ended within a macroblock's header, the macroblock
was made inter-coded without saying which frame it refers to.
---
 src/decoder/macroblock.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..35dfa9a 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -346,7 +346,8 @@ void InterFrameMacroblock::decode_prediction_modes( BoolDecoder & data,
 {
   if ( error_concealment and not data.valid() ) {
     /* We don't have enough prediction data for this macroblock */
-    header_.is_inter_mb = true;
+    header_.set_reference( LAST_FRAME );
+    header_.motion_vectors_flipped_ = false;
     Y2_.set_prediction_mode( ZEROMV );
     Y2_.set_if_coded();
   }
-- 
2.43.0


From 1abc5d797197377ab0e0d228e454d06118ea6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:40 +0000
Subject: [PATCH 23/37] fix: salsify-receiver keeps a decoder whose state was
 reached again later

---
 src/salsify/salsify-receiver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..83a4ca3 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,6 +28,7 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <random>
 #include <unordered_map>
@@ -281,7 +282,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* the same state can have been reached again later */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
-- 
2.43.0


From 9268c1c1afe5fcc5f8eadd0fd82d8eed205b8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 24/37] fix: salsify-sender falls back on a state it still has
 while recovering

---
 src/salsify/salsify-sender.cc | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..2ee2409 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -382,6 +382,19 @@ int main( int argc, char *argv[] )
 
       uint32_t selected_source_hash = initial_state;
 
+      /* the latest state that the receiver is sure to have stored and that we
+         still have the encoder for, or the default state */
+      const auto last_sure_state = [&]() -> uint32_t
+        {
+          for ( auto it = receiver_complete_states.rbegin(); it != receiver_complete_states.rend(); it++ ) {
+            if ( encoders.count( *it ) ) {
+              return *it;
+            }
+          }
+
+          return initial_state;
+        };
+
       /* reason about the state of the receiver based on ack messages
        * this is the logic that decides which encoder to use. for example,
        * if the packet loss is huge, we can always select an encoder with a sure
@@ -390,15 +403,7 @@ int main( int argc, char *argv[] )
       /* if we're in 'conservative' mode, let's just encode based on something
          we're sure that is available in the receiver */
       if ( system_clock::now() < conservative_until ) {
-        if( receiver_complete_states.size() == 0 ) {
-          /* and the receiver doesn't have any other states, other than the
-             default state */
-          selected_source_hash = initial_state;
-        }
-        else {
-          /* the receiver has at least one stored state, let's use it */
-          selected_source_hash = receiver_complete_states.back();
-        }
+        selected_source_hash = last_sure_state();
       }
       else if ( not receiver_last_acked_state.initialized() ) {
         /* okay, we're not in 'conservative' mode */
@@ -423,15 +428,7 @@ int main( int argc, char *argv[] )
           cerr << "Going into 'conservative' mode for next "
                << conservative_for.count() << " seconds." << endl;
 
-          if( receiver_complete_states.size() == 0 ) {
-            /* and the receiver doesn't have any other states, other than the
-               default state */
-            selected_source_hash = initial_state;
-          }
-          else {
-            /* the receiver has at least one stored state, let's use it */
-            selected_source_hash = receiver_complete_states.back();
-          }
+          selected_source_hash = last_sure_state();
         }
         else {
           /* we assume that the receiver is in a right state */
-- 
2.43.0


From 07920c30856131a3c9f967347fa2381cedc6e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 25/37] fix: the encoder links when built without the SSE2
 kernels

The portable distortion measures were never instantiated and prediction
from a guarded reference only existed in the SSE2 build.
---
 src/decoder/prediction.cc | 16 ++++++++++++++--
 src/encoder/variance.cc   |  9 +++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/decoder/prediction.cc b/src/decoder/prediction.cc
index c714b99..62055eb 100644
--- a/src/decoder/prediction.cc
+++ b/src/decoder/prediction.cc
@@ -728,13 +728,25 @@ void VP8Raster::Block<size>::inter_predict( const MotionVector & mv,
   }
 }
 
+#else
+
+template <unsigned int size>
+void VP8Raster::Block<size>::inter_predict( const MotionVector & mv,
+                                            const SafeRaster & reference,
+                                            TwoDSubRange<uint8_t, size, size> & output ) const
+{
+  safe_inter_predict( mv, reference,
+                      column_ * size + ( mv.x() >> 3 ), row_ * size + ( mv.y() >> 3 ),
+                      output );
+}
+
+#endif
+
 template
 void VP8Raster::Block<16>::inter_predict( const MotionVector & mv,
                                             const SafeRaster & reference,
                                             TwoDSubRange<uint8_t, 16, 16> & output ) const;
 
-#endif
-
 #ifdef HAVE_SSE2
 template <>
 void VP8Raster::Block<4>::sse_horiz_inter_predict( const uint8_t * src,
diff --git a/src/encoder/variance.cc b/src/encoder/variance.cc
index 89ad47d..394c2ba 100644
--- a/src/encoder/variance.cc
+++ b/src/encoder/variance.cc
@@ -81,6 +81,15 @@ uint32_t Encoder::variance( const VP8Raster::Block<size> & block,
   return res - ( ( int64_t)sum * sum ) / ( size * size );
 }
 
+/* used by the other parts of the encoder */
+template uint32_t Encoder::sad( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
+template uint32_t Encoder::sse( const VP8Raster::Block<4> &, const TwoDSubRange<uint8_t, 4, 4> & );
+template uint32_t Encoder::sse( const VP8Raster::Block<8> &, const TwoDSubRange<uint8_t, 8, 8> & );
+template uint32_t Encoder::sse( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
+template uint32_t Encoder::variance( const VP8Raster::Block<4> &, const TwoDSubRange<uint8_t, 4, 4> & );
+template uint32_t Encoder::variance( const VP8Raster::Block<8> &, const TwoDSubRange<uint8_t, 8, 8> & );
+template uint32_t Encoder::variance( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
+
 #else // SSE2 is supported
 
 #include "variance_sse2.cc"
-- 
2.43.0


From a314e9fae649a7d5efb03ed502c2d0c7f1b47883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 26/37] fix: threads do not share the decoder of zeros

---
 src/decoder/bool_decoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/bool_decoder.hh b/src/decoder/bool_decoder.hh
index b40d906..f8027b6 100644
--- a/src/decoder/bool_decoder.hh
+++ b/src/decoder/bool_decoder.hh
@@ -110,7 +110,8 @@ public:
 
   static BoolDecoder & zero_decoder()
   {
-    static BoolDecoder zd { { nullptr, 0 } };
+    /* reading from it changes it, so threads cannot share one */
+    static thread_local BoolDecoder zd { { nullptr, 0 } };
     return zd;
   }
 
-- 
2.43.0


From 1a21c25bd4edaee51a43030e52482386c15ce8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 27/37] fix: re-encoding keeps track of segmentation

---
 src/decoder/frame.hh        |  2 +-
 src/decoder/macroblock.hh   |  1 +
 src/encoder/encode_intra.cc |  9 +++++++++
 src/encoder/reencode.cc     | 26 +++++++++++++++++++++++++-
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/decoder/frame.hh b/src/decoder/frame.hh
index 7881d95..b3bc9be 100644
--- a/src/decoder/frame.hh
+++ b/src/decoder/frame.hh
@@ -63,7 +63,6 @@ class Frame
   Optional<TwoD<MacroblockType>> macroblock_headers_ {};
 
   ProbabilityArray< num_segments > calculate_mb_segment_tree_probs( void ) const;
-  SafeArray< Quantizer, num_segments > calculate_segment_quantizers( const Optional< Segmentation > & segmentation ) const;
 
   std::vector< uint8_t > serialize_first_partition( const ProbabilityTables & probability_tables ) const;
   std::vector< std::vector< uint8_t > > serialize_tokens( const ProbabilityTables & probability_tables ) const;
@@ -97,6 +96,7 @@ class Frame
                                  const bool error_concealment );
 
   void update_segmentation( SegmentationMap & mutable_segmentation_map );
+  SafeArray< Quantizer, num_segments > calculate_segment_quantizers( const Optional< Segmentation > & segmentation ) const;
 
   void parse_tokens( std::vector< Chunk > dct_partitions, const ProbabilityTables & probability_tables );
 
diff --git a/src/decoder/macroblock.hh b/src/decoder/macroblock.hh
index c43d726..e4bd843 100644
--- a/src/decoder/macroblock.hh
+++ b/src/decoder/macroblock.hh
@@ -116,6 +116,7 @@ public:
   bool inter_coded() const;
 
   Optional< Tree< uint8_t, num_segments, segment_id_tree > > & mutable_segment_id_update( void ) { return segment_id_update_; }
+  const Optional< Tree< uint8_t, num_segments, segment_id_tree > > & segment_id_update( void ) const { return segment_id_update_; }
   uint8_t segment_id() const { return segment_id_; }
 
   void serialize( BoolEncoder & encoder,
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index 265431d..2c0043c 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -43,6 +43,15 @@ void Encoder::update_decoder_state( const KeyFrame & frame )
   if ( frame.header().refresh_entropy_probs ) {
     decoder_state_.probability_tables.coeff_prob_update( frame.header() );
   }
+
+  if ( decoder_state_.segmentation.initialized() ) {
+    frame.macroblocks().forall_ij(
+      [&] ( const KeyFrameMacroblock & frame_mb, const unsigned int column, const unsigned int row )
+      {
+        decoder_state_.segmentation.get().map.at( column, row ) = frame_mb.segment_id();
+      }
+    );
+  }
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
diff --git a/src/encoder/reencode.cc b/src/encoder/reencode.cc
index f4ca8e0..711a2ae 100644
--- a/src/encoder/reencode.cc
+++ b/src/encoder/reencode.cc
@@ -31,6 +31,7 @@
 
 #include "encoder.hh"
 #include "scorer.hh"
+#include "decoder_state.hh"
 
 using namespace std;
 
@@ -271,7 +272,26 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
 
   if_header.quant_indices = quant_indices;
 
-  Quantizer quantizer( frame.header().quant_indices );
+  /* update the segmentation as the decoder will */
+  if ( if_header.update_segmentation.initialized() ) {
+    if ( decoder_state_.segmentation.initialized() ) {
+      decoder_state_.segmentation.get().update( if_header );
+    } else {
+      decoder_state_.segmentation.initialize( if_header, width(), height() );
+    }
+
+    frame.mutable_macroblocks().forall_ij(
+      [&] ( InterFrameMacroblock & frame_mb, const unsigned int column, const unsigned int row )
+      {
+        frame_mb.mutable_segment_id_update() = original_frame.macroblocks().at( column, row ).segment_id_update();
+      }
+    );
+
+    frame.update_segmentation( decoder_state_.segmentation.get().map );
+  }
+
+  const auto segment_quantizers = frame.calculate_segment_quantizers( decoder_state_.segmentation );
+  const Quantizer frame_quantizer( frame.header().quant_indices );
   MutableRasterHandle reconstructed_raster_handle { width(), height() };
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
@@ -285,6 +305,10 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
       auto & original_fmb = original_frame.macroblocks().at( mb_column, mb_row );
       auto & frame_mb = frame.mutable_macroblocks().at( mb_column, mb_row );
 
+      const Quantizer & quantizer = if_header.update_segmentation.initialized()
+                                    ? segment_quantizers.at( frame_mb.segment_id() )
+                                    : frame_quantizer;
+
       update_macroblock( original_mb.macroblock(), reconstructed_mb, temp_mb, frame_mb,
                          original_fmb, quantizer );
 
-- 
2.43.0


From aea913e02b3472625829232031f95589aecc2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 28/37] fix: sender: ignore acknowledgements of fragments that
 were never sent

They indexed the fragment counts out of bounds, or set the last acknowledged fragment beyond everything sent.
---
 src/salsify/salsify-sender.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 2ee2409..4b54966 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -664,6 +664,12 @@ int main( int argc, char *argv[] )
         return ResultType::Continue;
       }
 
+      if ( ack.frame_no() >= cumulative_fpf.size() or
+           ack_seq_no( ack, cumulative_fpf ) >= cumulative_fpf[ ack.frame_no() ] ) {
+        /* this fragment was never sent */
+        return ResultType::Continue;
+      }
+
       uint64_t this_ack_seq = ack_seq_no( ack, cumulative_fpf );
 
       if ( last_acked != numeric_limits<uint64_t>::max() and
-- 
2.43.0


From 307334cb035adfdefb79b54d94926f35d33cf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 29/37] fix: sender: no division by a reported delay of zero in
 conventional mode

---
 src/salsify/salsify-sender.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 4b54966..9dcb13e 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -451,7 +451,8 @@ int main( int argc, char *argv[] )
         /* is it time to update the quality setting? */
         if ( next_cc_update <= system_clock::now() ) {
           const size_t old_quantizer = cc_quantizer;
-          cc_rate = 1000 * 1000 * 1400 / avg_delay;
+          /* the first acknowledgement reports a delay of zero */
+          cc_rate = 1000 * 1000 * 1400 / max( 1u, avg_delay );
 
           double change_percentage = ( 1.0 * cc_rate - 1.0 * cc_rate_ewma ) /
                                      ( 1.0 * cc_rate_ewma );
-- 
2.43.0


From b7dc2fd079440ff91cc13376484ad0097c81b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 30/37] fix: camera: use the buffer that the driver hands over

---
 src/input/camera.cc | 6 ++----
 src/input/camera.hh | 1 -
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 3946cbf..2a0a50a 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -121,11 +121,11 @@ Optional<RasterHandle> Camera::get_next_frame()
   v4l2_buffer buffer_info;
   buffer_info.type = capture_type;
   buffer_info.memory = V4L2_MEMORY_MMAP;
-  buffer_info.index = next_buffer_index;
 
   SystemCall( "dequeue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_DQBUF, &buffer_info ) );
 
-  const MMap_Region * const mmap_region_ = &kernel_v4l2_buffers_.at( next_buffer_index );
+  /* the driver may hand over its buffers in any order */
+  const MMap_Region * const mmap_region_ = &kernel_v4l2_buffers_.at( buffer_info.index );
 
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
@@ -201,7 +201,5 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
 
-  next_buffer_index = (next_buffer_index + 1) % NUM_BUFFERS;
-
   return RasterHandle{ move( raster_handle ) };
 }
diff --git a/src/input/camera.hh b/src/input/camera.hh
index cf9ec1d..22bdece 100644
--- a/src/input/camera.hh
+++ b/src/input/camera.hh
@@ -57,7 +57,6 @@ private:
 
   FileDescriptor camera_fd_;
   std::vector<MMap_Region> kernel_v4l2_buffers_;
-  unsigned int next_buffer_index = 0;
 
   uint32_t pixel_format_;
 
-- 
2.43.0


From 1398f070bc7c829b09b695ca5054dc43dc1ef602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 31/37] fix: camera: pictures whose width is not a multiple of
 16 are not sheared, and are extended to the raster's edges

---
 src/input/camera.cc      | 64 ++++++++++++++++++++--------------------
 src/input/frame_input.hh |  3 ++
 src/input/jpeg.cc        |  4 ++-
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 2a0a50a..f2c1569 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -113,6 +113,14 @@ Camera::~Camera()
   SystemCall( "stream off", ioctl( camera_fd_.fd_num(), VIDIOC_STREAMOFF, &capture_type ) );
 }
 
+/* the raster's rows can be longer than the picture's */
+static void copy_plane( TwoD<uint8_t> & dst, const uint8_t * src, const size_t width, const size_t height )
+{
+  for ( size_t row = 0; row < height; row++ ) {
+    memcpy( &dst.at( 0, row ), src + row * width, width );
+  }
+}
+
 Optional<RasterHandle> Camera::get_next_frame()
 {
   MutableRasterHandle raster_handle { width_, height_ };
@@ -130,45 +138,35 @@ Optional<RasterHandle> Camera::get_next_frame()
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
     {
-    uint8_t * src = mmap_region_->addr();
-    uint8_t * dst_y_start  = &raster.Y().at( 0, 0 );
-    uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-    uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
-
-    const size_t y_plane_lenght = width_ * height_;
-
-    for ( size_t i = 0; i < y_plane_lenght; i++ ) {
-      dst_y_start[ i ] = src[ i << 1 ];
-    }
-
-    size_t i = 0;
+      const uint8_t * src = mmap_region_->addr();
 
-    for ( size_t row = 0; row < height_; row++ ) {
-      if ( row % 2 == 1 ) { continue; }
+      for ( size_t row = 0; row < height_; row++ ) {
+        for ( size_t column = 0; column < width_; column++ ) {
+          raster.Y().at( column, row ) = src[ ( row * width_ + column ) * 2 ];
+        }
+      }
 
-      for ( size_t column = 0; column < width_ / 2; column++ ) {
-        dst_cb_start[ i ] = src[ row * width_ * 2 + column * 4 + 1 ];
-        dst_cr_start[ i ] = src[ row * width_ * 2 + column * 4 + 3 ];
-        i++;
+      for ( size_t row = 0; row < height_; row += 2 ) {
+        for ( size_t column = 0; column < width_ / 2; column++ ) {
+          raster.U().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 1 ];
+          raster.V().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 3 ];
+        }
       }
     }
-  }
 
-  break;
+    break;
 
   case V4L2_PIX_FMT_NV12:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-
-      uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
-      uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-      uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
+      copy_plane( raster.Y(), mmap_region_->addr(), width_, height_ );
 
-      size_t chroma_length = width_ * height_ / 4;
+      const uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
 
-      for ( size_t i = 0; i < chroma_length; i++ ) {
-        dst_cb_start[ i ] = src_chroma_start[ 2 * i ];
-        dst_cr_start[ i ] = src_chroma_start[ 2 * i + 1 ];
+      for ( size_t row = 0; row < height_ / 2; row++ ) {
+        for ( size_t column = 0; column < width_ / 2; column++ ) {
+          raster.U().at( column, row ) = src_chroma_start[ row * width_ + column * 2 ];
+          raster.V().at( column, row ) = src_chroma_start[ row * width_ + column * 2 + 1 ];
+        }
       }
     }
 
@@ -176,9 +174,9 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   case V4L2_PIX_FMT_YUV420:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-      memcpy( &raster.U().at( 0, 0 ), mmap_region_->addr() + width_ * height_, width_ * height_ / 4 );
-      memcpy( &raster.V().at( 0, 0 ), mmap_region_->addr() + width_ * height_ * 5 / 4, width_ * height_ / 4 );
+      copy_plane( raster.Y(), mmap_region_->addr(), width_, height_ );
+      copy_plane( raster.U(), mmap_region_->addr() + width_ * height_, width_ / 2, height_ / 2 );
+      copy_plane( raster.V(), mmap_region_->addr() + width_ * height_ * 5 / 4, width_ / 2, height_ / 2 );
     }
 
     break;
@@ -201,5 +199,7 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
 
+  edge_extend( raster );
+
   return RasterHandle{ move( raster_handle ) };
 }
diff --git a/src/input/frame_input.hh b/src/input/frame_input.hh
index 992efa1..ca75b9e 100644
--- a/src/input/frame_input.hh
+++ b/src/input/frame_input.hh
@@ -41,4 +41,7 @@ public:
   virtual ~FrameInput() = default;
 };
 
+/* repeats the last column and row of the picture up to the raster's edges */
+void edge_extend( BaseRaster & raster );
+
 #endif /* FRAME_INPUT_HH */
diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 9ceff65..78c40e9 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -139,7 +139,9 @@ void JPEGDecompresser::decode( BaseRaster & r )
 
   jpeg_finish_decompress( &decompresser_ );
 
-  memcpy( &r.Y().at( 0, 0 ), &Y_.get().at( 0, 0 ), width() * height() );
+  for ( size_t row = 0; row < height(); row++ ) {
+    memcpy( &r.Y().at( 0, row ), &Y_.get().at( 0, row ), width() );
+  }
 
   for ( size_t row = 0; row < height() / 2; row++ ) {
     for ( size_t column = 0; column < width() / 2; column++ ) {
-- 
2.43.0


From 612fe9aed5fc897eba73310074387d8dcef871ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 32/37] fix: camera: a picture that is skipped or refused costs
 no buffer and is not handed on undefined

---
 src/input/camera.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index f2c1569..7230f60 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -184,14 +184,22 @@ Optional<RasterHandle> Camera::get_next_frame()
   case V4L2_PIX_FMT_MJPEG:
     {
       if ( jpegdec_.initialized() ) {
-        jpegdec_.get().begin_decoding( { mmap_region_->addr(), buffer_info.bytesused } );
-        if ( jpegdec_.get().width() != width_ or jpegdec_.get().height() != height_ ) {
-          throw runtime_error( "size mismatch" );
+        try {
+          jpegdec_.get().begin_decoding( { mmap_region_->addr(), buffer_info.bytesused } );
+          if ( jpegdec_.get().width() != width_ or jpegdec_.get().height() != height_ ) {
+            throw runtime_error( "size mismatch" );
+          }
+          jpegdec_.get().decode( raster );
+        } catch ( const exception & ) {
+          /* the driver needs its buffer for the next pictures */
+          SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
+          throw;
         }
-        jpegdec_.get().decode( raster );
       } else {
         jpegdec_.initialize();
         /* ignore first frame as can contain invalid JPEG data */
+        SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
+        return get_next_frame();
       }
     }
     break;
-- 
2.43.0


From ad440143b6190d45c94ef96d7fdb484d2194b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 33/37] fix: JPEG: pictures of any size fit the buffers, which
 are allocated once the size was checked

---
 src/input/jpeg.cc | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 78c40e9..7f2824a 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -84,27 +84,6 @@ void JPEGDecompresser::begin_decoding( const Chunk & chunk )
        or decompresser_.comp_info[ 2 ].v_samp_factor != 1 ) {
     throw runtime_error( "not 4:2:2" );
   }
-
-  if ( Y_.initialized() ) {
-    if ( Y_.get().height() != height()
-         or U_.get().height() != height()
-         or V_.get().height() != height()
-         or Y_.get().width() != width()
-         or U_.get().width() != width() / 2
-         or V_.get().width() != width() / 2 ) {
-      throw runtime_error( "JPEG size changed" );
-    }
-  } else {
-    Y_.initialize( width(), height() );
-    U_.initialize( width() / 2, height() );
-    V_.initialize( width() / 2, height() );
-
-    for ( unsigned int i = 0; i < height(); i++ ) {
-      Y_rows.emplace_back( &Y_.get().at( 0, i ) );
-      U_rows.emplace_back( &U_.get().at( 0, i ) );
-      V_rows.emplace_back( &V_.get().at( 0, i ) );
-    }
-  }
 }
 
 unsigned int JPEGDecompresser::width() const
@@ -123,6 +102,24 @@ void JPEGDecompresser::decode( BaseRaster & r )
     throw runtime_error( "size mismatch" );
   }
 
+  /* the decompressor writes whole blocks */
+  const unsigned int padded_width = ( width() + 2 * DCTSIZE - 1 ) / ( 2 * DCTSIZE ) * ( 2 * DCTSIZE );
+  const unsigned int padded_height = ( height() + DCTSIZE - 1 ) / DCTSIZE * DCTSIZE;
+
+  if ( not Y_.initialized() ) {
+    Y_.initialize( padded_width, padded_height );
+    U_.initialize( padded_width / 2, padded_height );
+    V_.initialize( padded_width / 2, padded_height );
+
+    for ( unsigned int i = 0; i < padded_height; i++ ) {
+      Y_rows.emplace_back( &Y_.get().at( 0, i ) );
+      U_rows.emplace_back( &U_.get().at( 0, i ) );
+      V_rows.emplace_back( &V_.get().at( 0, i ) );
+    }
+  } else if ( Y_.get().width() != padded_width or Y_.get().height() != padded_height ) {
+    throw runtime_error( "JPEG size changed" );
+  }
+
   jpeg_start_decompress( &decompresser_ );
 
   while ( decompresser_.output_scanline < decompresser_.output_height ) {
@@ -130,7 +127,7 @@ void JPEGDecompresser::decode( BaseRaster & r )
         &U_rows.at( decompresser_.output_scanline ),
         &V_rows.at( decompresser_.output_scanline ) };
 
-    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), height() );
+    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), DCTSIZE );
 
     if ( decoded != DCTSIZE ) {
       throw runtime_error( "jpeg_read_raw_data returned short read" );
-- 
2.43.0


From 3b20fcac5daa0e35b6282fb155cfd215c7fc828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 34/37] fix: JPEG: a picture that is refused does not prevent
 the next one from being decoded

---
 src/input/jpeg.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 7f2824a..e16559b 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -56,6 +56,9 @@ void JPEGDecompresser::error( const j_common_ptr cinfo )
 
 void JPEGDecompresser::begin_decoding( const Chunk & chunk )
 {
+  /* the previous picture may have been given up halfway */
+  jpeg_abort_decompress( &decompresser_ );
+
   /* older versions of libjpeg did not use a const pointer
      in jpeg_mem_src's buffer argument */
   jpeg_mem_src( &decompresser_,
-- 
2.43.0


From 03b85477ef57518a92e6bc8b069e654b7e96f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 35/37] fix: addresses that begin like mapped IPv4 addresses
 can be printed

---
 src/net/address.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/net/address.cc b/src/net/address.cc
index 5494884..6b15888 100644
--- a/src/net/address.cc
+++ b/src/net/address.cc
@@ -142,9 +142,12 @@ pair<string, uint16_t> Address::ip_port( void ) const
   if ( ip_string.size() > 7
        and ip_string.substr( 0, 7 ) == "::ffff:" ) {
     const string candidate_ipv4 = ip_string.substr( 7 );
-    Address candidate_addr( candidate_ipv4, stoi( port ) );
-    if ( candidate_addr == *this ) {
-      ip_string = candidate_ipv4;
+    /* other addresses can begin in the same way (::ffff:0:1:2) */
+    if ( candidate_ipv4.find( ':' ) == string::npos ) {
+      Address candidate_addr( candidate_ipv4, stoi( port ) );
+      if ( candidate_addr == *this ) {
+        ip_string = candidate_ipv4;
+      }
     }
   }
 
-- 
2.43.0


From 2dc79e26b9a0a65d96c9c9c494de6680430f039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 36/37] fix: an address without contents equals no other

---
 src/net/address.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/address.cc b/src/net/address.cc
index 6b15888..1b32fa5 100644
--- a/src/net/address.cc
+++ b/src/net/address.cc
@@ -168,5 +168,5 @@ const sockaddr & Address::to_sockaddr( void ) const
 /* equality */
 bool Address::operator==( const Address & other ) const
 {
-  return 0 == memcmp( &addr_, &other.addr_, size_ );
+  return size_ == other.size_ and 0 == memcmp( &addr_, &other.addr_, size_ );
 }
-- 
2.43.0


From 297c452586afaf60e9fc1c605b3e31664395241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 37/37] fix: remove the residue of macroblocks in frames that
 do not signal skipping

---
 src/encoder/encoder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 8901259..3216d96 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -677,7 +677,9 @@ void Macroblock<FrameHeaderType, MacroblockHeaderType>::zero_out()
       block.zero_out();
     } );
 
-  mb_skip_coeff_.reset( true );
+  if ( mb_skip_coeff_.initialized() ) {
+    mb_skip_coeff_.reset( true );
+  }
 }
 
 
-- 
2.43.0

