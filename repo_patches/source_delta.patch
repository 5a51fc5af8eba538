From 59366fefe355187481a9b15455d9c3723675806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 01/14] fix: Chunk::bits computed wide bit fields in int
 arithmetic

---
 src/util/chunk.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..e0a0d32 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( uint64_t( 1 ) << n ) - 1;
   }
 
 public:
@@ -133,7 +133,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= static_cast<uint64_t>( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From b6694e9b361ca20f2a4f7d1e6b34f1e50de55d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 02/14] fix: Chunk sub-view bounds check could be defeated by
 offset + length wrapping

---
 src/util/chunk.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index e0a0d32..585aded 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) {
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
-- 
2.43.0


From 0769953a0c215f81ec1256696cf1f19b89129ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:46 +0000
Subject: [PATCH 03/14] fix: clamp the quantizer index of a segment instead of
 letting it wrap around

---
 src/decoder/frame.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..e83e1d6 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -193,10 +193,13 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int16_t segment_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
-            ? static_cast<Unsigned<7>>( 0 )
-            : segment_indices.y_ac_qi );
+            ? 0
+            : static_cast<uint8_t>( segment_indices.y_ac_qi ) );
+
+      /* don't let a negative index wrap around to a large one */
+      segment_indices.y_ac_qi = segment_qi < 0 ? 0 : ( segment_qi > 127 ? 127 : segment_qi );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From 99b71d1993c69aef4415afd88a8ce57ae57a1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:08 +0000
Subject: [PATCH 04/14] fix: limit a segment's loop-filter level before
 reference and mode adjustments are added

---
 src/decoder/frame.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index e83e1d6..3ff1752 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -161,6 +161,13 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
               ? 0
               : segment_filter.filter_level );
 
+        /* the level of a segment is limited before any reference or mode adjustment is added */
+        if ( segment_filter.filter_level < 0 ) {
+          segment_filter.filter_level = 0;
+        } else if ( segment_filter.filter_level > 63 ) {
+          segment_filter.filter_level = 63;
+        }
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From f14fb2562b1834d49a50307e46a5bac3778916d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 05/14] fix: the decoder fingerprint ignored the mode-based
 loop-filter adjustments

---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 2ab24ddf30d94d6db6c614a1ce6f39023910c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:39 +0000
Subject: [PATCH 06/14] fix: the sum of four luma motion vectors does not fit
 16 bits when deriving a chroma vector

---
 src/decoder/macroblock.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..268ca5a 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -291,8 +291,8 @@ MotionVector MotionVector::luma_to_chroma( const MotionVector & s1,
                                            const MotionVector & s3,
                                            const MotionVector & s4 )
 {
-  const int16_t x = s1.x() + s2.x() + s3.x() + s4.x();
-  const int16_t y = s1.y() + s2.y() + s3.y() + s4.y();
+  const int x = s1.x() + s2.x() + s3.x() + s4.x();
+  const int y = s1.y() + s2.y() + s3.y() + s4.y();
 
   return MotionVector( x >= 0 ?  (x + 4) >> 3 : -((-x + 4) >> 3),
                        y >= 0 ?  (y + 4) >> 3 : -((-y + 4) >> 3) );
-- 
2.43.0


From 95cd2dfba84f8198f9f9bb0e2b113840e592e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 07/14] fix: write all eight bytes of a 64-bit header field

---
 src/net/packet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..e63af99 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
-- 
2.43.0


From 5a3a64d9cea6a3667889e5f2b5e5122cdd40109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 08/14] fix: check an acknowledgement's state count before
 allocating for it

---
 src/net/packet.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index e63af99..191a1f0 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -302,10 +302,14 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  /* the number of states comes from the network: make sure they are all there first */
+  const uint64_t state_count = str( 16, 4 ).le32();
+  const Chunk states = str( 20, state_count * 4 );
+
+  for ( uint64_t i = 0; i < state_count; i++ ) {
+    complete_states_.push_back( states( i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From 264ba759fe2ee30d1e53c482b9326eb3bad8b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:24 +0000
Subject: [PATCH 09/14] fix: size SafeRaster for whole macroblocks

copy_raster() copies planes padded to macroblocks, but the buffer was
sized for the display rectangle: with a width that is not a multiple of
16, the last row was written past the end of the buffer.
---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From d1c36e29db1db35db052134ae059ec59bf089ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 10/14] fix: the position of an IVF frame wrapped for lengths
 of 4 GB

frame_header_len + frame_len was computed in 32 bits, so a frame length
of 2^32 - 12 or more made the index resume inside the frame instead of
reporting a truncated file.
---
 src/util/ivf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 171769e..acaea21 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -67,7 +67,7 @@ try :
           const uint32_t frame_len = frame_header.le32();
 
           frame_index_.emplace_back( position + frame_header_len, frame_len );
-          position += frame_header_len + frame_len;
+          position += uint64_t( frame_header_len ) + frame_len;
         }
       }
 catch ( const out_of_range & e )
-- 
2.43.0


From b6a81dd923f2629d46c1af4b59691805f27e7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 11/14] fix: do not allocate for more IVF frames than the file
 can hold

The frame count of the header was trusted: a 32-byte file could demand a
64 GB index, and fail with bad_alloc instead of Invalid.
---
 src/util/ivf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index acaea21..5790957 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -26,6 +26,7 @@
    (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
    OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE. */
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "ivf.hh"
@@ -59,7 +60,7 @@ try :
         }
 
         /* build the index */
-        frame_index_.reserve( frame_count_ );
+        frame_index_.reserve( min<uint64_t>( frame_count_, file_.size() / frame_header_len ) );
 
         uint64_t position = supported_header_len;
         for ( uint32_t i = 0; i < frame_count_; i++ ) {
-- 
2.43.0


From aa40150e793cd615518a54b901a7849056f07a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 12/14] fix: code a frame with the tables its decoder will use

A frame with refresh_entropy_probs off is decoded with the saved tables
plus the updates its own header carries; write_frame coded its tokens
with the saved tables alone, so the frame could not be decoded.
---
 src/encoder/encode_inter.cc |  9 +++++++--
 src/encoder/encode_intra.cc |  9 +++++++--
 src/encoder/encoder.cc      | 13 +++----------
 src/encoder/encoder.hh      |  8 +++-----
 4 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..a54ec47 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -152,10 +152,13 @@ static const array<int, 128> sad_per_bit16lut = {
 };
 
 template<>
-void Encoder::update_decoder_state( const InterFrame & frame )
+ProbabilityTables Encoder::update_decoder_state( const InterFrame & frame )
 {
+  ProbabilityTables frame_tables { decoder_state_.probability_tables };
+  frame_tables.update( frame.header() );
+
   if ( frame.header().refresh_entropy_probs ) {
-    decoder_state_.probability_tables.update( frame.header() );
+    decoder_state_.probability_tables = frame_tables;
   }
 
   if ( frame.header().mode_lf_adjustments.initialized() ) {
@@ -167,6 +170,8 @@ void Encoder::update_decoder_state( const InterFrame & frame )
   } else {
     decoder_state_.filter_adjustments.clear();
   }
+
+  return frame_tables;
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index f39b785..8195dc5 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -34,15 +34,20 @@
 using namespace std;
 
 template<>
-void Encoder::update_decoder_state( const KeyFrame & frame )
+ProbabilityTables Encoder::update_decoder_state( const KeyFrame & frame )
 {
   // this is a keyframe! reset the decoder state
   decoder_state_ = DecoderState( frame.header(), width(), height() );
   references_ = References( width(), height() );
 
+  ProbabilityTables frame_tables { decoder_state_.probability_tables };
+  frame_tables.coeff_prob_update( frame.header() );
+
   if ( frame.header().refresh_entropy_probs ) {
-    decoder_state_.probability_tables.coeff_prob_update( frame.header() );
+    decoder_state_.probability_tables = frame_tables;
   }
+
+  return frame_tables;
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..47c92e5 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -144,11 +144,10 @@ uint32_t Encoder::minihash() const
 }
 
 template<class FrameType>
-vector<uint8_t> Encoder::write_frame( const FrameType & frame,
-                                      const ProbabilityTables & prob_tables )
+vector<uint8_t> Encoder::write_frame( const FrameType & frame )
 {
   // update the state
-  update_decoder_state( frame );
+  const ProbabilityTables frame_tables = update_decoder_state( frame );
 
   // update the references
   MutableRasterHandle raster { width(), height() };
@@ -166,13 +165,7 @@ vector<uint8_t> Encoder::write_frame( const FrameType & frame,
     last_y_ac_qi_.reset( frame.header().quant_indices.y_ac_qi );
   }
 
-  return frame.serialize( prob_tables );
-}
-
-template<class FrameType>
-vector<uint8_t> Encoder::write_frame( const FrameType & frame )
-{
-  return write_frame( frame, decoder_state_.probability_tables );
+  return frame.serialize( frame_tables );
 }
 
 void Encoder::update_rd_multipliers( const Quantizer & quantizer )
diff --git a/src/encoder/encoder.hh b/src/encoder/encoder.hh
index 3734c7b..8fed84b 100644
--- a/src/encoder/encoder.hh
+++ b/src/encoder/encoder.hh
@@ -301,10 +301,6 @@ private:
   template<class FrameType>
   std::vector<uint8_t> write_frame( const FrameType & frame );
 
-  template<class FrameType>
-  std::vector<uint8_t> write_frame( const FrameType & frame, const ProbabilityTables & prob_tables );
-
-
   /* Encoded frame size estimation */
   template<class FrameType>
   size_t estimate_size( const VP8Raster & raster, const size_t y_ac_qi );
@@ -327,8 +323,10 @@ private:
                           const InterFrameMacroblock & original_fmb,
                           const Quantizer & quantizer );
 
+  /* returns the tables the frame has to be coded with, which are not kept
+   * for the next frames if refresh_entropy_probs is off */
   template<class FrameType>
-  void update_decoder_state( const FrameType & frame );
+  ProbabilityTables update_decoder_state( const FrameType & frame );
 
   template<class FrameType>
   std::pair<FrameType &, double> encode_raster( const VP8Raster & raster,
-- 
2.43.0


From 3a4ebc378c59c09d10ed59ed3a7789cf56b18526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 13/14] fix: the encoder kept a segmentation its decoder drops

The decoder ends segmentation with an interframe that does not enable
it; the encoder, having taken over the state of a segmented stream,
went on reconstructing and filtering with it.
---
 src/encoder/encode_inter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index a54ec47..84d659a 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -171,6 +171,10 @@ ProbabilityTables Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.filter_adjustments.clear();
   }
 
+  if ( not frame.header().update_segmentation.initialized() ) {
+    decoder_state_.segmentation.clear();
+  }
+
   return frame_tables;
 }
 
-- 
2.43.0


From 2aa8a0454ebe83c8e65563d02a243cd75652b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 14/14] Revert "fix: code a frame with the tables its decoder
 will use"

There was no defect: Frame::serialize applies the updates of the frame's
own header to the tables it is given.
---
 src/encoder/encode_inter.cc |  9 ++-------
 src/encoder/encode_intra.cc |  9 ++-------
 src/encoder/encoder.cc      | 13 ++++++++++---
 src/encoder/encoder.hh      |  8 +++++---
 4 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index 84d659a..762c1ab 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -152,13 +152,10 @@ static const array<int, 128> sad_per_bit16lut = {
 };
 
 template<>
-ProbabilityTables Encoder::update_decoder_state( const InterFrame & frame )
+void Encoder::update_decoder_state( const InterFrame & frame )
 {
-  ProbabilityTables frame_tables { decoder_state_.probability_tables };
-  frame_tables.update( frame.header() );
-
   if ( frame.header().refresh_entropy_probs ) {
-    decoder_state_.probability_tables = frame_tables;
+    decoder_state_.probability_tables.update( frame.header() );
   }
 
   if ( frame.header().mode_lf_adjustments.initialized() ) {
@@ -174,8 +171,6 @@ ProbabilityTables Encoder::update_decoder_state( const InterFrame & frame )
   if ( not frame.header().update_segmentation.initialized() ) {
     decoder_state_.segmentation.clear();
   }
-
-  return frame_tables;
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index 8195dc5..f39b785 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -34,20 +34,15 @@
 using namespace std;
 
 template<>
-ProbabilityTables Encoder::update_decoder_state( const KeyFrame & frame )
+void Encoder::update_decoder_state( const KeyFrame & frame )
 {
   // this is a keyframe! reset the decoder state
   decoder_state_ = DecoderState( frame.header(), width(), height() );
   references_ = References( width(), height() );
 
-  ProbabilityTables frame_tables { decoder_state_.probability_tables };
-  frame_tables.coeff_prob_update( frame.header() );
-
   if ( frame.header().refresh_entropy_probs ) {
-    decoder_state_.probability_tables = frame_tables;
+    decoder_state_.probability_tables.coeff_prob_update( frame.header() );
   }
-
-  return frame_tables;
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 47c92e5..99acd88 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -144,10 +144,11 @@ uint32_t Encoder::minihash() const
 }
 
 template<class FrameType>
-vector<uint8_t> Encoder::write_frame( const FrameType & frame )
+vector<uint8_t> Encoder::write_frame( const FrameType & frame,
+                                      const ProbabilityTables & prob_tables )
 {
   // update the state
-  const ProbabilityTables frame_tables = update_decoder_state( frame );
+  update_decoder_state( frame );
 
   // update the references
   MutableRasterHandle raster { width(), height() };
@@ -165,7 +166,13 @@ vector<uint8_t> Encoder::write_frame( const FrameType & frame )
     last_y_ac_qi_.reset( frame.header().quant_indices.y_ac_qi );
   }
 
-  return frame.serialize( frame_tables );
+  return frame.serialize( prob_tables );
+}
+
+template<class FrameType>
+vector<uint8_t> Encoder::write_frame( const FrameType & frame )
+{
+  return write_frame( frame, decoder_state_.probability_tables );
 }
 
 void Encoder::update_rd_multipliers( const Quantizer & quantizer )
diff --git a/src/encoder/encoder.hh b/src/encoder/encoder.hh
index 8fed84b..3734c7b 100644
--- a/src/encoder/encoder.hh
+++ b/src/encoder/encoder.hh
@@ -301,6 +301,10 @@ private:
   template<class FrameType>
   std::vector<uint8_t> write_frame( const FrameType & frame );
 
+  template<class FrameType>
+  std::vector<uint8_t> write_frame( const FrameType & frame, const ProbabilityTables & prob_tables );
+
+
   /* Encoded frame size estimation */
   template<class FrameType>
   size_t estimate_size( const VP8Raster & raster, const size_t y_ac_qi );
@@ -323,10 +327,8 @@ private:
                           const InterFrameMacroblock & original_fmb,
                           const Quantizer & quantizer );
 
-  /* returns the tables the frame has to be coded with, which are not kept
-   * for the next frames if refresh_entropy_probs is off */
   template<class FrameType>
-  ProbabilityTables update_decoder_state( const FrameType & frame );
+  void update_decoder_state( const FrameType & frame );
 
   template<class FrameType>
   std::pair<FrameType &, double> encode_raster( const VP8Raster & raster,
-- 
2.43.0

