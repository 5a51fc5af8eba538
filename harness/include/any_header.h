/* Headers with every field arbitrary. */
#ifndef ANY_HEADER_H
#define ANY_HEADER_H
#include "vp.h"
#include "ghost_coder.h"
#include "frame_header.hh"
// ------------------------------------------------------------ arbitrary field values
template <unsigned w> static void any( Unsigned<w> & x, const char * n, const unsigned i ) { x.i_ = vp_u8( n, i ) & ( ( 1 << w ) - 1 ); }
template <unsigned w> static void any( Signed<w> & x, const char * n, const unsigned i )
{
  const uint8_t v = vp_u8( n, i );
  const int8_t m = v & ( ( 1 << w ) - 1 );
  x.i_ = ( v & 128 ) ? -m : m;
}
static void any( Boolean & x, const char * n, const unsigned i = 0 ) { x.i_ = vp_bool( n, i ); }
template <class T> static void any( Flagged<T> & x, const char * n, const char * flag, const unsigned i )
{
  x.initialized_ = vp_bool( flag, i );
  any( x.object_, n, i );
}
template <class T> static void any( Flagged<T> & x, const char * n, const unsigned i ) { any( x, n, "present", 256 * (uint8_t) n[ 0 ] + 1 + i ); }
template <class T, unsigned len> static void any( Array<T, len> & a, const char * n, const unsigned )
{
  for ( unsigned i = 0; i < len; i++ ) { any( a.at( i ), n, 1 + i ); }
}
// object of a presently absent optional, whose presence flag is then arbitrary
template <class T> static T & open( Optional<T> & o, T && v, const bool present )
{
  if ( not o.initialized_ ) { new ( &o.object_ ) T( std::move( v ) ); }
  o.initialized_ = present;
  return o.object_;
}

template <class H> static void any_common( H & h )
{
  UpdateSegmentation & us = open( h.update_segmentation, UpdateSegmentation(), vp_bool( "segmentation_enabled" ) );
  any( us.update_mb_segmentation_map, "update_map" );
  SegmentFeatureData & fd = open( us.segment_feature_data, SegmentFeatureData(), vp_bool( "update_features" ) );
  any( fd.segment_feature_mode, "absolute" );
  any( fd.quantizer_update, "quantizer", 0 );
  any( fd.loop_filter_update, "filter", 0 );
  Array<Flagged<Unsigned<8>>, 3> & map = open( us.mb_segmentation_map, Array<Flagged<Unsigned<8>>, 3>(), us.update_mb_segmentation_map );
  any( map, "treeprob", 0 );
  any( h.filter_type, "filter_type" );
  any( h.loop_filter_level, "loop_filter_level", 0 );
  any( h.sharpness_level, "sharpness", 0 );
  auto & adj = open( h.mode_lf_adjustments, Flagged<ModeRefLFDeltaUpdate>(), vp_bool( "lf_adj" ) );
  ModeRefLFDeltaUpdate & upd = open( adj, ModeRefLFDeltaUpdate(), vp_bool( "lf_adj_update" ) );
  any( upd.ref_update, "ref", 0 );
  any( upd.mode_update, "mode", 0 );
  any( h.log2_number_of_dct_partitions, "log2_parts", 0 );
  any( h.quant_indices.y_ac_qi, "y_ac_qi", 0 );
  any( h.quant_indices.y_dc, "y_dc", "y_dc_flag", 0 );
  any( h.quant_indices.y2_dc, "y2_dc", "y2_dc_flag", 0 );
  any( h.quant_indices.y2_ac, "y2_ac", "y2_ac_flag", 0 );
  any( h.quant_indices.uv_dc, "uv_dc", "uv_dc_flag", 0 );
  any( h.quant_indices.uv_ac, "uv_ac", "uv_ac_flag", 0 );
  any( h.refresh_entropy_probs, "refresh_entropy" );
  any( h.prob_skip_false, "prob_skip", "prob_skip_flag", 0 );
  h.filter_type.i_ = false; // the simple filter is not supported
}

// token probability updates from..to are arbitrary
template <class H> static void tokens( H & h, const unsigned from, const unsigned to )
{
  unsigned n = 0;
  for ( unsigned i = 0; i < 4; i++ ) for ( unsigned j = 0; j < 8; j++ ) for ( unsigned k = 0; k < 3; k++ ) for ( unsigned l = 0; l < 11; l++, n++ ) {
    Flagged<Unsigned<8>> & f = h.token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob;
    if ( n >= from and n < to ) {
      f.initialized_ = vp_bool( "token_flag", n );
      f.object_.i_ = vp_u8( "token_prob", n );
    } else {
      f.initialized_ = n % 3 == 0;
      f.object_.i_ = 7 * n;
    }
  }
}

static KeyFrameHeader & some_key_header()
{
  KeyFrameHeader & h = *new KeyFrameHeader( ghost_zeros() );
  any_common( h );
  tokens( h, 0, 1056 );
  return h;
}
static InterFrameHeader & some_inter_header()
{
  InterFrameHeader & h = *new InterFrameHeader( ghost_zeros() );
  any_common( h );
  tokens( h, 0, 1056 );
  any( h.refresh_golden_frame, "refresh_golden" );
  any( h.refresh_alternate_frame, "refresh_alternate" );
  any( open( h.copy_buffer_to_golden, Unsigned<2>(), not h.refresh_golden_frame ), "copy_golden", 0 );
  any( open( h.copy_buffer_to_alternate, Unsigned<2>(), not h.refresh_alternate_frame ), "copy_alternate", 0 );
  any( h.sign_bias_golden, "bias_golden" );
  any( h.sign_bias_alternate, "bias_alternate" );
  any( h.refresh_last, "refresh_last" );
  any( h.prob_inter, "prob_inter", 0 );
  any( h.prob_references_last, "prob_last", 0 );
  any( h.prob_references_golden, "prob_golden", 0 );
  any( open( h.intra_16x16_prob, Array<Unsigned<8>, 4>(), vp_bool( "y_modes" ) ), "y_mode_prob", 0 );
  any( open( h.intra_chroma_prob, Array<Unsigned<8>, 3>(), vp_bool( "uv_modes" ) ), "uv_mode_prob", 0 );
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < 19; j++ ) {
    any( h.mv_prob_update.at( i ).at( j ).mv_prob, "mv_prob", "mv_flag", 19 * i + j );
  }
  return h;
}
#endif
