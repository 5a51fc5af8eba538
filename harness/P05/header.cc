// Frame headers: what the serializer writes, the parser reads back, and both
// follow the field order, widths and probabilities of RFC 6386 (9.2-9.11, 19.2).
#include "vp.h"
#include "vp_vec.h"
#include "ghost_coder.h"
#include "rfc_tables.h"
#include "serializer.cc"
#include "any_header.h"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/encoder
//@ replace: BoolEncoder::put\(.*\) => ghost_put
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ trusted: BoolEncoder::put / BoolDecoder::get are used through their contract, which is what P01 proves

// ------------------------------------------------------------ RFC 6386 reader
struct Rfc
{
  BoolDecoder & d;
  bool B( const uint8_t p ) { return d.get( p ); }
  bool flag() { return B( 128 ); }
  unsigned L( const unsigned n ) { unsigned v = 0; for ( unsigned i = 0; i < n; i++ ) { v = ( v << 1 ) | ( flag() ? 1 : 0 ); } return v; }
  int S( const unsigned n ) { const int m = L( n ); return flag() ? -m : m; }
};
static const char * const FIELD = "each field is coded where, and as wide as, the format says";
#define FIELD_IS( a, b ) ENSURES( ( a ) == ( b ), "each field is coded where, and as wide as, the format says" )

template <unsigned w> static void rfc( Rfc & r, const Unsigned<w> & x ) { FIELD_IS( r.L( w ), x.i_ ); }
template <unsigned w> static void rfc( Rfc & r, const Signed<w> & x ) { FIELD_IS( r.S( w ), x.i_ ); }
static void rfc( Rfc & r, const Boolean & x ) { FIELD_IS( r.flag(), x.i_ ); }
template <class T> static void rfc( Rfc & r, const Flagged<T> & x, const uint8_t p = 128 )
{
  const bool f = r.B( p );
  FIELD_IS( f, x.initialized_ );
  if ( f ) { rfc( r, x.object_ ); }
}
template <class H> static void rfc_first( Rfc & r, const H & h )
{
  if ( r.flag() ) {
    FIELD_IS( h.update_segmentation.initialized_, true );
    const UpdateSegmentation & us = h.update_segmentation.object_;
    const bool map = r.flag();
    FIELD_IS( map, us.update_mb_segmentation_map.i_ );
    const bool feat = r.flag();
    FIELD_IS( feat, us.segment_feature_data.initialized_ );
    if ( feat ) {
      rfc( r, us.segment_feature_data.object_.segment_feature_mode );
      for ( unsigned i = 0; i < 4; i++ ) { rfc( r, us.segment_feature_data.object_.quantizer_update.at( i ) ); }
      for ( unsigned i = 0; i < 4; i++ ) { rfc( r, us.segment_feature_data.object_.loop_filter_update.at( i ) ); }
    }
    if ( map ) {
      for ( unsigned i = 0; i < 3; i++ ) { rfc( r, us.mb_segmentation_map.object_.at( i ) ); }
    }
  } else {
    FIELD_IS( h.update_segmentation.initialized_, false );
  }
  rfc( r, h.filter_type );
  rfc( r, h.loop_filter_level );
  rfc( r, h.sharpness_level );
  const bool adj = r.flag();
  FIELD_IS( adj, h.mode_lf_adjustments.initialized_ );
  if ( adj ) {
    const bool upd = r.flag();
    FIELD_IS( upd, h.mode_lf_adjustments.object_.initialized_ );
    if ( upd ) {
      for ( unsigned i = 0; i < 4; i++ ) { rfc( r, h.mode_lf_adjustments.object_.object_.ref_update.at( i ) ); }
      for ( unsigned i = 0; i < 4; i++ ) { rfc( r, h.mode_lf_adjustments.object_.object_.mode_update.at( i ) ); }
    }
  }
  rfc( r, h.log2_number_of_dct_partitions );
  rfc( r, h.quant_indices.y_ac_qi );
  rfc( r, h.quant_indices.y_dc );
  rfc( r, h.quant_indices.y2_dc );
  rfc( r, h.quant_indices.y2_ac );
  rfc( r, h.quant_indices.uv_dc );
  rfc( r, h.quant_indices.uv_ac );
}
template <class H> static void rfc_tokens( Rfc & r, const H & h )
{
  unsigned n = 0;
  for ( unsigned i = 0; i < 4; i++ ) for ( unsigned j = 0; j < 8; j++ ) for ( unsigned k = 0; k < 3; k++ ) for ( unsigned l = 0; l < 11; l++, n++ ) {
    rfc( r, h.token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob, rfc_k_coeff_entropy_update_probs[ n ] );
  }
}

// ------------------------------------------------------------ field-wise equality
#define SAME( f ) ENSURES( same( a.f, b.f ), "every field is restored" )
template <unsigned w> static bool same( const Unsigned<w> & a, const Unsigned<w> & b ) { return a.i_ == b.i_; }
template <unsigned w> static bool same( const Signed<w> & a, const Signed<w> & b ) { return a.i_ == b.i_; }
static bool same( const Boolean & a, const Boolean & b ) { return a.i_ == b.i_; }
template <class T> static bool same( const Optional<T> & a, const Optional<T> & b )
{
  if ( a.initialized_ != b.initialized_ ) { return false; }
  return a.initialized_ ? same( a.object_, b.object_ ) : true;
}
template <class T, unsigned len> static bool same( const Array<T, len> & a, const Array<T, len> & b )
{
  bool r = true;
  for ( unsigned i = 0; i < len; i++ ) { r = same( a.at( i ), b.at( i ) ) and r; }
  return r;
}
static bool same( const SegmentFeatureData & a, const SegmentFeatureData & b )
{
  const bool x = same( a.segment_feature_mode, b.segment_feature_mode ), y = same( a.quantizer_update, b.quantizer_update ), z = same( a.loop_filter_update, b.loop_filter_update );
  return x and y and z;
}
static bool same( const UpdateSegmentation & a, const UpdateSegmentation & b )
{
  const bool x = same( a.update_mb_segmentation_map, b.update_mb_segmentation_map ), y = same( a.segment_feature_data, b.segment_feature_data ), z = same( a.mb_segmentation_map, b.mb_segmentation_map );
  return x and y and z;
}
static bool same( const ModeRefLFDeltaUpdate & a, const ModeRefLFDeltaUpdate & b )
{
  const bool x = same( a.ref_update, b.ref_update ), y = same( a.mode_update, b.mode_update );
  return x and y;
}
template <class H> static void same_common( const H & a, const H & b )
{
  SAME( update_segmentation ); SAME( filter_type ); SAME( loop_filter_level ); SAME( sharpness_level );
  SAME( mode_lf_adjustments ); SAME( log2_number_of_dct_partitions );
  SAME( quant_indices.y_ac_qi ); SAME( quant_indices.y_dc ); SAME( quant_indices.y2_dc ); SAME( quant_indices.y2_ac ); SAME( quant_indices.uv_dc ); SAME( quant_indices.uv_ac );
  SAME( refresh_entropy_probs ); SAME( prob_skip_false );
  for ( unsigned i = 0; i < 4; i++ ) for ( unsigned j = 0; j < 8; j++ ) for ( unsigned k = 0; k < 3; k++ ) for ( unsigned l = 0; l < 11; l++ ) {
    SAME( token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob );
  }
}

// ------------------------------------------------------------ key frames
PROOF( prove_key_header_format )
{
  const KeyFrameHeader & h = some_key_header();
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  COVER( "key frame header written" );
  Rfc r { ghost_reader( e ) };
  rfc( r, h.color_space );
  rfc( r, h.clamping_type );
  rfc_first( r, h );
  rfc( r, h.refresh_entropy_probs );
  rfc_tokens( r, h );
  rfc( r, h.prob_skip_false );
  vp_trace_done( 0 );
}
PROOF( prove_key_header_round_trip )
{
  KeyFrameHeader & h = some_key_header();
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  const KeyFrameHeader & h2 = *new KeyFrameHeader( ghost_reader( e ) );
  COVER( "key frame header parsed" );
  vp_trace_done( 0 );
  same_common( h, h2 );
  const KeyFrameHeader & a = h, & b = h2;
  SAME( color_space ); SAME( clamping_type );
}
PROOF( prove_key_header_unsupported )
{
  KeyFrameHeader & h = *new KeyFrameHeader( ghost_zeros() );
  any_common( h );
  any( h.color_space, "color_space" );
  any( h.clamping_type, "clamping_type" );
  any( h.filter_type, "simple_filter" );
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  bool refused = false;
  try {
    new KeyFrameHeader( ghost_reader( e ) );
    COVER( "accepted" );
  } catch ( const Unsupported & ) {
    refused = true;
    COVER( "refused" );
  }
  ENSURES( refused == ( h.color_space.i_ or h.clamping_type.i_ or h.filter_type.i_ ), "headers asking for unsupported features, and only those, are refused" );
}

// ------------------------------------------------------------ inter frames
PROOF( prove_inter_header_format )
{
  const InterFrameHeader & h = some_inter_header();
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  COVER( "inter frame header written" );
  Rfc r { ghost_reader( e ) };
  rfc_first( r, h );
  rfc( r, h.refresh_golden_frame );
  rfc( r, h.refresh_alternate_frame );
  if ( not h.refresh_golden_frame ) { rfc( r, h.copy_buffer_to_golden.object_ ); }
  if ( not h.refresh_alternate_frame ) { rfc( r, h.copy_buffer_to_alternate.object_ ); }
  rfc( r, h.sign_bias_golden );
  rfc( r, h.sign_bias_alternate );
  rfc( r, h.refresh_entropy_probs );
  rfc( r, h.refresh_last );
  rfc_tokens( r, h );
  rfc( r, h.prob_skip_false );
  rfc( r, h.prob_inter );
  rfc( r, h.prob_references_last );
  rfc( r, h.prob_references_golden );
  const bool y = r.flag();
  FIELD_IS( y, h.intra_16x16_prob.initialized_ );
  if ( y ) { for ( unsigned i = 0; i < 4; i++ ) { rfc( r, h.intra_16x16_prob.object_.at( i ) ); } }
  const bool uv = r.flag();
  FIELD_IS( uv, h.intra_chroma_prob.initialized_ );
  if ( uv ) { for ( unsigned i = 0; i < 3; i++ ) { rfc( r, h.intra_chroma_prob.object_.at( i ) ); } }
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < 19; j++ ) {
    rfc( r, h.mv_prob_update.at( i ).at( j ).mv_prob, rfc_k_mv_entropy_update_probs[ 19 * i + j ] );
  }
  vp_trace_done( 0 );
}
PROOF( prove_inter_header_round_trip )
{
  InterFrameHeader & h = some_inter_header();
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  const InterFrameHeader & h2 = *new InterFrameHeader( ghost_reader( e ) );
  COVER( "inter frame header parsed" );
  vp_trace_done( 0 );
  same_common( h, h2 );
  const InterFrameHeader & a = h, & b = h2;
  SAME( refresh_golden_frame ); SAME( refresh_alternate_frame ); SAME( copy_buffer_to_golden ); SAME( copy_buffer_to_alternate );
  SAME( sign_bias_golden ); SAME( sign_bias_alternate ); SAME( refresh_last ); SAME( prob_inter ); SAME( prob_references_last ); SAME( prob_references_golden );
  SAME( intra_16x16_prob ); SAME( intra_chroma_prob );
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < 19; j++ ) { SAME( mv_prob_update.at( i ).at( j ).mv_prob ); }
}
PROOF( prove_inter_header_unsupported )
{
  InterFrameHeader & h = *new InterFrameHeader( ghost_zeros() );
  any_common( h );
  any( h.filter_type, "simple_filter" );
  BoolEncoder & e = ghost_writer();
  encode( e, h );
  bool refused = false;
  try {
    new InterFrameHeader( ghost_reader( e ) );
    COVER( "accepted" );
  } catch ( const Unsupported & ) {
    refused = true;
    COVER( "refused" );
  }
  ENSURES( refused == h.filter_type.i_, "headers asking for unsupported features, and only those, are refused" );
}
PROOF( prove_mv_prob )
{
  // 7-bit motion vector probabilities stand for the even values and for 1
  const uint8_t x = vp_u8( "x" );
  const bool settable = x == 1 or ( x % 2 == 0 and x > 0 );
  ENSURES( MVProbUpdate::is_settable_value( x ) == settable, "the codable motion-vector probabilities are 1 and the even ones" );
  bool refused = false;
  try {
    const MVProbUpdate & u = *new MVProbUpdate( true, x );
    ENSURES( u.mv_prob.initialized_ and u.get() == x, "a codable probability is coded as itself" );
    COVER( "codable" );
  } catch ( const Invalid & ) {
    refused = true;
    COVER( "not codable" );
  }
  ENSURES( refused == not settable, "only codable probabilities are accepted" );
}
