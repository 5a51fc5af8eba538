// Saving and restoring a decoder state.
#include <cstring>
#include "vp.h"
#include "vp_vec.h"
#include "raw.h"
#include "decoder.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/probability_tables.cc src/util/raster.cc
//@ flags: -I/repo/src/decoder

static uint8_t & coeff( ProbabilityTables & t, const unsigned n ) { return t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ); }
static uint8_t & mode( ProbabilityTables & t, const unsigned n )
{
  return n < 4 ? t.y_mode_probs.at( n ) : n < 7 ? t.uv_mode_probs.at( n - 4 ) : t.motion_vector_probs.at( ( n - 7 ) / 19 ).at( ( n - 7 ) % 19 );
}
static void any( ProbabilityTables & t )
{
  for ( unsigned n = 0; n < 1056; n++ ) { coeff( t, n ) = vp_u8( "token", n ); }
  for ( unsigned n = 0; n < 45; n++ ) { mode( t, n ) = vp_u8( "mode", n ); }
}
static EncoderStateDeserializer & reader( const uint8_t * p, const uint64_t n )
{
  EncoderStateDeserializer & d = raw<EncoderStateDeserializer>();
  d.ptr_ = 0;
  static_cast<File &>( d ).size_ = n;
  new ( &static_cast<File &>( d ).chunk_ ) Chunk( p, n );
  return d;
}

template <bool with_map, unsigned W, unsigned H>
static void round_trip()
{
  DecoderState & s = *new DecoderState( 0, 0 );
  s.width = vp_u16( "width" );
  s.height = vp_u16( "height" );
  any( s.probability_tables );
  if ( with_map ) {
    s.segmentation.initialize( W, H );
    Segmentation & g = s.segmentation.get();
    g.absolute_segment_adjustments = vp_bool( "absolute" );
    for ( unsigned i = 0; i < 4; i++ ) {
      g.segment_quantizer_adjustments.at( i ) = vp_s8( "quantizer", i );
      g.segment_filter_adjustments.at( i ) = vp_s8( "filter", i );
    }
    for ( unsigned r = 0; r < H; r++ ) { for ( unsigned c = 0; c < W; c++ ) { g.map.at( c, r ) = vp_u8( "segment", r * W + c ); } }
  }
  const bool adjusted = vp_cases( vp_bool( "adjusted" ), 0, 1 );
  if ( adjusted ) {
    s.filter_adjustments.initialize();
    for ( unsigned i = 0; i < 4; i++ ) {
      s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) = vp_s8( "ref", i );
      s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) = vp_s8( "mode_adjustment", i );
    }
  }

  EncoderStateSerializer & out = *new EncoderStateSerializer();
  const uint64_t written = s.serialize( out );
  ENSURES( written == out.data_.size(), "the length reported is the length written" );
  EncoderStateDeserializer & in = reader( out.data_.data(), out.data_.size() );
  bool ok = true;
  try {
    DecoderState & t = *new DecoderState( DecoderState::deserialize( in ) );
    COVER( "restored" );
    ENSURES( in.ptr_ == out.data_.size(), "restoring consumes exactly what was saved" );
    ENSURES( t.width == s.width and t.height == s.height, "the dimensions are restored" );
    for ( unsigned n = 0; n < 1056; n++ ) { ENSURES( coeff( t.probability_tables, n ) == vp_u8( "token", n ), "the coefficient probabilities are restored" ); }
    for ( unsigned n = 0; n < 45; n++ ) { ENSURES( mode( t.probability_tables, n ) == vp_u8( "mode", n ), "the mode and motion vector probabilities are restored" ); }
    ENSURES( t.segmentation.initialized() == with_map, "segmentation is restored exactly when it was there" );
    if ( with_map and t.segmentation.initialized() ) {
      const Segmentation & g = t.segmentation.get();
      ENSURES( g.absolute_segment_adjustments == vp_bool( "absolute" ), "the kind of the segment adjustments is restored" );
      for ( unsigned i = 0; i < 4; i++ ) {
        ENSURES( g.segment_quantizer_adjustments.at( i ) == vp_s8( "quantizer", i ), "the segment quantizer adjustments are restored" );
        ENSURES( g.segment_filter_adjustments.at( i ) == vp_s8( "filter", i ), "the segment filter adjustments are restored" );
      }
      ENSURES( g.map.width() == W and g.map.height() == H, "the segmentation map has its size" );
      for ( unsigned r = 0; r < H; r++ ) {
        for ( unsigned c = 0; c < W; c++ ) { ENSURES( g.map.at( c, r ) == vp_u8( "segment", r * W + c ), "the segmentation map is restored" ); }
      }
    }
    ENSURES( t.filter_adjustments.initialized() == adjusted, "filter adjustments are restored exactly when they were there" );
    if ( adjusted and t.filter_adjustments.initialized() ) {
      for ( unsigned i = 0; i < 4; i++ ) {
        ENSURES( t.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) == vp_s8( "ref", i ), "the reference filter adjustments are restored" );
        ENSURES( t.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) == vp_s8( "mode_adjustment", i ), "the mode filter adjustments are restored" );
      }
    }
    ENSURES( t == s, "the restored state compares equal" );
  } catch ( const std::exception & ) {
    ok = false;
  }
  ENSURES( ok, "a saved state can be restored" );
}
PROOF( prove_state ) { round_trip<false, 0, 0>(); }
PROOF( bounded_state_with_map ) { round_trip<true, 3, 2>(); }

// any bytes: all reads lie inside, and a state that does not fit is refused
PROOF( prove_restore_anything )
{
  const uint64_t n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 32 ) );
  uint8_t * const p = vp_bytes( "data", n );
  // without a segmentation map (its size is up to the data; see bounded_restore_map)
  REQUIRES( n <= 1115 or p[ 1115 ] != uint8_t( EncoderSerDesTag::OPT_FULL ) );
  EncoderStateDeserializer & in = reader( p, n );
  const DecoderState * s = nullptr;
  try {
    s = new DecoderState( DecoderState::deserialize( in ) );
  } catch ( const std::exception & ) {
    COVER( "refused" );
    return;
  }
  COVER( "accepted" );
  ENSURES( n >= 1117, "truncated data is refused" );
  ENSURES( not s->segmentation.initialized(), "no segmentation out of nothing" );
  ENSURES( in.ptr_ <= n, "nothing beyond the data is consumed" );
  ENSURES( s->filter_adjustments.initialized() == ( in.ptr_ == 1117 + 13 ), "filter adjustments are read when they are there" );
}

// any bytes as a segmentation of up to 8 macroblocks, whatever size it claims
PROOF( bounded_restore_map )
{
  const uint64_t any_size = vp_nondet( "size", 0, 5 );
  REQUIRES( any_size <= 25 );
  const uint64_t n = vp_cases( any_size, 0, 25 );
  uint8_t * const p = vp_bytes( "data", n );
  EncoderStateDeserializer & in = reader( p, n );
  const Segmentation * s = nullptr;
  uint32_t width = 0, height = 0;
  if ( n >= 9 ) { width = p[ 5 ] | p[ 6 ] << 8; height = p[ 7 ] | p[ 8 ] << 8; }
  REQUIRES( width <= 4 and height <= 4 );
  try {
    s = new Segmentation( Segmentation::deserialize( in ) );
  } catch ( const std::exception & ) {
    ENSURES( n < 17 or width * height > n - 17 or width == 0 or height == 0, "only a segmentation that is not all there is refused" );
    return;
  }
  COVER( "accepted" );
  ENSURES( n >= 17 and width * height <= n - 17, "a segmentation that is not all there is refused" );
  ENSURES( s->map.width() == width and s->map.height() == height, "the map has the size the data says" );
  if ( n >= 17 and width * height <= n - 17 ) {
    for ( unsigned r = 0; r < height; r++ ) {
      for ( unsigned c = 0; c < width; c++ ) { ENSURES( s->map.at( c, r ) == p[ 17 + r * width + c ], "the map is the one in the data" ); }
    }
  }
}
