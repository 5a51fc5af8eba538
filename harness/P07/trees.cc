// Tree-coded values and motion-vector components: what the serializer writes is read back, and both sides follow RFC 6386 (8.1, 17.2).
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#include "ghost_coder.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "serializer.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolEncoder::put\(.*\) => ghost_put
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ trusted: BoolEncoder::put / BoolDecoder::get are used through their contract, which is what P01 proves

static int rfc_tree( BoolDecoder & d, const int8_t * const tree, const uint8_t * const p )
{
  int i = 0;
  do { i = tree[ i + ( d.get( p[ i >> 1 ] ) ? 1 : 0 ) ]; } while ( i > 0 );
  return -i;
}
template <class T, uint8_t N, const TreeArray<N> & nodes> static void tree( const int8_t * const rfc, const unsigned first )
{
  ProbabilityArray<N> & p = raw<ProbabilityArray<N>>();
  uint8_t q[ N - 1 ];
  for ( unsigned i = 0; i < N - 1; i++ ) { q[ i ] = p.at( i ) = vp_u8( "prob", i ); }
  const unsigned v = first + vp_cases( vp_u8( "value" ) % N, 0, N - 1 );
  BoolEncoder & e = ghost_writer();
  encode( e, Tree<T, N, nodes>( (T) v ), p );
  BoolDecoder & d = ghost_reader( e );
  const T back = Tree<T, N, nodes>( d, p );
  ENSURES( back == (T) v, "a value written through its tree is read back" );
  if ( vp_symbolic() ) {
    vp_trace_done( 0 );
    vp_trace_rewind( 0 );
    ENSURES( rfc_tree( d, rfc, q ) == (int) v, "the bits written are those of the format" );
    vp_trace_done( 0 );
  }
  COVER( "tree" );
}
PROOF( prove_kf_y_mode ) { tree<mbmode, num_y_modes, kf_y_mode_tree>( rfc_kf_y_mode_tree, DC_PRED ); }
PROOF( prove_y_mode ) { tree<mbmode, num_y_modes, y_mode_tree>( rfc_y_mode_tree, DC_PRED ); }
PROOF( prove_uv_mode ) { tree<mbmode, num_uv_modes, uv_mode_tree>( rfc_uv_mode_tree, DC_PRED ); }
PROOF( prove_b_mode ) { tree<bmode, num_intra_b_modes, b_mode_tree>( rfc_b_mode_tree, B_DC_PRED ); }
PROOF( prove_mv_ref ) { tree<mbmode, num_mv_refs, mv_ref_tree>( rfc_mv_ref_tree, NEARESTMV ); }
PROOF( prove_submv_ref ) { tree<bmode, num_inter_b_modes, submv_ref_tree>( rfc_submv_ref_tree, LEFT4X4 ); }
PROOF( prove_small_mv ) { tree<int16_t, 8, small_mv_tree>( rfc_small_mv_tree, 0 ); }
PROOF( prove_split_mv ) { tree<uint8_t, 4, split_mv_tree>( rfc_split_mv_tree, 0 ); }
PROOF( prove_segment_id ) { tree<uint8_t, num_segments, segment_id_tree>( rfc_segment_id_tree, 0 ); }

// ------------------------------------------------------------ motion vectors
static int rfc_component( BoolDecoder & d, const uint8_t * const p )
{
  int a = 0;
  if ( d.get( p[ 0 ] ) ) {
    for ( unsigned i = 0; i < 3; i++ ) { a += ( d.get( p[ 9 + i ] ) ? 1 : 0 ) << i; }
    for ( unsigned i = 9; i > 3; i-- ) { a += ( d.get( p[ 9 + i ] ) ? 1 : 0 ) << i; }
    if ( not ( a & 0xfff0 ) or d.get( p[ 9 + 3 ] ) ) { a += 8; }
  } else {
    a = rfc_tree( d, rfc_small_mv_tree, p + 2 );
  }
  return 2 * ( a and d.get( p[ 1 ] ) ? -a : a );
}
typedef SafeArray<Probability, MV_PROB_CNT> Component;
static const uint8_t * any_component( Component & p, const unsigned n )
{
  uint8_t * const q = new uint8_t[ MV_PROB_CNT ];
  for ( unsigned i = 0; i < MV_PROB_CNT; i++ ) { q[ i ] = p.at( i ) = vp_u8( "prob", 19 * n + i ); }
  return q;
}
/* every even value of less than 2048 in magnitude: the range of the format */
static int16_t codable( const unsigned n )
{
  const unsigned m = vp_u16( "magnitude", n ) % 1024;
  const bool negative = vp_cases( vp_bool( "negative", n ), 0, 1 );
  return negative ? - (int) ( 2 * m ) : (int) ( 2 * m );
}
PROOF( prove_component )
{
  Component & p = raw<Component>();
  const uint8_t * const q = any_component( p, 0 );
  const int16_t v = codable( 0 );
  BoolEncoder & e = ghost_writer();
  encode( e, v, p );
  BoolDecoder & d = ghost_reader( e );
  ENSURES( MotionVector::read_component( d, p ) == v, "a motion vector component is read back" );
  if ( vp_symbolic() ) {
    vp_trace_done( 0 );
    vp_trace_rewind( 0 );
    ENSURES( rfc_component( d, q ) == v, "a component is coded as the format says" );
    vp_trace_done( 0 );
  }
  COVER( "component" );
}
