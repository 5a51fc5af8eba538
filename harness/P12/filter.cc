// Loop-filter levels, limits and the edges filtered, against RFC 6386 sections 9.3, 9.6 and 15.
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "frame.cc"
#include "loopfilter.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ trusted: the assembly loop filters (vp8_*loop_filter_*_sse2) are recorded, not verified: what is proved is which edges they get, with which limits and in which order
//@ replace: vp8_mbloop_filter_vertical_edge_sse2 => mbv_y
//@ replace: vp8_mbloop_filter_vertical_edge_uv_sse2 => mbv_uv
//@ replace: vp8_mbloop_filter_horizontal_edge_sse2 => mbh_y
//@ replace: vp8_mbloop_filter_horizontal_edge_uv_sse2 => mbh_uv
//@ replace: vp8_loop_filter_bv_y_sse2 => bv_y
//@ replace: vp8_loop_filter_bh_y_sse2 => bh_y
//@ replace: vp8_loop_filter_vertical_edge_uv_sse2 => bv_uv
//@ replace: vp8_loop_filter_horizontal_edge_uv_sse2 => bh_uv
//@ replace: Macroblock<KeyFrameHeader, KeyFrameMacroblockHeader>::loopfilter\(.*\) const => key_mb
//@ replace: Macroblock<InterFrameHeader, InterFrameMacroblockHeader>::loopfilter\(.*\) const => inter_mb
//@ noop: VP8Raster::Macroblock::Macroblock\(unsigned int, unsigned int, VP8Raster&\)

static int clamp63_( const int x ) { return x < 0 ? 0 : x > 63 ? 63 : x; }

// ------------------------------------------------------------ limits from level, sharpness and frame type
struct Limits { int interior, mb, sub, hev; };
static Limits limits( const int level, const int sharpness, const bool key )
{
  Limits l;
  l.interior = level;
  if ( sharpness ) {
    l.interior >>= sharpness > 4 ? 2 : 1;
    if ( l.interior > 9 - sharpness ) { l.interior = 9 - sharpness; }
  }
  if ( not l.interior ) { l.interior = 1; }
  l.mb = ( level + 2 ) * 2 + l.interior;
  l.sub = level * 2 + l.interior;
  if ( key ) { l.hev = level >= 40 ? 2 : level >= 15 ? 1 : 0; }
  else { l.hev = level >= 40 ? 3 : level >= 20 ? 2 : level >= 15 ? 1 : 0; }
  return l;
}
static bool all16( const uint8_t * p, const int v ) { bool ok = true; for ( unsigned i = 0; i < 16; i++ ) { ok &= p[ i ] == v; } return ok; }

PROOF( prove_limits )
{
  FilterParameters p;
  p.type = LoopFilterType::Normal;
  p.filter_level = vp_s32( "level" );
  p.sharpness_level = vp_u8( "sharpness" ) & 7;
  const bool key = vp_bool( "key" );
  const NormalLoopFilter f( key, p );
  const Limits l = limits( clamp63_( p.filter_level ), p.sharpness_level, key );
  ENSURES( all16( f.simple_.interior_limit_vector().data(), l.interior ), "interior limit" );
  ENSURES( all16( f.simple_.macroblock_limit_vector().data(), l.mb ), "macroblock edge limit" );
  ENSURES( all16( f.simple_.subblock_limit_vector().data(), l.sub ), "subblock edge limit" );
  ENSURES( all16( f.hev_threshold_vector_.data(), l.hev ), "high edge variance threshold" );
  COVER( "limits" );
}

// ------------------------------------------------------------ adjustments
static reference_frame any_reference() { return (reference_frame) ( vp_u8( "reference" ) & 3 ); }
static mbmode any_mode() { const unsigned m = vp_u8( "mode" ) & 15; REQUIRES( m < 10 ); return (mbmode) m; }
static int adjustment( const int8_t * ref, const int8_t * mode, const reference_frame r, const mbmode m )
{
  int a = ref[ r ];
  if ( r == CURRENT_FRAME ) { if ( m == B_PRED ) { a += mode[ 0 ]; } }
  else if ( m == ZEROMV ) { a += mode[ 1 ]; }
  else if ( m == SPLITMV ) { a += mode[ 3 ]; }
  else { a += mode[ 2 ]; }
  return a;
}
PROOF( prove_adjust )
{
  SafeArray<int8_t, num_reference_frames> ref;
  SafeArray<int8_t, 4> mode;
  for ( unsigned i = 0; i < 4; i++ ) { ref.storage_[ i ] = vp_u8( "ref", i ); mode.storage_[ i ] = vp_u8( "mode_adj", i ); }
  FilterParameters p;
  const int level = vp_u8( "level" );
  p.filter_level = level;
  p.sharpness_level = 3;
  p.type = LoopFilterType::Normal;
  const reference_frame r = any_reference();
  const mbmode m = any_mode();
  p.adjust( ref, mode, r, m );
  ENSURES( p.filter_level == level + adjustment( ref.storage_, mode.storage_, r, m ), "reference and mode adjustments are added" );
  ENSURES( p.sharpness_level == 3 and p.type == LoopFilterType::Normal, "adjusting changes only the level" );
  COVER( "adjusted" );
}

// ------------------------------------------------------------ one macroblock: which edges, which limits
static unsigned calls;
static unsigned kind[ 12 ];
static uint8_t * where[ 12 ], * where_v[ 12 ];
static int pitch[ 12 ];
static Limits used[ 12 ];
static bool vec_ok = true;
static void edge( const unsigned k, uint8_t * p, const int stride, const uint8_t * b, const uint8_t * l, const uint8_t * t, uint8_t * v )
{
  ENSURES( calls < 8, "no edge is filtered twice" );
  if ( calls >= 12 ) { return; }
  kind[ calls ] = k; where[ calls ] = p; where_v[ calls ] = v; pitch[ calls ] = stride;
  used[ calls ].mb = b[ 0 ]; used[ calls ].interior = l[ 0 ]; used[ calls ].hev = t[ 0 ];
  vec_ok &= all16( b, b[ 0 ] ) and all16( l, l[ 0 ] ) and all16( t, t[ 0 ] );
  calls++;
}
extern "C" {
void mbv_y( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t ) { edge( 0, u, p, b, l, t, nullptr ); }
void mbv_uv( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, uint8_t * v ) { edge( 1, u, p, b, l, t, v ); }
void bv_y( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, int ) { edge( 2, u, p, b, l, t, nullptr ); }
void bv_uv( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, uint8_t * v ) { edge( 3, u, p, b, l, t, v ); }
void mbh_y( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t ) { edge( 4, u, p, b, l, t, nullptr ); }
void mbh_uv( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, uint8_t * v ) { edge( 5, u, p, b, l, t, v ); }
void bh_y( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, int ) { edge( 6, u, p, b, l, t, nullptr ); }
void bh_uv( uint8_t * u, int p, const uint8_t * b, const uint8_t * l, const uint8_t * t, uint8_t * v ) { edge( 7, u, p, b, l, t, v ); }
}

template <unsigned size> static void plane( VP8Raster::Block<size> & b, uint8_t * pixels, const unsigned width, const unsigned height, const unsigned column, const unsigned row )
{
  b.contents_.master_ = &storage_over( pixels, width, height, (uint64_t) width * height );
  b.contents_.column_ = size * column; b.contents_.row_ = size * row;
  b.column_ = column; b.row_ = row;
}

PROOF( prove_edges )
{
  if ( not vp_symbolic() ) { return; } // observes calls of the assembly routines
  const unsigned mb_width = vp_u16( "mb_width" ) % 4096 + 1, mb_height = vp_u16( "mb_height" ) % 4096 + 1;
  const unsigned column = vp_u16( "column" ), row = vp_u16( "row" );
  REQUIRES( column < mb_width and row < mb_height );
  VP8Raster::Macroblock & mb = raw<VP8Raster::Macroblock>();
  uint8_t * const y = vp_bytes( "y", (uint64_t) 256 * mb_width * mb_height );
  uint8_t * const u = vp_bytes( "u", (uint64_t) 64 * mb_width * mb_height ), * const v = vp_bytes( "v", (uint64_t) 64 * mb_width * mb_height );
  plane( mb.Y, y, 16 * mb_width, 16 * mb_height, column, row );
  plane( mb.U, u, 8 * mb_width, 8 * mb_height, column, row );
  plane( mb.V, v, 8 * mb_width, 8 * mb_height, column, row );

  FilterParameters p;
  p.type = LoopFilterType::Normal;
  p.filter_level = vp_u8( "level" ) & 63;
  p.sharpness_level = vp_u8( "sharpness" ) & 7;
  const bool key = vp_bool( "key" ), skip = vp_cases( vp_bool( "skip" ), 0, 1 );
  const bool left = vp_cases( column > 0, 0, 1 ), top = vp_cases( row > 0, 0, 1 );
  NormalLoopFilter f( key, p );
  calls = 0;
  f.filter( mb, skip );

  const Limits l = limits( p.filter_level, p.sharpness_level, key );
  uint8_t * const y0 = y + ( (uint64_t) 16 * row * ( 16 * mb_width ) + 16 * column );
  uint8_t * const u0 = u + ( (uint64_t) 8 * row * ( 8 * mb_width ) + 8 * column ), * const v0 = v + ( (uint64_t) 8 * row * ( 8 * mb_width ) + 8 * column );
  const int ys = 16 * mb_width, us = 8 * mb_width;
  unsigned n = 0;
#define EDGE( K, P, S, V, LIM ) do { \
  ENSURES( calls > n and kind[ n ] == K, "left macroblock edge, inner vertical edges, top macroblock edge, inner horizontal edges, in that order and only where they exist" ); \
  ENSURES( where[ n ] == P and where_v[ n ] == V and pitch[ n ] == S, "the edge filtered belongs to this macroblock" ); \
  ENSURES( used[ n ].mb == LIM and used[ n ].interior == l.interior and used[ n ].hev == l.hev, "the edge is filtered with the limits of its kind" ); n++; } while ( 0 )
  if ( left ) { EDGE( 0, y0, ys, nullptr, l.mb ); EDGE( 1, u0, us, v0, l.mb ); }
  if ( not skip ) { EDGE( 2, y0, ys, nullptr, l.sub ); EDGE( 3, u0 + 4, us, v0 + 4, l.sub ); }
  if ( top ) { EDGE( 4, y0, ys, nullptr, l.mb ); EDGE( 5, u0, us, v0, l.mb ); }
  if ( not skip ) { EDGE( 6, y0, ys, nullptr, l.sub ); EDGE( 7, u0 + 4 * us, us, v0 + 4 * us, l.sub ); }
  ENSURES( calls == n, "no other edge is filtered" );
  ENSURES( vec_ok, "limits are replicated over the vector" );
  COVER( "macroblock filtered" );
}

// ------------------------------------------------------------ frame level: level per segment
static unsigned mb_calls;
static const void * mb_who[ 2 ], * mb_adj[ 2 ];
static FilterParameters mb_params[ 2 ];
static void record( const void * self, const void * adj, const FilterParameters & p )
{
  if ( mb_calls < 2 ) { mb_who[ mb_calls ] = self; mb_adj[ mb_calls ] = adj; mb_params[ mb_calls ] = p; }
  mb_calls++;
}
extern "C" void key_mb( const KeyFrameMacroblock * self, const Optional<FilterAdjustments> & a, const FilterParameters & p, VP8Raster::Macroblock & ) { record( self, &a, p ); }
extern "C" void inter_mb( const InterFrameMacroblock * self, const Optional<FilterAdjustments> & a, const FilterParameters & p, VP8Raster::Macroblock & ) { record( self, &a, p ); }

template <class F, class M> static void frame()
{
  if ( not vp_symbolic() ) { return; }
  F & f = raw<F>();
  f.header_.loop_filter_level.i_ = vp_u8( "level" ) & 63;
  f.header_.sharpness_level.i_ = vp_u8( "sharpness" ) & 7;
  f.header_.filter_type.i_ = vp_bool( "simple" );
  M * const mbs = &raw<M>( 2 );
  f.macroblock_headers_.initialized_ = true;
  twod_at( f.macroblock_headers_.object_, storage_over( mbs, 2, 1, 2 ) );
  for ( unsigned i = 0; i < 2; i++ ) { mbs[ i ].segment_id_ = vp_u8( "segment", i ) & 3; }
  Optional<Segmentation> & s = raw<Optional<Segmentation>>();
  s.initialized_ = vp_cases( vp_bool( "segmentation" ), 0, 1 );
  s.object_.absolute_segment_adjustments = vp_bool( "absolute" );
  for ( unsigned i = 0; i < 4; i++ ) { s.object_.segment_filter_adjustments.at( i ) = vp_u8( "segment_filter", i ); }
  Optional<FilterAdjustments> & a = raw<Optional<FilterAdjustments>>();
  a.initialized_ = vp_bool( "adjustments" );
  mb_calls = 0;
  f.loopfilter( s, a, raw<VP8Raster>() );
  const int level = f.header_.loop_filter_level.i_;
  ENSURES( mb_calls == ( level ? 2 : 0 ), "every macroblock is filtered once, unless the frame level is zero" );
  if ( mb_calls != 2 ) { COVER( "not filtered" ); return; }
  for ( unsigned i = 0; i < 2; i++ ) {
    ENSURES( mb_who[ i ] == mbs + i and mb_adj[ i ] == &a, "macroblocks are filtered in order with the current adjustments" );
    int want = level;
    if ( s.initialized_ ) {
      const int adj = s.object_.segment_filter_adjustments.at( mbs[ i ].segment_id_ );
      want = clamp63_( s.object_.absolute_segment_adjustments ? adj : level + adj );
    }
    ENSURES( mb_params[ i ].filter_level == want, "level of the macroblock's segment" );
    ENSURES( mb_params[ i ].sharpness_level == f.header_.sharpness_level.i_, "sharpness of the frame" );
    ENSURES( mb_params[ i ].type == ( f.header_.filter_type.i_ ? LoopFilterType::Simple : LoopFilterType::Normal ), "filter type of the frame" );
  }
  COVER( "filtered" );
}
PROOF( bounded_frame_key ) { frame<KeyFrame, KeyFrameMacroblock>(); }
PROOF( bounded_frame_inter ) { frame<InterFrame, InterFrameMacroblock>(); }
