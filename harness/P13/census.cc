// Motion vector prediction: census of the neighbours, clamping, chroma vectors, and the modes that use them (RFC 6386 section 18.3, libvpx findnearmv).
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "rfc_tables.h"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolDecoder::get\(.*\) => any_get
//@ replace: MotionVector::read_component\(.*\) => any_component
//@ replace: Block<.*>::read_subblock_inter_prediction\(.*\) => any_submv
//@ trusted: BoolDecoder::get returns an arbitrary bit (what it decodes is P01); MotionVector::read_component returns an arbitrary value (its coding is P07)

typedef InterFrameMacroblock MB;
struct MVec { int16_t x, y; };
static bool same( const MVec & a, const MVec & b ) { return a.x == b.x and a.y == b.y; }
static bool zero( const MVec & a ) { return a.x == 0 and a.y == 0; }
static MVec get( const MotionVector & m ) { return { m.x(), m.y() }; }
static void put( MotionVector & m, const MVec & v ) { m.x_ = v.x; m.y_ = v.y; }

// ------------------------------------------------------------ the decoder's bits
static unsigned gets; static uint8_t asked[ 64 ]; static bool bits[ 64 ];
extern "C" bool any_get( BoolDecoder *, const uint8_t prob )
{
  const unsigned n = gets++;
  asked[ n ] = prob;
  bits[ n ] = vp_bool( "bit", n );
  return bits[ n ];
}
static unsigned components; static int16_t component[ 64 ]; static const void * component_probs[ 64 ];
extern "C" int16_t any_component( BoolDecoder &, const SafeArray<Probability, MV_PROB_CNT> & probs )
{
  const unsigned n = components++;
  component_probs[ n ] = &probs;
  component[ n ] = vp_s16( "component", n );
  return component[ n ];
}

static unsigned subs; static YBlock * sub[ 16 ]; static MVec sub_best[ 16 ];
extern "C" void any_submv( YBlock * b, BoolDecoder &, const MotionVector & best, const SafeArray<SafeArray<Probability, MV_PROB_CNT>, 2> & )
{
  const unsigned k = subs++;
  sub[ k ] = b;
  sub_best[ k ] = { best.x(), best.y() };
  b->prediction_mode_ = (bmode) ( LEFT4X4 + ( vp_u8( "sub_mode", k ) & 3 ) );
  b->motion_vector_.x_ = vp_s16( "sub_x", k ); b->motion_vector_.y_ = vp_s16( "sub_y", k );
}

// ------------------------------------------------------------ macroblocks
static TwoDStorage<YBlock> & y_storage()
{
  YBlock * const b = &raw<YBlock>( 16 );
  for ( unsigned i = 0; i < 16; i++ ) { put( b[ i ].motion_vector_, { 0, 0 } ); b[ i ].type_ = Y_after_Y2; b[ i ].prediction_mode_ = B_DC_PRED; }
  return storage_over( b, 4, 4, 16 );
}
static MB & blank( TwoDStorage<YBlock> & ys )
{
  MB & m = raw<MB>();
  new ( &m.Y_ ) TwoDSubRange<YBlock, 4, 4>( &ys, 0, 0 );
  Y2Block & y2 = raw<Y2Block>();
  BIND_REFERENCE( m, Y2_, y2 );
  REQUIRES( &m.Y2_ == &y2 );
  y2.coded_ = true;
  return m;
}
struct Neighbour { bool inter, flipped, split; MVec mv; };
static Neighbour n[ 3 ]; /* above, left, above left */
static void neighbour( Optional<const MB *> & o, const unsigned i )
{
  o.initialized_ = vp_cases( vp_bool( "present", i ), 0, 1 );
  n[ i ].inter = false;
  if ( not o.initialized_ ) { return; }
  MB & m = blank( y_storage() );
  o.object_ = &m;
  n[ i ] = { vp_bool( "inter", i ), vp_bool( "flipped", i ), vp_bool( "split", i ), { vp_s16( "x", i ), vp_s16( "y", i ) } };
  m.header_.is_inter_mb.i_ = n[ i ].inter;
  m.header_.motion_vectors_flipped_ = n[ i ].flipped;
  m.Y2_.prediction_mode_ = n[ i ].split ? SPLITMV : ( n[ i ].inter ? NEWMV : DC_PRED );
  REQUIRES( n[ i ].inter or not n[ i ].split );
  put( m.Y_.at( 3, 3 ).motion_vector_, n[ i ].mv );
}
static void neighbours( MB & m )
{
  m.header_.is_inter_mb.i_ = true;
  m.header_.motion_vectors_flipped_ = vp_bool( "own_flipped" );
  neighbour( m.context_.above, 0 );
  neighbour( m.context_.left, 1 );
  neighbour( m.context_.above_left, 2 );
}

// ------------------------------------------------------------ specification
struct Census { MVec best, nearest, near; unsigned count[ 4 ]; };
static Census spec( const bool flipped )
{
  MVec mv[ 4 ] = { { 0, 0 }, { 0, 0 }, { 0, 0 }, { 0, 0 } };
  unsigned cnt[ 4 ] = { 0, 0, 0, 0 };
  const unsigned weight[ 3 ] = { 2, 2, 1 };
  unsigned last = 0, split = 0;
  for ( unsigned i = 0; i < 3; i++ ) {
    if ( not n[ i ].inter ) { continue; }
    split += n[ i ].split ? weight[ i ] : 0;
    MVec v = n[ i ].mv;
    if ( n[ i ].flipped != flipped ) { v = { (int16_t) -v.x, (int16_t) -v.y }; }
    if ( zero( v ) ) { cnt[ 0 ] += weight[ i ]; continue; }
    if ( last == 0 or not same( v, mv[ last ] ) ) { last++; mv[ last ] = v; }
    cnt[ last ] += weight[ i ];
  }
  if ( cnt[ 3 ] and same( mv[ 3 ], mv[ 1 ] ) ) { cnt[ 1 ]++; }
  if ( cnt[ 2 ] > cnt[ 1 ] ) {
    const unsigned c = cnt[ 1 ]; cnt[ 1 ] = cnt[ 2 ]; cnt[ 2 ] = c;
    const MVec v = mv[ 1 ]; mv[ 1 ] = mv[ 2 ]; mv[ 2 ] = v;
  }
  if ( cnt[ 1 ] >= cnt[ 0 ] ) { mv[ 0 ] = mv[ 1 ]; }
  return { mv[ 0 ], mv[ 1 ], mv[ 2 ], { cnt[ 0 ], cnt[ 1 ], cnt[ 2 ], split } };
}

PROOF( prove_census )
{
  MB & m = blank( y_storage() );
  neighbours( m );
  const Census want = spec( m.header_.motion_vectors_flipped_ );
  const Scorer got = m.motion_vector_census();
  ENSURES( same( get( got.best() ), want.best ), "best motion vector" );
  ENSURES( same( get( got.nearest() ), want.nearest ), "nearest motion vector" );
  ENSURES( same( get( got.near() ), want.near ), "near motion vector" );
  const auto c = got.mode_contexts();
  for ( unsigned i = 0; i < 4; i++ ) {
    ENSURES( c.at( i ) == want.count[ i ], "weights that select the mode probabilities" );
    ENSURES( want.count[ i ] < 6, "weights stay inside the probability table" );
  }
  COVER( "census" );
}

// ------------------------------------------------------------ clamping
static unsigned column, row, width, height;
static void context( typename TwoD<MB>::Context & c )
{
  width = vp_u16( "width" ); height = vp_u16( "height" ); column = vp_u16( "column" ); row = vp_u16( "row" );
  REQUIRES( width <= 1024 and height <= 1024 and column < width and row < height );
  c.width = width; c.height = height; c.column = column; c.row = row;
}
static int16_t bound( const int v, const int64_t lo, const int64_t hi ) { return v < lo ? lo : v > hi ? hi : v; }
/* at most one macroblock beyond the frame, and always representable */
static MVec clamped( const MVec & v )
{
  return { bound( v.x, -128 * (int64_t) ( column + 1 ), 128 * (int64_t) ( width - column ) ),
           bound( v.y, -128 * (int64_t) ( row + 1 ), 128 * (int64_t) ( height - row ) ) };
}
PROOF( prove_clamp )
{
  MB & m = raw<MB>();
  context( m.context_ );
  const MVec v = { vp_s16( "x" ), vp_s16( "y" ) };
  const MotionVector r = Scorer::clamp( MotionVector( v.x, v.y ), m.context_ );
  ENSURES( same( get( r ), clamped( v ) ), "vectors are limited to one macroblock beyond the frame" );
  COVER( "clamp" );
}

// ------------------------------------------------------------ chroma
static int rounded( const int sum ) { return sum >= 0 ? ( sum + 4 ) / 8 : -( ( -sum + 4 ) / 8 ); }
static MVec average( const MVec & a, const MVec & b, const MVec & c, const MVec & d )
{
  return { (int16_t) rounded( a.x + b.x + c.x + d.x ), (int16_t) rounded( a.y + b.y + c.y + d.y ) };
}
PROOF( prove_chroma )
{
  MVec v[ 4 ];
  for ( unsigned i = 0; i < 4; i++ ) { v[ i ] = { vp_s16( "x", i ), vp_s16( "y", i ) }; }
  const MotionVector r = MotionVector::luma_to_chroma( MotionVector( v[ 0 ].x, v[ 0 ].y ), MotionVector( v[ 1 ].x, v[ 1 ].y ),
                                                       MotionVector( v[ 2 ].x, v[ 2 ].y ), MotionVector( v[ 3 ].x, v[ 3 ].y ) );
  ENSURES( same( get( r ), average( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ) ), "a chroma vector is the rounded average of four luma vectors" );
  COVER( "chroma" );
}

// ------------------------------------------------------------ the modes of an inter-coded macroblock
PROOF( prove_modes )
{
  if ( not vp_symbolic() ) { return; }
  TwoDStorage<YBlock> & ys = y_storage();
  MB & m = blank( ys );
  neighbours( m );
  context( m.context_ );
  UVBlock * const uv = &raw<UVBlock>( 4 );
  TwoDStorage<UVBlock> & us = storage_over( uv, 2, 2, 4 );
  new ( &m.U_ ) TwoDSubRange<UVBlock, 2, 2>( &us, 0, 0 );
  m.header_.partition_id.initialized_ = false;
  ProbabilityTables & t = raw<ProbabilityTables>();
  const Census c = spec( m.header_.motion_vectors_flipped_ );
  gets = components = 0;
  const unsigned kind = vp_cases( vp_u8( "kind" ) % 5, 0, 4 );
  static const uint8_t path[ 5 ][ 5 ] = { { 0, 9 }, { 1, 0, 9 }, { 1, 1, 0, 9 }, { 1, 1, 1, 0, 9 }, { 1, 1, 1, 1, 9 } };
  for ( unsigned i = 0; i < 4 and path[ kind ][ i ] != 9; i++ ) { REQUIRES( vp_bool( "bit", i ) == path[ kind ][ i ] ); }
  if ( kind == 4 ) { vp_kill(); }
  m.decode_prediction_modes( raw<BoolDecoder>(), t, false );
  uint8_t probs[ 4 ];
  for ( unsigned i = 0; i < 4; i++ ) { probs[ i ] = rfc_mv_counts_to_probs[ 4 * c.count[ i ] + i ]; }
  unsigned at = 0;
  for ( ; path[ kind ][ at ] != 9; at++ ) { ENSURES( asked[ at ] == probs[ at ], "modes are decoded with the probabilities selected by the census" ); }
  ENSURES( gets == at, "nothing else is decoded" );
  const mbmode mode = kind == 0 ? ZEROMV : kind == 1 ? NEARESTMV : kind == 2 ? NEARMV : NEWMV;
  ENSURES( m.Y2_.prediction_mode() == mode, "mode" );
  ENSURES( m.Y2_.coded_, "such a macroblock has a second-order block" );
  MVec v = { 0, 0 };
  if ( mode == NEARESTMV ) { v = clamped( c.nearest ); }
  if ( mode == NEARMV ) { v = clamped( c.near ); }
  if ( mode == NEWMV ) {
    const MVec b = clamped( c.best );
    ENSURES( components == 2 and component_probs[ 0 ] == &t.motion_vector_probs.at( 0 ) and component_probs[ 1 ] == &t.motion_vector_probs.at( 1 ), "row, then column, each with its own probabilities" );
    v = { (int16_t) ( b.x + component[ 1 ] ), (int16_t) ( b.y + component[ 0 ] ) };
    COVER( "new vector" );
  } else {
    ENSURES( components == 0, "only new vectors are coded" );
  }
  for ( unsigned i = 0; i < 16; i++ ) {
    ENSURES( same( get( m.Y_.at( i % 4, i / 4 ).motion_vector() ), v ), "every luma subblock moves with the macroblock" );
    ENSURES( m.Y_.at( i % 4, i / 4 ).type_ == Y_after_Y2, "luma subblocks follow the second-order block" );
  }
  const MVec w = average( v, v, v, v );
  for ( unsigned i = 0; i < 4; i++ ) { ENSURES( same( get( m.U_.at( i % 2, i / 2 ).motion_vector() ), w ), "chroma vectors are averages of the luma vectors" ); }
  COVER( "whole macroblock" );
}

PROOF( prove_split )
{
  if ( not vp_symbolic() ) { return; }
  TwoDStorage<YBlock> & ys = y_storage();
  MB & m = blank( ys );
  neighbours( m );
  context( m.context_ );
  TwoDStorage<UVBlock> & us = storage_over( &raw<UVBlock>( 4 ), 2, 2, 4 );
  new ( &m.U_ ) TwoDSubRange<UVBlock, 2, 2>( &us, 0, 0 );
  m.header_.partition_id.initialized_ = false;
  const Census c = spec( m.header_.motion_vectors_flipped_ );
  gets = components = subs = 0;
  const unsigned layout = vp_cases( vp_u8( "layout" ) % 4, 0, 3 );
  for ( unsigned i = 0; i < 4; i++ ) { REQUIRES( vp_bool( "bit", i ) ); }
  /* 16 parts: 0; quarters: 10; halves: 110 (top and bottom), 111 (left and right) */
  static const uint8_t path[ 4 ][ 4 ] = { { 1, 1, 0, 9 }, { 1, 1, 1, 9 }, { 1, 0, 9 }, { 0, 9 } };
  unsigned len = 0;
  for ( ; path[ layout ][ len ] != 9; len++ ) { REQUIRES( vp_bool( "bit", 4 + len ) == path[ layout ][ len ] ); }
  m.decode_prediction_modes( raw<BoolDecoder>(), raw<ProbabilityTables>(), false );
  for ( unsigned i = 0; i < 4; i++ ) { ENSURES( asked[ i ] == rfc_mv_counts_to_probs[ 4 * c.count[ i ] + i ], "modes are decoded with the probabilities selected by the census" ); }
  for ( unsigned i = 0; i < len; i++ ) { ENSURES( asked[ 4 + i ] == rfc_split_mv_probs[ i ], "the layout is decoded with its fixed probabilities" ); }
  ENSURES( gets == 4 + len, "nothing else is decoded" );
  ENSURES( m.Y2_.prediction_mode() == SPLITMV and not m.Y2_.coded_, "a split macroblock has no second-order block" );
  const uint8_t * const part = layout == 0 ? rfc_split_0 : layout == 1 ? rfc_split_1 : layout == 2 ? rfc_split_2 : rfc_split_3;
  const unsigned parts = layout < 2 ? 2 : layout == 2 ? 4 : 16;
  ENSURES( subs == parts, "one vector is decoded per part" );
  const MVec b = clamped( c.best );
  unsigned next = 0;
  for ( unsigned i = 0; i < 16; i++ ) {
    YBlock & y = m.Y_.at( i % 4, i / 4 );
    if ( part[ i ] == next ) {
      ENSURES( sub[ next ] == &y, "a part's vector is decoded at its first subblock" );
      ENSURES( same( sub_best[ next ], b ), "relative to the clamped best vector" );
      next++;
    }
    const MVec v = { vp_s16( "sub_x", part[ i ] ), vp_s16( "sub_y", part[ i ] ) };
    ENSURES( same( get( y.motion_vector() ), v ), "every subblock of a part moves with it" );
    ENSURES( y.prediction_mode() == (bmode) ( LEFT4X4 + ( vp_u8( "sub_mode", part[ i ] ) & 3 ) ), "every subblock of a part has its mode" );
    ENSURES( y.type_ == Y_without_Y2, "luma subblocks carry their own first coefficient" );
  }
  for ( unsigned i = 0; i < 4; i++ ) {
    const unsigned x = 2 * ( i % 2 ), y = 2 * ( i / 2 );
    const MVec w = average( get( m.Y_.at( x, y ).motion_vector() ), get( m.Y_.at( x + 1, y ).motion_vector() ),
                            get( m.Y_.at( x, y + 1 ).motion_vector() ), get( m.Y_.at( x + 1, y + 1 ).motion_vector() ) );
    ENSURES( same( get( m.U_.at( i % 2, i / 2 ).motion_vector() ), w ), "chroma vectors are averages of the luma vectors" );
  }
  COVER( "split" );
}
