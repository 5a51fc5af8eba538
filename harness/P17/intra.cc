// Intra prediction: the pixels a block is predicted from, and what each mode makes of them (RFC 6386 section 12).
#include <cstring>
#include <type_traits>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "prediction.cc"
//@ flags: -I/repo/src/decoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ trusted: the assembly predictors (vpx_*_predictor_*) are taken at their contract, the formulas of RFC 6386: what is proved is that each is reached for exactly its mode with the block, its stride and its neighbours
//@ replace: TwoDStorage<unsigned char>::at\(unsigned int, unsigned int\)( const)? => pixel

/* A picture of any size, of which a window around the block exists.  TwoDStorage::at is taken at its contract
   (prove_addressing): it is asked for pixels of the picture only and answers with that pixel, rows being contiguous. */
static const unsigned SPAN = 40;
static uint8_t window[ 33 ][ SPAN ], before[ 33 ][ SPAN ];
static unsigned c0, r0, W, H; /* the window's corner, the picture's size; c0 and r0 may be "negative" */
static TwoD<uint8_t> * real_plane;
extern "C" uint8_t * pixel( const TwoDStorage<uint8_t> * s, const unsigned column, const unsigned row )
{
  ENSURES( column < s->width_ and row < s->height_, "only pixels of the picture are addressed" );
  return &window[ row - r0 ][ column - c0 ];
}
static uint8_t px( const unsigned column, const unsigned row ) { return vp_symbolic() ? window[ row - r0 ][ column - c0 ] : real_plane->at( column, row ); }

static TwoD<uint8_t> & plane( const unsigned unit, const unsigned corner_c, const unsigned corner_r, const unsigned block_c, const unsigned block_r, const unsigned size )
{
  const unsigned mw = vp_u16( "mb_width" ), mh = vp_u16( "mb_height" );
  if ( vp_symbolic() ) { REQUIRES( mw <= 1024 and mh <= 1024 ); }
  W = unit * ( vp_symbolic() ? mw : 1 + mw % 4 ); H = unit * ( vp_symbolic() ? mh : 1 + mh % 4 );
  REQUIRES( size * block_c < W and size * block_r < H );
  c0 = corner_c; r0 = corner_r;
  if ( vp_symbolic() ) {
    vp_fill( window, sizeof( window ), "window" );
    memcpy( before, window, sizeof( window ) );
    TwoDStorage<uint8_t> & st = raw<TwoDStorage<uint8_t>>();
    st.width_ = W; st.height_ = H;
    return twod_at( raw<TwoD<uint8_t>>(), st );
  }
  real_plane = new TwoD<uint8_t>( W, H );
  unsigned i = 0;
  real_plane->forall( [&] ( uint8_t & p ) { p = vp_u8( "pixel", i++ ); } );
  return *real_plane;
}
static unsigned position( const char * name ) { const unsigned p = vp_u16( name ); return vp_symbolic() ? p : p % 16; }

template <unsigned size> static void edges( const unsigned unit, const unsigned b )
{
  typedef VP8Raster::Block<size> B;
  const unsigned column = position( "column" ), hi = position( "row" ), row = size == 4 ? 4 * ( hi / 4 ) + b : hi;
  const unsigned mb_top = size == 4 ? row / 4 * 16 : row * size;
  /* window: from the row above the macroblock, and from the column left of the block */
  TwoD<uint8_t> & p = plane( unit, size * column - 1, mb_top - 1, column, row, size );
  const B block( column, row, p );
  const auto & e = block.predictors();
  ENSURES( e.above == e.above_storage + 16, "the neighbours above are those stored" );
  const unsigned x = size * column, y = size * row;
  const uint8_t * const a = e.above_storage + 16;
  ENSURES( a[ -1 ] == ( row == 0 ? 127 : column == 0 ? 129 : px( x - 1, y - 1 ) ), "the corner" );
  bool left = true, up = true, right = true;
  for ( unsigned i = 0; i < size; i++ ) {
    left &= e.left[ i ] == ( column == 0 ? 129 : px( x - 1, y + i ) );
    up &= a[ i ] == ( row == 0 ? 127 : px( x + i, y - 1 ) );
  }
  ENSURES( left, "left neighbours" );
  ENSURES( up, "neighbours above" );
  if ( size == 4 ) {
    /* the subblock's own right neighbour above; at the macroblock's right edge, the row above the macroblock */
    const unsigned from = column % 4 == 3 ? mb_top : y;
    for ( unsigned i = 0; i < 4; i++ ) {
      right &= a[ 4 + i ] == ( from == 0 ? 127 : x + 4 >= W ? px( x + 3, from - 1 ) : px( x + 4 + i, from - 1 ) );
    }
    ENSURES( right, "neighbours above and to the right" );
    if ( x + 4 >= W and row >= 4 ) { COVER( "right edge of the picture" ); }
    if ( x + 4 < W and row >= 4 and column % 4 == 3 ) { COVER( "right edge of a macroblock" ); }
  }
  if ( row == 0 and column ) { COVER( "top row" ); }
  if ( column == 0 and row ) { COVER( "left column" ); }
  if ( column and row ) { COVER( "inside" ); }
}
PROOF( prove_edges_4_row0 ) { edges<4>( 16, 0 ); }
PROOF( prove_edges_4_row1 ) { edges<4>( 16, 1 ); }
PROOF( prove_edges_4_row2 ) { edges<4>( 16, 2 ); }
PROOF( prove_edges_4_row3 ) { edges<4>( 16, 3 ); }
PROOF( prove_edges_8 ) { edges<8>( 8, 0 ); }
PROOF( prove_edges_16 ) { edges<16>( 16, 0 ); }

// ------------------------------------------------------------ what the modes make of any neighbours
typedef const uint8_t * Px;
static unsigned stride_of( const ptrdiff_t stride ) { return vp_symbolic() ? SPAN : stride; }
template <unsigned N> static void paint( uint8_t * d, const ptrdiff_t stride, const uint8_t ( & v )[ N ][ N ] )
{
  ENSURES( stride == W, "the assembly is told the picture's stride" );
  for ( unsigned r = 0; r < N; r++ ) { for ( unsigned c = 0; c < N; c++ ) { d[ r * stride_of( stride ) + c ] = v[ r ][ c ]; } }
}
static uint8_t clamp_( const int x ) { return x < 0 ? 0 : x > 255 ? 255 : x; }
static uint8_t a2( const unsigned x, const unsigned y ) { return ( x + y + 1 ) / 2; }
static uint8_t a3( const unsigned x, const unsigned y, const unsigned z ) { return ( x + y + y + z + 2 ) / 4; }
enum { DC, DC_TOP, DC_LEFT, DC_128, VERT, HORZ, TM };
template <unsigned N> static void macroblock_mode( const unsigned m, Px A, Px L, uint8_t ( & v )[ N ][ N ] )
{
  unsigned up = 0, left = 0;
  for ( unsigned i = 0; i < N; i++ ) { up += A[ i ]; left += L[ i ]; }
  const uint8_t dc = m == DC ? ( up + left + N ) / ( 2 * N ) : m == DC_TOP ? ( up + N / 2 ) / N : m == DC_LEFT ? ( left + N / 2 ) / N : 128;
  for ( unsigned r = 0; r < N; r++ ) { for ( unsigned c = 0; c < N; c++ ) {
    v[ r ][ c ] = m == VERT ? A[ c ] : m == HORZ ? L[ r ] : m == TM ? clamp_( L[ r ] + A[ c ] - A[ -1 ] ) : dc;
  } }
}
/* E: left from the bottom up, the corner, above from the left */
static void subblock_mode( const unsigned m, Px A, Px L, uint8_t ( & B )[ 4 ][ 4 ] )
{
  uint8_t E[ 13 ];
  for ( unsigned i = 0; i < 4; i++ ) { E[ i ] = L[ 3 - i ]; }
  for ( unsigned i = 0; i < 9; i++ ) { E[ 4 + i ] = A[ (int) i - 1 ]; }
  switch ( m ) {
  case B_DC_PRED: macroblock_mode<4>( DC, A, L, B ); break;
  case B_TM_PRED: macroblock_mode<4>( TM, A, L, B ); break;
  case B_VE_PRED: for ( int r = 0; r < 4; r++ ) { for ( int c = 0; c < 4; c++ ) { B[ r ][ c ] = a3( A[ c - 1 ], A[ c ], A[ c + 1 ] ); } } break;
  case B_HE_PRED: for ( int r = 0; r < 4; r++ ) { for ( int c = 0; c < 4; c++ ) { B[ r ][ c ] = a3( r ? L[ r - 1 ] : A[ -1 ], L[ r ], L[ r < 3 ? r + 1 : 3 ] ); } } break;
  case B_LD_PRED: for ( int r = 0; r < 4; r++ ) { for ( int c = 0; c < 4; c++ ) { B[ r ][ c ] = a3( A[ r + c ], A[ r + c + 1 ], A[ r + c < 6 ? r + c + 2 : 7 ] ); } } break;
  case B_RD_PRED: for ( int r = 0; r < 4; r++ ) { for ( int c = 0; c < 4; c++ ) { const int i = 4 - r + c; B[ r ][ c ] = a3( E[ i - 1 ], E[ i ], E[ i + 1 ] ); } } break;
  case B_VR_PRED:
    B[ 3 ][ 0 ] = a3( E[ 1 ], E[ 2 ], E[ 3 ] ); B[ 2 ][ 0 ] = a3( E[ 2 ], E[ 3 ], E[ 4 ] );
    for ( int c = 0; c < 4; c++ ) { B[ 0 ][ c ] = a2( E[ 4 + c ], E[ 5 + c ] ); B[ 1 ][ c ] = a3( E[ 3 + c ], E[ 4 + c ], E[ 5 + c ] ); }
    for ( int c = 1; c < 4; c++ ) { B[ 2 ][ c ] = B[ 0 ][ c - 1 ]; B[ 3 ][ c ] = B[ 1 ][ c - 1 ]; }
    break;
  case B_VL_PRED:
    for ( int c = 0; c < 4; c++ ) { B[ 0 ][ c ] = a2( A[ c ], A[ c + 1 ] ); B[ 1 ][ c ] = a3( A[ c ], A[ c + 1 ], A[ c + 2 ] ); }
    for ( int c = 0; c < 3; c++ ) { B[ 2 ][ c ] = B[ 0 ][ c + 1 ]; B[ 3 ][ c ] = B[ 1 ][ c + 1 ]; }
    B[ 2 ][ 3 ] = a3( A[ 4 ], A[ 5 ], A[ 6 ] ); B[ 3 ][ 3 ] = a3( A[ 5 ], A[ 6 ], A[ 7 ] );
    break;
  case B_HD_PRED:
    for ( int r = 0; r < 4; r++ ) { B[ r ][ 0 ] = a2( E[ 3 - r ], E[ 4 - r ] ); B[ r ][ 1 ] = a3( E[ 3 - r ], E[ 4 - r ], E[ 5 - r ] ); }
    for ( int r = 1; r < 4; r++ ) { B[ r ][ 2 ] = B[ r - 1 ][ 0 ]; B[ r ][ 3 ] = B[ r - 1 ][ 1 ]; }
    B[ 0 ][ 2 ] = a3( E[ 4 ], E[ 5 ], E[ 6 ] ); B[ 0 ][ 3 ] = a3( E[ 5 ], E[ 6 ], E[ 7 ] );
    break;
  default: /* B_HU_PRED */
    for ( int r = 0; r < 4; r++ ) { for ( int c = 0; c < 4; c++ ) {
      const int i = r + c / 2;
      B[ r ][ c ] = i >= 3 ? L[ 3 ] : c % 2 ? a3( L[ i ], L[ i + 1 ], L[ i + 2 < 4 ? i + 2 : 3 ] ) : a2( L[ i ], L[ i + 1 ] );
    } }
  }
}
#define MODE( name, N, m ) extern "C" void name( uint8_t * d, ptrdiff_t s, Px A, Px L ) { uint8_t v[ N ][ N ]; macroblock_mode<N>( m, A, L, v ); paint<N>( d, s, v ); }
#define MODES( N ) MODE( vpx_dc_predictor_##N##x##N##_sse2, N, DC ) MODE( vpx_dc_top_predictor_##N##x##N##_sse2, N, DC_TOP ) \
  MODE( vpx_dc_left_predictor_##N##x##N##_sse2, N, DC_LEFT ) MODE( vpx_dc_128_predictor_##N##x##N##_sse2, N, DC_128 ) \
  MODE( vpx_v_predictor_##N##x##N##_sse2, N, VERT ) MODE( vpx_h_predictor_##N##x##N##_sse2, N, HORZ ) MODE( vpx_tm_predictor_##N##x##N##_sse2, N, TM )
MODES( 4 ) MODES( 8 ) MODES( 16 )
extern "C" void vpx_d153_predictor_4x4_ssse3( uint8_t * d, ptrdiff_t s, Px A, Px L ) { uint8_t v[ 4 ][ 4 ]; subblock_mode( B_HD_PRED, A, L, v ); paint<4>( d, s, v ); }
extern "C" void vpx_d207_predictor_4x4_sse2( uint8_t * d, ptrdiff_t s, Px A, Px L ) { uint8_t v[ 4 ][ 4 ]; subblock_mode( B_HU_PRED, A, L, v ); paint<4>( d, s, v ); }

template <unsigned N> static void painted( const uint8_t ( & v )[ N ][ N ], const unsigned x, const unsigned y )
{
  bool exact = true, rest = true;
  for ( unsigned r = 0; r < N; r++ ) { for ( unsigned c = 0; c < N; c++ ) { exact &= px( x + c, y + r ) == v[ r ][ c ]; } }
  ENSURES( exact, "every pixel of the block is the one the format defines" );
  if ( vp_symbolic() ) {
    for ( unsigned r = 0; r < N + 2; r++ ) { for ( unsigned c = 0; c < N + 2; c++ ) {
      if ( r == 0 or r == N + 1 or c == 0 or c == N + 1 ) { rest &= window[ r ][ c ] == before[ r ][ c ]; }
    } }
  } else {
    unsigned i = 0;
    real_plane->forall_ij( [&] ( uint8_t & p, unsigned c, unsigned r ) { const uint8_t was = vp_u8( "pixel", i++ ); rest &= ( c - x < N and r - y < N ) or p == was; } );
  }
  ENSURES( rest, "nothing outside the block changes" );
}
template <unsigned N, class Mode> static void mode( const unsigned unit, const Mode m, void ( & spec )( unsigned, Px, Px, uint8_t ( & )[ N ][ N ] ), const unsigned as )
{
  typedef VP8Raster::Block<N> B;
  const unsigned column = position( "column" ), row = position( "row" );
  B & block = *new B( column, row, plane( unit, N * column - 1, N * row - 1, column, row, N ) );
  /* the neighbours are passed in: any */
  auto & e = raw<typename std::remove_reference<decltype( block.predictors() )>::type>();
  e.above = e.above_storage + 16;
  vp_fill( e.above_storage, 16 + 2 * N, "above" );
  vp_fill( e.left, N, "left" );
  block.intra_predict( m, e, block.mutable_contents() );
  uint8_t v[ N ][ N ];
  if ( N == 4 ) { spec( as, e.above, e.left, v ); }
  else { spec( as != DC ? as : column and row ? DC : row ? DC_TOP : column ? DC_LEFT : DC_128, e.above, e.left, v ); }
  painted<N>( v, N * column, N * row );
  COVER( "predicted" );
}
PROOF( prove_DC ) { mode<4, bmode>( 16, B_DC_PRED, subblock_mode, B_DC_PRED ); }
PROOF( prove_TM ) { mode<4, bmode>( 16, B_TM_PRED, subblock_mode, B_TM_PRED ); }
PROOF( prove_VE ) { mode<4, bmode>( 16, B_VE_PRED, subblock_mode, B_VE_PRED ); }
PROOF( prove_HE ) { mode<4, bmode>( 16, B_HE_PRED, subblock_mode, B_HE_PRED ); }
PROOF( prove_LD ) { mode<4, bmode>( 16, B_LD_PRED, subblock_mode, B_LD_PRED ); }
PROOF( prove_RD ) { mode<4, bmode>( 16, B_RD_PRED, subblock_mode, B_RD_PRED ); }
PROOF( prove_VR ) { mode<4, bmode>( 16, B_VR_PRED, subblock_mode, B_VR_PRED ); }
PROOF( prove_VL ) { mode<4, bmode>( 16, B_VL_PRED, subblock_mode, B_VL_PRED ); }
PROOF( prove_HD ) { mode<4, bmode>( 16, B_HD_PRED, subblock_mode, B_HD_PRED ); }
PROOF( prove_HU ) { mode<4, bmode>( 16, B_HU_PRED, subblock_mode, B_HU_PRED ); }
PROOF( prove_chroma_DC ) { mode<8, mbmode>( 8, DC_PRED, macroblock_mode<8>, DC ); }
PROOF( prove_luma_DC ) { mode<16, mbmode>( 16, DC_PRED, macroblock_mode<16>, DC ); }
PROOF( prove_chroma_V ) { mode<8, mbmode>( 8, V_PRED, macroblock_mode<8>, VERT ); }
PROOF( prove_luma_V ) { mode<16, mbmode>( 16, V_PRED, macroblock_mode<16>, VERT ); }
PROOF( prove_chroma_H ) { mode<8, mbmode>( 8, H_PRED, macroblock_mode<8>, HORZ ); }
PROOF( prove_luma_H ) { mode<16, mbmode>( 16, H_PRED, macroblock_mode<16>, HORZ ); }
PROOF( prove_chroma_TM ) { mode<8, mbmode>( 8, TM_PRED, macroblock_mode<8>, TM ); }
PROOF( prove_luma_TM ) { mode<16, mbmode>( 16, TM_PRED, macroblock_mode<16>, TM ); }
