// Motion-compensated prediction: the sixtap filter over the reference picture, extended from its edges (RFC 6386 section 18).
#include <cstring>
#include <type_traits>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "prediction.cc"
//@ flags: -I/repo/src/decoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ trusted: the assembly filters (vp8_filter_block1d*_ssse3) are taken at their contract, one sixtap pass of RFC 6386 over the pixels they are pointed at
//@ replace: TwoDStorage<unsigned char>::at\(unsigned int, unsigned int\)( const)? => pixel
//@ replace: SafeRaster::at\(int, int\) const => safe_pixel
//@ replace: SafeRaster::stride\(\) const => safe_stride

static const int taps[ 8 ][ 6 ] = { { 0, 0, 128, 0, 0, 0 }, { 0, -6, 123, 12, -1, 0 }, { 2, -11, 108, 36, -8, 1 }, { 0, -9, 93, 50, -6, 0 },
  { 3, -16, 77, 77, -16, 3 }, { 0, -6, 50, 93, -9, 0 }, { 1, -8, 36, 108, -11, 2 }, { 0, -1, 12, 123, -6, 0 } };
static uint8_t clamp_( const int x ) { return x < 0 ? 0 : x > 255 ? 255 : x; }
__attribute__(( noinline )) static uint8_t sixtap( const unsigned f, const uint8_t a, const uint8_t b, const uint8_t c, const uint8_t d, const uint8_t e, const uint8_t g )
{
  const int * const t = taps[ f ];
  return clamp_( ( a * t[ 0 ] + b * t[ 1 ] + c * t[ 2 ] + d * t[ 3 ] + e * t[ 4 ] + g * t[ 5 ] + 64 ) >> 7 );
}
PROOF( prove_whole_pixels )
{
  uint8_t p[ 6 ]; vp_fill( p, 6, "p" );
  ENSURES( sixtap( 0, p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], p[ 4 ], p[ 5 ] ) == p[ 2 ], "a filter for a displacement by whole pixels changes nothing" );
  COVER( "whole" );
}
/* the source of the prediction: the block displaced by whole pixels, and the pixels within the reach of the filter around it */
static uint8_t source[ 21 ][ 21 ];
static uint8_t expected( const unsigned N, const unsigned mx, const unsigned my, const unsigned c, const unsigned r )
{
  uint8_t v[ 6 ]; (void) N;
  for ( unsigned i = 0; i < 6; i++ ) { const uint8_t * const s = source[ r + i ] + c; v[ i ] = sixtap( mx, s[ 0 ], s[ 1 ], s[ 2 ], s[ 3 ], s[ 4 ], s[ 5 ] ); }
  return sixtap( my, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
}
static const TwoDStorage<uint8_t> * ref_storage, * out_storage;
static uint8_t * ref_pixels, * out_pixels;
static unsigned W, H, ref_c, ref_r, out_c, out_r;
extern "C" uint8_t * pixel( const TwoDStorage<uint8_t> * s, const unsigned column, const unsigned row )
{
  ENSURES( column < s->width_ and row < s->height_, "only pixels of a picture are addressed" );
  return s == ref_storage ? ref_pixels + (uint64_t) ( row - ref_r ) * W + ( column - ref_c ) : out_pixels + (uint64_t) ( row - out_r ) * W + ( column - out_c );
}
/* SafeRaster::at and stride at their contract (border.cc): the pixels extended by the border, rows stride apart */
static unsigned safe_width;
extern "C" const uint8_t * safe_pixel( const SafeRaster *, const int column, const int row ) 
{
  const int r = row - (int) ref_r, c = column - (int) ref_c;
  return ref_pixels + (int64_t) r * (int64_t) safe_width + c;
}
extern "C" unsigned safe_stride( const SafeRaster * ) { return safe_width; }

// ------------------------------------------------------------ the portable filter
struct Around { int column, row; uint8_t at( const int c, const int r ) const { return source[ r - row ][ c - column ]; } };
template <unsigned N> static void portable( const unsigned mx, const unsigned my )
{
  typedef VP8Raster::Block<N> B;
  B & block = raw<B>();
  static uint8_t out[ N + 2 ][ N + 2 ];
  vp_fill( out, sizeof( out ), "out" );
  uint8_t was[ N + 2 ][ N + 2 ]; memcpy( was, out, sizeof( out ) );
  TwoDStorage<uint8_t> & st = storage_over( &out[ 0 ][ 0 ], N + 2, N + 2, sizeof( out ) );
  W = N + 2; ref_storage = nullptr; out_pixels = &out[ 0 ][ 0 ]; out_c = out_r = 0;
  vp_fill( source, sizeof( source ), "source" );
  TwoDSubRange<uint8_t, N, N> o( &st, 1, 1 );
  const MotionVector mv( 8 * vp_s16( "x" ) + mx, 8 * vp_s16( "y" ) + my );
  const int column = vp_s32( "column" ), row = vp_s32( "row" );
  REQUIRES( column > -100000 and column < 100000 and row > -100000 and row < 100000 );
  const Around reference { column - 2, row - 2 };
  block.safe_inter_predict( mv, reference, column, row, o );
  bool ok = true, rest = true;
  for ( unsigned r = 0; r < N + 2; r++ ) { for ( unsigned c = 0; c < N + 2; c++ ) {
    if ( r > 0 and r <= N and c > 0 and c <= N ) { ok &= out[ r ][ c ] == expected( N, mx, my, c - 1, r - 1 ); }
    else { rest &= out[ r ][ c ] == was[ r ][ c ]; }
  } }
  ENSURES( ok, "every pixel is the filtered one" );
  ENSURES( rest, "nothing outside the block changes" );
  COVER( "filtered" );
}
PROOF( prove_portable_4_0 ) { portable<4>( 0, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_1 ) { portable<4>( 1, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_2 ) { portable<4>( 2, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_3 ) { portable<4>( 3, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_4 ) { portable<4>( 4, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_5 ) { portable<4>( 5, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_6 ) { portable<4>( 6, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_4_7 ) { portable<4>( 7, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_0 ) { portable<8>( 0, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_1 ) { portable<8>( 1, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_2 ) { portable<8>( 2, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_3 ) { portable<8>( 3, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_4 ) { portable<8>( 4, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_5 ) { portable<8>( 5, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_6 ) { portable<8>( 6, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_8_7 ) { portable<8>( 7, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_0 ) { portable<16>( 0, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_1 ) { portable<16>( 1, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_2 ) { portable<16>( 2, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_3 ) { portable<16>( 3, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_4 ) { portable<16>( 4, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_5 ) { portable<16>( 5, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_6 ) { portable<16>( 6, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }
PROOF( prove_portable_16_7 ) { portable<16>( 7, vp_cases( vp_u8( "my" ) & 7, 0, 7 ) ); }

// ------------------------------------------------------------ outside the picture: its nearest pixel
PROOF( prove_extended )
{
  W = vp_u16( "width" ); H = vp_u16( "height" );
  REQUIRES( W > 0 and H > 0 );
  if ( not vp_symbolic() ) { W = 1 + W % 50; H = 1 + H % 50; }
  const uint64_t n = (uint64_t) W * H;
  ref_pixels = vp_bytes( "picture", n ); ref_c = ref_r = 0;
  TwoDStorage<uint8_t> & st = storage_over( ref_pixels, W, H, n );
  ref_storage = &st;
  const int column = vp_s32( "column" ), row = vp_s32( "row" );
  const int c = column < 0 ? 0 : column >= (int) W ? (int) W - 1 : column, r = row < 0 ? 0 : row >= (int) H ? (int) H - 1 : row;
  if ( vp_symbolic() ) {
    /* only the nearest pixel exists */
    ref_pixels = vp_bytes( "nearest", 1 ); ref_c = c; ref_r = r;
  }
  const TwoD<uint8_t> & picture = twod_at( raw<TwoD<uint8_t>>(), st );
  const uint8_t got = EdgeExtendedRaster( picture ).at( column, row );
  ENSURES( got == ( vp_symbolic() ? ref_pixels[ 0 ] : ref_pixels[ r * W + c ] ), "the nearest pixel of the picture" );
  COVER( "extended" );
}

// ------------------------------------------------------------ which filter, over which pixels
static unsigned position( const char * name, const unsigned most ) { const unsigned p = vp_u16( name ); return vp_symbolic() ? p : p % most; }
static const uint8_t * asm_dst;
static uint8_t painted[ 16 ][ 16 ];
typedef const uint8_t * Px;
template <unsigned N> static void pass( const bool horizontal, Px src, const unsigned ppl, Px dst, const unsigned pitch, const unsigned rows, const unsigned f )
{
  const uint64_t step = horizontal ? 1 : ppl;
  if ( horizontal ) { src -= 2; }
  for ( unsigned r = 0; r < rows; r++ ) { for ( unsigned c = 0; c < N; c++ ) {
    const uint8_t * const s = src + (uint64_t) r * ppl + c;
    const uint8_t v = sixtap( f, s[ 0 ], s[ step ], s[ 2 * step ], s[ 3 * step ], s[ 4 * step ], s[ 5 * step ] );
    if ( dst == asm_dst ) { painted[ r ][ c ] = v; }
    if ( dst != asm_dst or not vp_symbolic() ) { const_cast<uint8_t *>( dst )[ (uint64_t) r * pitch + c ] = v; }
  } }
  if ( dst == asm_dst ) { ENSURES( rows == N and pitch == W, "the last pass fills the block" ); }
}
#define PASS( N ) \
  extern "C" void vp8_filter_block1d##N##_h6_ssse3( Px s, const unsigned ppl, Px d, const unsigned pitch, const unsigned rows, const unsigned f ) { pass<N>( true, s, ppl, d, pitch, rows, f ); } \
  extern "C" void vp8_filter_block1d##N##_v6_ssse3( Px s, const unsigned ppl, Px d, const unsigned pitch, const unsigned rows, const unsigned f ) { pass<N>( false, s, ppl, d, pitch, rows, f ); }
PASS( 4 ) PASS( 8 ) PASS( 16 )

/* unsafe_inter_predict: everything the filter reaches lies in the picture */
template <unsigned N> static void fast( const unsigned mx )
{
  typedef VP8Raster::Block<N> B;
  const unsigned unit = 8;
  const unsigned my = vp_cases( vp_u8( "my" ) & 7, 0, 7 );
  W = unit * ( 1 + position( "mb_width", 6 ) ); H = unit * ( 1 + position( "mb_height", 6 ) );
  REQUIRES( W <= 16384 and H <= 16384 );
  const int column = position( "column", W ), row = position( "row", H ), x = position( "x", W ), y = position( "y", H );
  REQUIRES( column >= 2 and row >= 2 and column + N + 3 <= W and row + N + 3 <= H and x + N <= W and y + N <= H );
  TwoDStorage<uint8_t> & st = raw<TwoDStorage<uint8_t>>(), & ost = raw<TwoDStorage<uint8_t>>();
  st.width_ = ost.width_ = W; st.height_ = ost.height_ = H;
  ref_storage = &st; out_storage = &ost;
  ref_c = column - 2; ref_r = row - 2; out_c = x; out_r = y;
  if ( vp_symbolic() ) {
    ref_pixels = vp_bytes( "ref", (uint64_t) ( N + 4 ) * W + N + 5 );
    out_pixels = vp_bytes( "out", (uint64_t) ( N - 1 ) * W + N );
  } else {
    uint8_t * const all = vp_bytes( "ref", W * H ), * const out = vp_bytes( "out", W * H );
    memcpy( (void *) &st, &storage_over( all, W, H, W * H ), sizeof( st ) ); memcpy( (void *) &ost, &storage_over( out, W, H, W * H ), sizeof( ost ) );
    ref_pixels = all + ref_r * W + ref_c; out_pixels = out + y * W + x;
  }
  asm_dst = out_pixels;
  for ( unsigned r = 0; r < N + 5; r++ ) { for ( unsigned c = 0; c < N + 5; c++ ) { source[ r ][ c ] = ref_pixels[ (uint64_t) r * W + c ]; } }
  const TwoD<uint8_t> & picture = twod_at( raw<TwoD<uint8_t>>(), st );
  TwoDSubRange<uint8_t, N, N> o( &ost, x, y );
  const MotionVector mv( 8 * vp_s16( "x" ) + mx, 8 * vp_s16( "y" ) + my );
  raw<B>().unsafe_inter_predict( mv, picture, column, row, o );
  bool ok = true;
  for ( unsigned r = 0; r < N; r++ ) { for ( unsigned c = 0; c < N; c++ ) {
    ok &= ( mx or my ? painted[ r ][ c ] : out_pixels[ (uint64_t) r * W + c ] ) == expected( N, mx, my, c, r );
  } }
  ENSURES( ok, "every pixel is the filtered one" );
  COVER( "filtered" );
}

/* the encoder's, over a picture with a border */
static void bordered( const unsigned mx )
{
  if ( not vp_symbolic() ) { return; }
  const unsigned N = 16;
  typedef VP8Raster::Block<16> B;
  const unsigned my = vp_cases( vp_u8( "my" ) & 7, 0, 7 );
  B & block = raw<B>();
  block.column_ = vp_u16( "column" ); block.row_ = vp_u16( "row" );
  REQUIRES( block.column_ < 1024 and block.row_ < 1024 );
  const int16_t x = 8 * vp_s16( "x" ) + mx, y = 8 * vp_s16( "y" ) + my;
  const int column = 16 * block.column_ + ( x >> 3 ), row = 16 * block.row_ + ( y >> 3 );
  W = 8 * ( 1 + vp_u16( "mb_width" ) ); safe_width = 16 * vp_u16( "mb_border" );
  REQUIRES( W <= 16384 and safe_width <= 16384 + 512 );
  TwoDStorage<uint8_t> & ost = raw<TwoDStorage<uint8_t>>();
  ost.width_ = W; ost.height_ = vp_u16( "height" );
  out_storage = &ost; ref_storage = nullptr;
  out_c = vp_u16( "out_c" ); out_r = vp_u16( "out_r" );
  REQUIRES( out_c + 16 <= ost.width_ and out_r + 16 <= ost.height_ );
  ref_c = column - 2; ref_r = row - 2;
  ref_pixels = vp_bytes( "ref", (uint64_t) ( N + 4 ) * safe_width + N + 5 );
  out_pixels = vp_bytes( "out", (uint64_t) ( N - 1 ) * W + N );
  asm_dst = out_pixels;
  for ( unsigned r = 0; r < N + 5; r++ ) { for ( unsigned c = 0; c < N + 5; c++ ) { source[ r ][ c ] = ref_pixels[ (uint64_t) r * safe_width + c ]; } }
  TwoDSubRange<uint8_t, N, N> o( &ost, out_c, out_r );
  block.inter_predict( MotionVector( x, y ), raw<SafeRaster>(), o );
  bool ok = true;
  for ( unsigned r = 0; r < N; r++ ) { for ( unsigned c = 0; c < N; c++ ) {
    ok &= ( mx or my ? painted[ r ][ c ] : out_pixels[ (uint64_t) r * W + c ] ) == expected( N, mx, my, c, r );
  } }
  ENSURES( ok, "every pixel is the filtered one" );
  COVER( "filtered" );
}
PROOF( prove_fast_4_0 ) { fast<4>( 0 ); }
PROOF( prove_fast_8_0 ) { fast<8>( 0 ); }
PROOF( prove_fast_16_0 ) { fast<16>( 0 ); }
PROOF( prove_bordered_0 ) { bordered( 0 ); }
PROOF( prove_fast_4_1 ) { fast<4>( 1 ); }
PROOF( prove_fast_8_1 ) { fast<8>( 1 ); }
PROOF( prove_fast_16_1 ) { fast<16>( 1 ); }
PROOF( prove_bordered_1 ) { bordered( 1 ); }
PROOF( prove_fast_4_2 ) { fast<4>( 2 ); }
PROOF( prove_fast_8_2 ) { fast<8>( 2 ); }
PROOF( prove_fast_16_2 ) { fast<16>( 2 ); }
PROOF( prove_bordered_2 ) { bordered( 2 ); }
PROOF( prove_fast_4_3 ) { fast<4>( 3 ); }
PROOF( prove_fast_8_3 ) { fast<8>( 3 ); }
PROOF( prove_fast_16_3 ) { fast<16>( 3 ); }
PROOF( prove_bordered_3 ) { bordered( 3 ); }
PROOF( prove_fast_4_4 ) { fast<4>( 4 ); }
PROOF( prove_fast_8_4 ) { fast<8>( 4 ); }
PROOF( prove_fast_16_4 ) { fast<16>( 4 ); }
PROOF( prove_bordered_4 ) { bordered( 4 ); }
PROOF( prove_fast_4_5 ) { fast<4>( 5 ); }
PROOF( prove_fast_8_5 ) { fast<8>( 5 ); }
PROOF( prove_fast_16_5 ) { fast<16>( 5 ); }
PROOF( prove_bordered_5 ) { bordered( 5 ); }
PROOF( prove_fast_4_6 ) { fast<4>( 6 ); }
PROOF( prove_fast_8_6 ) { fast<8>( 6 ); }
PROOF( prove_fast_16_6 ) { fast<16>( 6 ); }
PROOF( prove_bordered_6 ) { bordered( 6 ); }
PROOF( prove_fast_4_7 ) { fast<4>( 7 ); }
PROOF( prove_fast_8_7 ) { fast<8>( 7 ); }
PROOF( prove_fast_16_7 ) { fast<16>( 7 ); }
PROOF( prove_bordered_7 ) { bordered( 7 ); }
