// Motion-compensated prediction: the fast filter only ever sees what lies in the picture, and both see the displaced block.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "prediction.cc"
//@ flags: -I/repo/src/decoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: VP8Raster::Block<\d+u?>::unsafe_inter_predict\(.*\) const => fast
//@ replace: void VP8Raster::Block<\d+u?>::safe_inter_predict<EdgeExtendedRaster>\(.*\) const => portable

static unsigned fast_calls, portable_calls;
static int column_, row_;
static const void * block_, * out_, * picture_;
static int mx_, my_;
extern "C" void fast( const void * b, const MotionVector & mv, const TwoD<uint8_t> & picture, const int column, const int row, const void * out )
{ fast_calls++; block_ = b; column_ = column; row_ = row; picture_ = &picture; out_ = out; mx_ = mv.x(); my_ = mv.y(); }
extern "C" void portable( const void * b, const MotionVector & mv, const EdgeExtendedRaster & e, const int column, const int row, const void * out )
{ portable_calls++; block_ = b; column_ = column; row_ = row; picture_ = &e.master_; out_ = out; mx_ = mv.x(); my_ = mv.y(); }

template <unsigned N> static void dispatch()
{
  if ( not vp_symbolic() ) { return; }
  typedef VP8Raster::Block<N> B;
  B & block = raw<B>();
  const int W = N * vp_u16( "width" ), H = N * vp_u16( "height" );
  block.column_ = vp_u16( "column" ); block.row_ = vp_u16( "row" );
  REQUIRES( W <= 16384 and H <= 16384 and (int) ( N * block.column_ ) < W and (int) ( N * block.row_ ) < H );
  TwoDStorage<uint8_t> & st = raw<TwoDStorage<uint8_t>>();
  st.width_ = W; st.height_ = H;
  const TwoD<uint8_t> & picture = twod_at( raw<TwoD<uint8_t>>(), st );
  const int16_t x = vp_s16( "x" ), y = vp_s16( "y" );
  TwoDSubRange<uint8_t, N, N> & out = raw<TwoDSubRange<uint8_t, N, N>>();
  fast_calls = portable_calls = 0;
  block.inter_predict( MotionVector( x, y ), picture, out );
  const int c = (int) ( N * block.column_ ) + ( x >> 3 ), r = (int) ( N * block.row_ ) + ( y >> 3 );
  ENSURES( fast_calls + portable_calls == 1, "predicted once" );
  ENSURES( block_ == &block and picture_ == &picture and out_ == &out and mx_ == x and my_ == y, "by the block itself, from the picture it was given, into the block it was given" );
  ENSURES( column_ == c and row_ == r, "from the displaced position" );
  if ( fast_calls ) {
    ENSURES( c >= 2 and r >= 2 and c + (int) N + 3 <= W and r + (int) N + 3 <= H, "the fast filter only reaches pixels of the picture" );
    COVER( "fast" );
  } else { COVER( "portable" ); }
}
PROOF( prove_dispatch_4 ) { dispatch<4>(); }
PROOF( prove_dispatch_8 ) { dispatch<8>(); }
PROOF( prove_dispatch_16 ) { dispatch<16>(); }
