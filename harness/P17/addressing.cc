// Where the pixels, blocks and macroblocks of a picture lie.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#include "decoder_sources.h"
#include "prediction.cc"
//@ flags: -I/repo/src/decoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;

PROOF( prove_addressing )
{
  const unsigned w = vp_u16( "width" ), h = vp_u16( "height" ), c = vp_u16( "column" ), r = vp_u16( "row" );
  REQUIRES( w <= 16384 and h <= 16384 and c < w and r < h );
  if ( not vp_symbolic() and w * h > 1000000 ) { return; }
  const uint64_t n = (uint64_t) w * h;
  uint8_t * const pixels = vp_bytes( "pixels", n );
  TwoDStorage<uint8_t> & st = storage_over( pixels, w, h, n );
  const TwoDStorage<uint8_t> & cst = st;
  ENSURES( &st.at( c, r ) == pixels + (uint64_t) r * w + c and &cst.at( c, r ) == &st.at( c, r ), "rows follow one another" );
  COVER( "addressed" );
}
static bool at( const TwoD<uint8_t> & plane, const unsigned x, const unsigned y, const VP8Raster::Block4 & b )
{ return &b.raster_component_ == &plane and b.contents_.master_ == plane.storage_.get() and b.contents_.column_ == x and b.contents_.row_ == y and b.column_ == x / 4 and b.row_ == y / 4; }
PROOF( prove_macroblock )
{
  const unsigned column = vp_u16( "column" ), row = vp_u16( "row" );
  REQUIRES( column < 1024 and row < 1024 );
  VP8Raster & raster = raw<VP8Raster>();
  TwoDStorage<uint8_t> * const st[ 3 ] = { &storage_over<uint8_t>( nullptr, 16384, 16384, 0 ), &storage_over<uint8_t>( nullptr, 8192, 8192, 0 ), &storage_over<uint8_t>( nullptr, 8192, 8192, 0 ) };
  twod_at( raster.Y_, *st[ 0 ] ); twod_at( raster.U_, *st[ 1 ] ); twod_at( raster.V_, *st[ 2 ] );
  const VP8Raster::Macroblock & mb = *new VP8Raster::Macroblock( column, row, raster );
  const unsigned x = 16 * column, y = 16 * row;
  ENSURES( mb.Y.column() == column and mb.Y.row() == row and mb.Y.contents_.column_ == x and mb.Y.contents_.row_ == y
           and mb.Y.contents_.master_ == st[ 0 ] and &mb.Y.raster_component_ == &raster.Y_, "the luma of the macroblock" );
  ENSURES( mb.U.column() == column and mb.U.row() == row and mb.U.contents_.column_ == x / 2 and mb.U.contents_.row_ == y / 2
           and mb.U.contents_.master_ == st[ 1 ] and &mb.U.raster_component_ == &raster.U_, "its U plane" );
  ENSURES( mb.V.column() == column and mb.V.row() == row and mb.V.contents_.column_ == x / 2 and mb.V.contents_.row_ == y / 2
           and mb.V.contents_.master_ == st[ 2 ] and &mb.V.raster_component_ == &raster.V_, "its V plane" );
  bool luma = true, chroma = true;
  for ( unsigned r = 0; r < 4; r++ ) { for ( unsigned c = 0; c < 4; c++ ) { luma &= at( raster.Y_, x + 4 * c, y + 4 * r, mb.Y_sub_at( c, r ) ); } }
  for ( unsigned r = 0; r < 2; r++ ) { for ( unsigned c = 0; c < 2; c++ ) {
    chroma &= at( raster.U_, x / 2 + 4 * c, y / 2 + 4 * r, mb.U_sub_at( c, r ) ) and at( raster.V_, x / 2 + 4 * c, y / 2 + 4 * r, mb.V_sub_at( c, r ) );
  } }
  ENSURES( luma, "its sixteen luma subblocks" );
  ENSURES( chroma, "its chroma subblocks" );
  COVER( "macroblock" );
}
