// Pictures with a border (for the encoder's motion search): the picture, its edge repeated around it.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#include "safe_raster.cc"
#include "safe_references.cc"
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ sources: src/decoder/raster_handle.cc
//@ opts: max_iter=400000

static void bordered( const unsigned width, const unsigned height )
{
  VP8Raster & picture = raw<VP8Raster>();
  const unsigned W = ( width + 15 ) / 16 * 16, H = ( height + 15 ) / 16 * 16;
  picture.width_ = W; picture.height_ = H; picture.display_width_ = width; picture.display_height_ = height;
  uint8_t * const px = vp_bytes( "picture", W * H );
  twod_at( picture.Y_, storage_over( px, W, H, W * H ) );
  if ( not vp_symbolic() ) { RasterPoolDebug::allow_resize = true; }
  MutableSafeRasterHandle & h = *new MutableSafeRasterHandle( SafeReferences::load( picture ) );
  const SafeRaster & s = h.get();
  ENSURES( s.stride() >= W + 512, "room for the border" );
  bool ok = true, rows = true;
  for ( int r = -256; r < (int) H + 256; r++ ) { for ( int c = -256; c < (int) W + 256; c++ ) {
    /* all of some rows, the ends and the picture's part of all of them */
    const bool whole = r == -256 or r == -1 or r == 0 or r == (int) H - 1 or r == (int) H or r == (int) H + 255;
    if ( vp_symbolic() and not whole and ( c == -254 or c == (int) W + 2 ) ) { c += 250; }
    const int bc = c < 0 ? 0 : c >= (int) W ? (int) W - 1 : c, br = r < 0 ? 0 : r >= (int) H ? (int) H - 1 : r;
    ok &= s.at( c, r ) == px[ br * W + bc ];
    if ( r >= 0 and r < (int) H ) { rows &= &s.at( c, r ) == &s.at( 0, 0 ) + r * (int) s.stride() + c; }
  } }
  ENSURES( ok, "every pixel within the border is the nearest one of the picture" );
  ENSURES( rows, "rows are a stride apart" );
  COVER( "bordered" );
}
PROOF( bounded_border_16x16 ) { bordered( 16, 16 ); }
PROOF( bounded_border_20x5 ) { bordered( 20, 5 ); }
