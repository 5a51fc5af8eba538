// Frame::copy_to: which reference pictures a frame replaces.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "frame.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;

static uint8_t pictures[ 4 ]; /* identities only; no picture is looked into */
static const void * id( const RasterHandle & h ) { return *reinterpret_cast<const void * const *>( &h ); }
static RasterHandle & handle( const unsigned i )
{
  const void ** p = reinterpret_cast<const void **>( operator new( sizeof( RasterHandle ) ) );
  p[ 0 ] = pictures + i; p[ 1 ] = nullptr;
  return *reinterpret_cast<RasterHandle *>( p );
}
/* references may already share pictures */
static References & some_references( const void * was[ 3 ] )
{
  References & r = *reinterpret_cast<References *>( operator new( sizeof( References ) ) );
  const unsigned g = vp_cases( vp_bool( "golden_is_last" ), 0, 1 ) ? 0 : 1;
  const unsigned a = vp_cases( vp_u8( "alternate_is" ) % 3, 0, 2 );
  new ( &r.last ) RasterHandle( handle( 0 ) );
  new ( &r.golden ) RasterHandle( handle( g ) );
  new ( &r.alternative ) RasterHandle( handle( a ) );
  was[ 0 ] = pictures; was[ 1 ] = pictures + g; was[ 2 ] = pictures + a;
  return r;
}

PROOF( prove_key )
{
  const void * was[ 3 ];
  References & r = some_references( was );
  raw<KeyFrame>().copy_to( handle( 3 ), r );
  ENSURES( id( r.last ) == pictures + 3 and id( r.golden ) == pictures + 3 and id( r.alternative ) == pictures + 3, "a key frame replaces every reference" );
  COVER( "key" );
}
PROOF( prove_inter )
{
  const void * was[ 3 ];
  References & r = some_references( was );
  InterFrame & f = raw<InterFrame>();
  InterFrameHeader & h = f.header_;
  h.refresh_golden_frame.i_ = vp_bool( "refresh_golden" );
  h.refresh_alternate_frame.i_ = vp_bool( "refresh_alternate" );
  h.refresh_last.i_ = vp_bool( "refresh_last" );
  h.copy_buffer_to_golden.initialized_ = not h.refresh_golden_frame.i_;
  h.copy_buffer_to_golden.object_.i_ = vp_u8( "copy_golden" ) & 3;
  h.copy_buffer_to_alternate.initialized_ = not h.refresh_alternate_frame.i_;
  h.copy_buffer_to_alternate.object_.i_ = vp_u8( "copy_alternate" ) & 3;
  const unsigned cg = h.copy_buffer_to_golden.object_.i_, ca = h.copy_buffer_to_alternate.object_.i_;
  const bool rg = h.refresh_golden_frame.i_, ra = h.refresh_alternate_frame.i_, rl = h.refresh_last.i_;
  const void * const last = was[ 0 ], * const golden = was[ 1 ], * const alternate = was[ 2 ];
  f.copy_to( handle( 3 ), r );

  const void * const copied = ra ? alternate : ca == 1 ? last : ca == 2 ? golden : alternate;
  ENSURES( id( r.last ) == ( rl ? pictures + 3 : last ), "last is replaced exactly when refreshed" );
  ENSURES( id( r.alternative ) == ( ra ? pictures + 3 : copied ), "alternate is refreshed, copied or kept as the header says" );
  ENSURES( id( r.golden ) == ( rg ? pictures + 3 : cg == 1 ? last : cg == 2 ? copied : golden ), "golden is refreshed, copied or kept as the header says" );
  ENSURES( h.refresh_last.i_ == rl and h.copy_buffer_to_golden.object_.i_ == cg and h.copy_buffer_to_alternate.object_.i_ == ca, "the header is only read" );
  COVER( "inter" );
}
