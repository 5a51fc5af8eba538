// Saving and restoring the last reference picture (sizes fixed, every pixel value).
#include <cstring>
#include "vp.h"
#include "vp_vec.h"
#include "raw.h"
#include "decoder_sources.h"
#include "prediction.cc"
#include "decoder.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/probability_tables.cc src/util/raster.cc src/decoder/raster_handle.cc
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ flags: -I/repo/src/decoder

static EncoderStateDeserializer & reader( const uint8_t * p, const uint64_t n )
{
  EncoderStateDeserializer & d = raw<EncoderStateDeserializer>();
  d.ptr_ = 0;
  static_cast<File &>( d ).size_ = n;
  new ( &static_cast<File &>( d ).chunk_ ) Chunk( p, n );
  return d;
}

PROOF( bounded_last_picture )
{
  const unsigned W = 20, H = 9; // displayed; 32 x 16 stored
  MutableRasterHandle & m = *new MutableRasterHandle( W, H );
  VP8Raster & a = m.get();
  for ( unsigned i = 0; i < 512; i++ ) { a.Y().at( i % 32, i / 32 ) = vp_u8( "luma", i ); }
  for ( unsigned i = 0; i < 128; i++ ) { a.U().at( i % 16, i / 16 ) = vp_u8( "cb", i ); a.V().at( i % 16, i / 16 ) = vp_u8( "cr", i ); }
  const References & r = *new References( std::move( m ) );
  EncoderStateSerializer & out = *new EncoderStateSerializer();
  const uint64_t written = r.serialize( out );
  ENSURES( written == out.data_.size(), "the length reported is the length written" );
  bool ok = true;
  try {
    EncoderStateDeserializer & in = reader( out.data_.data(), out.data_.size() );
    const References & t = *new References( References::deserialize( in ) );
    COVER( "restored" );
    ENSURES( in.ptr_ == out.data_.size(), "restoring consumes exactly what was saved" );
    const VP8Raster & b = t.last.get();
    ENSURES( b.display_width() == W and b.display_height() == H, "the picture has its size" );
    for ( unsigned i = 0; i < 512; i++ ) { ENSURES( b.Y().at( i % 32, i / 32 ) == vp_u8( "luma", i ), "luma is restored" ); }
    for ( unsigned i = 0; i < 128; i++ ) {
      ENSURES( b.U().at( i % 16, i / 16 ) == vp_u8( "cb", i ), "blue chroma is restored" );
      ENSURES( b.V().at( i % 16, i / 16 ) == vp_u8( "cr", i ), "red chroma is restored" );
    }
    ENSURES( &t.golden.get() == &b and &t.alternative.get() == &b, "the other references start as the last one" );
  } catch ( const std::exception & ) {
    ok = false;
  }
  ENSURES( ok, "a saved picture can be restored" );
}
