// Encoder::write_frame: the encoder's idea of the decoder after a frame it writes is the decoder's state after reading that frame.
#include <cstring>
#include <type_traits>
#include "vp.h"
#include "raw.h"
#include "any_header.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "decoder.cc"
#include "encoder.cc"
#include "state_spec.h"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc src/decoder/probability_tables.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder -I/repo/src/input
//@ replace: VP8MutableRasterHandle<HashCachedRaster>::VP8MutableRasterHandle\(unsigned int, unsigned int\) => new_picture
//@ replace: VP8RasterHandle<HashCachedRaster>::VP8RasterHandle\(VP8MutableRasterHandle<HashCachedRaster>&&\) => freeze
//@ replace: ?RasterDeleter<.*>::operator\(\)\(.*\) const => discard
//@ replace: Frame<KeyFrameHeader, .*>::decode\(.*\) const => decode
//@ replace: Frame<InterFrameHeader, .*>::decode\(.*\) const => decode
//@ replace: Frame<KeyFrameHeader, .*>::loopfilter\(.*\) const => filter
//@ replace: Frame<InterFrameHeader, .*>::loopfilter\(.*\) const => filter
//@ replace: Frame<KeyFrameHeader, .*>::copy_to\(.*\) const => copy_
//@ replace: Frame<InterFrameHeader, .*>::copy_to\(.*\) const => copy_
//@ replace: Frame<KeyFrameHeader, .*>::serialize\(.*\) const => serialize
//@ replace: Frame<InterFrameHeader, .*>::serialize\(.*\) const => serialize
//@ replace: SafeReferences::load\(VP8Raster const&\) => bordered
//@ replace: VP8RasterHandle<SafeRaster>::VP8RasterHandle\(VP8MutableRasterHandle<SafeRaster>&&\) => freeze_bordered
//@ replace: References::References\(unsigned short, unsigned short\) => fresh_references

static uint8_t pictures[ 8 ], safe[ 8 ]; /* 0..2: the references before; 3: the new picture; 4..6: those of a fresh decoder */
template <class H> static const uint8_t * id( const H & h ) { return *reinterpret_cast<const uint8_t * const *>( &h ); }
template <class H> static H & handle( const void * to )
{
  const void ** p = reinterpret_cast<const void **>( operator new( sizeof( H ) ) );
  p[ 0 ] = to; p[ 1 ] = nullptr;
  return *reinterpret_cast<H *>( p );
}
static unsigned calls, decoded, filtered, copied, coded;
static const void * the_frame, * pic[ 3 ];
static const uint8_t * refs_at_decode[ 3 ];
static bool segmented_at_decode, segmented_at_filter, adjusted_at_filter;
static int8_t adjustment_at_filter[ 8 ];
static Flat coded_with;
static bool is_key;
static unsigned pic_w, pic_h, fresh;
static uint8_t code[ 3 ];

extern "C" void new_picture( MutableRasterHandle * m, const unsigned w, const unsigned h )
{
  pic_w = w; pic_h = h;
  memset( (void *) m, 0, sizeof( *m ) );
  std::get<0>( m->raster_._M_t._M_t ) = reinterpret_cast<HashCachedRaster *>( pictures + 3 );
}
extern "C" void freeze( RasterHandle * h, MutableRasterHandle && m )
{
  const void ** p = reinterpret_cast<const void **>( h );
  p[ 0 ] = m.raster_.release(); p[ 1 ] = nullptr;
}
extern "C" void discard( void *, void * ) {}
extern "C" void bordered( MutableSafeRasterHandle * m, const VP8Raster & from )
{
  const uint64_t k = reinterpret_cast<const uint8_t *>( &from ) - pictures;
  ENSURES( k < 8, "bordered copies are of pictures" );
  memset( (void *) m, 0, sizeof( *m ) );
  std::get<0>( m->raster_._M_t._M_t ) = reinterpret_cast<SafeRaster *>( safe + k );
}
extern "C" void freeze_bordered( SafeRasterHandle * h, MutableSafeRasterHandle && m )
{
  const void ** p = reinterpret_cast<const void **>( h );
  p[ 0 ] = m.raster_.release(); p[ 1 ] = nullptr;
}
extern "C" void fresh_references( References * r, const uint16_t, const uint16_t )
{
  fresh++;
  new ( &r->last ) RasterHandle( handle<RasterHandle>( pictures + 4 ) );
  new ( &r->golden ) RasterHandle( handle<RasterHandle>( pictures + 5 ) );
  new ( &r->alternative ) RasterHandle( handle<RasterHandle>( pictures + 6 ) );
}
extern "C" void decode( const void * f, const Optional<Segmentation> & s, const References & r, const VP8Raster & p )
{
  decoded = f == the_frame ? ++calls : 0; segmented_at_decode = s.initialized_; pic[ 0 ] = &p;
  refs_at_decode[ 0 ] = id( r.last ); refs_at_decode[ 1 ] = id( r.golden ); refs_at_decode[ 2 ] = id( r.alternative );
}
extern "C" void filter( const void * f, const Optional<Segmentation> & s, const Optional<FilterAdjustments> & a, const VP8Raster & p )
{
  filtered = f == the_frame ? ++calls : 0; segmented_at_filter = s.initialized_; adjusted_at_filter = a.initialized_; pic[ 1 ] = &p;
  for ( unsigned i = 0; i < 4; i++ ) { adjustment_at_filter[ i ] = a.object_.loopfilter_ref_adjustments.at( i ); adjustment_at_filter[ 4 + i ] = a.object_.loopfilter_mode_adjustments.at( i ); }
}
extern "C" void copy_( const void * f, const RasterHandle & h, References & r )
{
  copied = f == the_frame ? ++calls : 0; pic[ 2 ] = id( h );
  r.golden = h; /* stands for whatever the header asks for */
}
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::vector<uint8_t> serialize( const void * f, const ProbabilityTables & t )
{
  coded = f == the_frame ? ++calls : 0;
  flatten( t, coded_with );
  /* serialize adds the updates of the frame's own header (serialize.cc) */
  if ( is_key ) { add_tokens( coded_with, static_cast<const KeyFrame *>( f )->header_ ); }
  else { add_tokens( coded_with, static_cast<const InterFrame *>( f )->header_ ); add_modes( coded_with, static_cast<const InterFrame *>( f )->header_ ); }
  return std::vector<uint8_t>( code, code + 3 );
}
static Encoder & some_encoder( Before & b )
{
  Encoder & e = raw<Encoder>();
  new ( &e.decoder_state_ ) DecoderState( some_state( b ) );
  new ( &e.references_.last ) RasterHandle( handle<RasterHandle>( pictures ) );
  new ( &e.references_.golden ) RasterHandle( handle<RasterHandle>( pictures + 1 ) );
  new ( &e.references_.alternative ) RasterHandle( handle<RasterHandle>( pictures + 2 ) );
  new ( &e.safe_references_.last ) SafeRasterHandle( handle<SafeRasterHandle>( safe ) );
  new ( &e.safe_references_.golden ) SafeRasterHandle( handle<SafeRasterHandle>( safe + 1 ) );
  new ( &e.safe_references_.alternative ) SafeRasterHandle( handle<SafeRasterHandle>( safe + 2 ) );
  e.loop_filter_level_.initialized_ = vp_bool( "had_level" ); e.last_y_ac_qi_.initialized_ = vp_bool( "had_qi" );
  e.encode_quality_ = (EncoderQuality) ( vp_u8( "quality" ) & 1 );
  calls = decoded = filtered = copied = coded = 0;
  vp_fill( code, 3, "code" );
  return e;
}
template <class F, class H> static void check( H & h, const bool key )
{
  Before & b = *new Before();
  Encoder & e = some_encoder( b );
  const bool segmented = h.update_segmentation.initialized_;
  REQUIRES( not segmented ); // the encoder does not write segmentation
  h.update_segmentation.initialized_ = false;
  F & f = raw<F>();
  memcpy( (void *) &f.header_, (const void *) &h, sizeof( H ) );
  the_frame = &f; is_key = key;
  Flat & base = *new Flat(), & frame = *new Flat(), & after = *new Flat();
  if ( key ) { defaults( base ); } else { base = b.t; }
  frame = base;
  const std::vector<uint8_t> & out = *new std::vector<uint8_t>( e.write_frame( f ) );
  ENSURES( out.size() == 3 and out[ 0 ] == code[ 0 ] and out[ 1 ] == code[ 1 ] and out[ 2 ] == code[ 2 ], "the coded frame is returned" );
  /* the tables */
  const DecoderState & s = e.decoder_state_;
  add_tokens( frame, h );
  if ( not key ) { add_modes( frame, *(InterFrameHeader *) &h ); }
  ENSURES( coded, "the frame itself is coded" );
  SAME( coded_with, frame, "the frame is coded with the tables its decoder will use" );
  flatten( s.probability_tables, after );
  if ( h.refresh_entropy_probs.i_ ) {
    SAME( after, frame, "updates are kept when the header says so" );
    COVER( "tables kept" );
  } else {
    SAME( after, base, "updates are dropped when the header says so" );
    COVER( "tables dropped" );
  }
  /* the rest of the state */
  ENSURES( s.width == MW and s.height == MH, "frame size unchanged" );
  ENSURES( not s.segmentation.initialized_, "segmentation ends with a frame that does not enable it" );
  check_adjustments( h, s, b, key );
  /* the pictures */
  ENSURES( decoded and filtered > decoded and copied > filtered, "the frame is reconstructed, filtered and offered as a reference" );
  ENSURES( pic[ 0 ] == pictures + 3 and pic[ 1 ] == pictures + 3 and pic[ 2 ] == pictures + 3 and pic_w == MW and pic_h == MH, "one and the same new picture throughout, of the stream's size" );
  if ( not key ) { ENSURES( refs_at_decode[ 0 ] == pictures and refs_at_decode[ 1 ] == pictures + 1 and refs_at_decode[ 2 ] == pictures + 2, "prediction sees the references from before the frame" ); }
  ENSURES( not segmented_at_decode and not segmented_at_filter, "without segmentation" );
  ENSURES( adjusted_at_filter == s.filter_adjustments.initialized_, "filtered with the adjustments the decoder will use" );
  if ( adjusted_at_filter ) {
    bool ok = true;
    for ( unsigned i = 0; i < 4; i++ ) {
      ok &= adjustment_at_filter[ i ] == s.filter_adjustments.object_.loopfilter_ref_adjustments.at( i ) and adjustment_at_filter[ 4 + i ] == s.filter_adjustments.object_.loopfilter_mode_adjustments.at( i );
    }
    ENSURES( ok, "filtered with the adjustments the decoder will use" );
  }
  ENSURES( id( e.references_.golden ) == pictures + 3, "the references are updated as the header says" );
  if ( not key ) { ENSURES( id( e.references_.last ) == pictures and id( e.references_.alternative ) == pictures + 2, "only as the header says" ); }
  ENSURES( id( e.safe_references_.last ) - safe == id( e.references_.last ) - pictures and id( e.safe_references_.golden ) - safe == id( e.references_.golden ) - pictures
           and id( e.safe_references_.alternative ) - safe == id( e.references_.alternative ) - pictures, "the bordered copies are of the references" );
  COVER( "written" );
}
PROOF( prove_key ) { if ( not vp_symbolic() ) { return; } check<KeyFrame>( some_key_header(), true ); }
PROOF( prove_inter ) { if ( not vp_symbolic() ) { return; } check<InterFrame>( some_inter_header(), false ); }
