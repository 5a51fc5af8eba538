// Decoder: every decoded picture is reconstructed from the old references, filtered, returned, and then offered as a reference.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder.cc"
//@ flags: -I/repo/src/decoder
//@ replace: VP8MutableRasterHandle<HashCachedRaster>::VP8MutableRasterHandle\(unsigned int, unsigned int\) => new_picture
//@ replace: VP8RasterHandle<HashCachedRaster>::VP8RasterHandle\(VP8MutableRasterHandle<HashCachedRaster>&&\) => freeze
//@ replace: ?RasterDeleter<HashCachedRaster>::operator\(\)\(.*\) const => discard
//@ replace: Frame<KeyFrameHeader, .*>::decode\(.*\) const => key_decode
//@ replace: Frame<InterFrameHeader, .*>::decode\(.*\) const => inter_decode
//@ replace: Frame<KeyFrameHeader, .*>::loopfilter\(.*\) const => key_filter
//@ replace: Frame<InterFrameHeader, .*>::loopfilter\(.*\) const => inter_filter
//@ replace: Frame<KeyFrameHeader, .*>::copy_to\(.*\) const => key_copy
//@ replace: Frame<InterFrameHeader, .*>::copy_to\(.*\) const => inter_copy
//@ replace: KeyFrame Decoder::parse_frame<.*>\(.*\)|.* Decoder::parse_frame<Frame<KeyFrameHeader.*\(.*\) => parse_key
//@ replace: .* Decoder::parse_frame<Frame<InterFrameHeader.*\(.*\) => parse_inter
//@ replace: UncompressedChunk::UncompressedChunk\(Chunk const&, unsigned short, unsigned short, bool\) => open_frame
//@ replace: Frame<.*>::~Frame\(\) => gone

static uint8_t pictures[ 4 ];
static const void * id( const RasterHandle & h ) { return *reinterpret_cast<const void * const *>( &h ); }
static RasterHandle & handle( const unsigned i )
{
  const void ** p = reinterpret_cast<const void **>( operator new( sizeof( RasterHandle ) ) );
  p[ 0 ] = pictures + i; p[ 1 ] = nullptr;
  return *reinterpret_cast<RasterHandle *>( p );
}
static unsigned calls, decoded, filtered, copied, frozen;
static const void * the_frame, * pic[ 3 ], * copy_pic, * refs_at_decode[ 3 ];
static int absolute_at_decode, absolute_at_filter, adjustment_at_filter; /* -1: absent */
static int absolute( const Optional<Segmentation> & s ) { return s.initialized_ ? (int) s.object_.absolute_segment_adjustments : -1; }
static int adjustment( const Optional<FilterAdjustments> & a ) { return a.initialized_ ? 128 + a.object_.loopfilter_ref_adjustments.at( 0 ) : -1; }
static unsigned pic_w, pic_h;
static bool key_seen, inter_seen, show, is_key, is_experimental, given_concealment;
static unsigned given_w, given_h; static const void * given_chunk;

static void * & cell( MutableRasterHandle * m ) { return *reinterpret_cast<void **>( reinterpret_cast<uint8_t *>( m ) + sizeof( MutableRasterHandle ) - 8 ); }
extern "C" void new_picture( MutableRasterHandle * m, const unsigned w, const unsigned h )
{
  pic_w = w; pic_h = h;
  memset( (void *) m, 0, sizeof( *m ) );
  *reinterpret_cast<HashCachedRaster **>( &m->raster_._M_t ) = nullptr;
  std::get<0>( m->raster_._M_t._M_t ) = reinterpret_cast<HashCachedRaster *>( pictures + 3 );
}
extern "C" void freeze( RasterHandle * h, MutableRasterHandle && m )
{
  frozen = ++calls;
  const void ** p = reinterpret_cast<const void **>( h );
  p[ 0 ] = m.raster_.release(); p[ 1 ] = nullptr;
}
extern "C" void discard( void *, HashCachedRaster * ) {}
extern "C" void gone( void * ) {}
static void decode( const void * f, const Optional<Segmentation> & s, const References & r, const VP8Raster & p )
{
  decoded = ++calls; the_frame = f; absolute_at_decode = absolute( s ); pic[ 0 ] = &p;
  refs_at_decode[ 0 ] = id( r.last ); refs_at_decode[ 1 ] = id( r.golden ); refs_at_decode[ 2 ] = id( r.alternative );
}
static void filter( const void * f, const Optional<Segmentation> & s, const Optional<FilterAdjustments> & a, const VP8Raster & p )
{
  filtered = f == the_frame ? ++calls : 0; absolute_at_filter = absolute( s ); adjustment_at_filter = adjustment( a ); pic[ 1 ] = &p;
}
static void copy( const void * f, const RasterHandle & h, References & r )
{
  copied = f == the_frame ? ++calls : 0; copy_pic = id( h );
  r.golden = h; /* stands for whatever the header asks for */
}
extern "C" void key_decode( const KeyFrame * f, const Optional<Segmentation> & s, const References & r, VP8Raster & p ) { key_seen = true; decode( f, s, r, p ); }
extern "C" void inter_decode( const InterFrame * f, const Optional<Segmentation> & s, const References & r, VP8Raster & p ) { inter_seen = true; decode( f, s, r, p ); }
extern "C" void key_filter( const KeyFrame * f, const Optional<Segmentation> & s, const Optional<FilterAdjustments> & a, VP8Raster & p ) { filter( f, s, a, p ); }
extern "C" void inter_filter( const InterFrame * f, const Optional<Segmentation> & s, const Optional<FilterAdjustments> & a, VP8Raster & p ) { filter( f, s, a, p ); }
extern "C" void key_copy( const KeyFrame * f, const RasterHandle & h, References & r ) { copy( f, h, r ); }
extern "C" void inter_copy( const InterFrame * f, const RasterHandle & h, References & r ) { copy( f, h, r ); }
extern "C" void parse_key( KeyFrame * out, Decoder *, const UncompressedChunk & ) { key_seen = true; the_frame = out; out->show_ = show; }
extern "C" void parse_inter( InterFrame * out, Decoder *, const UncompressedChunk & ) { inter_seen = true; the_frame = out; out->show_ = show; }
extern "C" void open_frame( UncompressedChunk * u, const Chunk & c, const uint16_t w, const uint16_t h, const bool partial )
{
  given_chunk = &c; given_w = w; given_h = h; given_concealment = partial;
  u->key_frame_ = is_key; u->experimental_ = is_experimental; u->show_frame_ = show;
}

static Decoder & some_decoder()
{
  Decoder & d = raw<Decoder>();
  d.state_.width = vp_u16( "width" ); d.state_.height = vp_u16( "height" );
  new ( &d.references_.last ) RasterHandle( handle( 0 ) );
  new ( &d.references_.golden ) RasterHandle( handle( 1 ) );
  new ( &d.references_.alternative ) RasterHandle( handle( 2 ) );
  d.error_concealment_ = vp_bool( "concealment" );
  calls = decoded = filtered = copied = frozen = 0; key_seen = inter_seen = false;
  show = vp_bool( "show" );
  d.state_.segmentation.initialized_ = d.state_.filter_adjustments.initialized_ = false;
  if ( vp_cases( vp_bool( "segmented" ), 0, 1 ) ) { d.state_.segmentation.initialize( 1, 1 ); d.state_.segmentation.object_.absolute_segment_adjustments = vp_bool( "absolute" ); }
  d.state_.filter_adjustments.initialized_ = vp_cases( vp_bool( "was_adjusted" ), 0, 1 );
  d.state_.filter_adjustments.object_.loopfilter_ref_adjustments.at( 0 ) = vp_s8( "adjustment" );
  return d;
}
static void check( const Decoder & d, const bool s, const RasterHandle & h )
{
  ENSURES( decoded and filtered > decoded and copied > filtered, "a picture is reconstructed, then filtered, then offered as a reference" );
  ENSURES( id( d.references_.golden ) == pictures + 3 and id( d.references_.last ) == pictures and id( d.references_.alternative ) == pictures + 2, "the decoder's own references are updated" );
  ENSURES( refs_at_decode[ 0 ] == pictures and refs_at_decode[ 1 ] == pictures + 1 and refs_at_decode[ 2 ] == pictures + 2, "prediction sees the references from before the frame" );
  ENSURES( absolute_at_decode == absolute( d.state_.segmentation ) and absolute_at_filter == absolute_at_decode and adjustment_at_filter == adjustment( d.state_.filter_adjustments ), "the decoder's segmentation and adjustments apply" );
  ENSURES( pic[ 0 ] == pictures + 3 and pic[ 1 ] == pictures + 3 and copy_pic == pictures + 3 and id( h ) == pictures + 3, "one and the same new picture throughout" );
  ENSURES( pic_w == d.state_.width and pic_h == d.state_.height, "the new picture has the stream's size" );
  ENSURES( s == show, "shown exactly when the frame says so" );
}
template <class F> static void decode_frame()
{
  if ( not vp_symbolic() ) { return; }
  Decoder & d = some_decoder();
  F & f = raw<F>();
  f.show_ = show;
  const auto & r = *new std::pair<bool, RasterHandle>( d.decode_frame( f ) );
  ENSURES( the_frame == &f, "the frame itself is decoded" );
  check( d, r.first, r.second );
  COVER( "decoded" );
}
PROOF( prove_decode_key ) { decode_frame<KeyFrame>(); }
PROOF( prove_decode_inter ) { decode_frame<InterFrame>(); }

PROOF( prove_output )
{
  if ( not vp_symbolic() ) { return; }
  Decoder & d = some_decoder();
  is_key = vp_bool( "key" ); is_experimental = vp_bool( "experimental" );
  Chunk & c = *new Chunk( nullptr, 0 );
  bool refused = false;
  const std::pair<bool, RasterHandle> * r = nullptr;
  try { r = new std::pair<bool, RasterHandle>( d.get_frame_output( c ) ); } catch ( const Unsupported & ) { refused = true; }
  ENSURES( given_chunk == &c and given_w == d.state_.width and given_h == d.state_.height and given_concealment == d.error_concealment_, "the frame is opened with the stream's size and concealment setting" );
  ENSURES( refused == ( not is_key and is_experimental ), "experimental inter frames are refused" );
  if ( refused ) {
    ENSURES( not decoded and not copied, "a refused frame changes nothing" );
    COVER( "refused" );
    return;
  }
  ENSURES( is_key ? not inter_seen : not key_seen, "key and inter frames are decoded as such" );
  check( d, r->first, r->second );
  COVER( "output" );
}
PROOF( prove_shown )
{
  if ( not vp_symbolic() ) { return; }
  Decoder & d = some_decoder();
  is_key = vp_bool( "key" ); is_experimental = false;
  const Optional<RasterHandle> & o = *new Optional<RasterHandle>( d.parse_and_decode_frame( *new Chunk( nullptr, 0 ) ) );
  ENSURES( o.initialized_ == show, "a picture is returned exactly when the frame is shown" );
  if ( o.initialized_ ) { ENSURES( id( o.object_ ) == pictures + 3, "the decoded picture is returned" ); COVER( "shown" ); }
}
template <class F> static void apply()
{
  if ( not vp_symbolic() ) { return; }
  Decoder & d = some_decoder();
  Decoder & t = raw<Decoder>();
  t.state_.segmentation.initialized_ = false;
  t.state_.filter_adjustments.initialized_ = vp_cases( vp_bool( "adjusted" ), 0, 1 );
  t.state_.width = vp_u16( "t_width" );
  const int8_t x = vp_s8( "adj" );
  const uint8_t p = vp_u8( "prob" );
  t.state_.filter_adjustments.object_.loopfilter_ref_adjustments.at( 2 ) = x;
  t.state_.probability_tables.coeff_probs.at( 3 ).at( 7 ).at( 2 ).at( 10 ) = p;
  const unsigned tw = t.state_.width;
  F & f = raw<F>();
  the_frame = &f;
  d.apply_decoded_frame( f, handle( 3 ), t );
  ENSURES( d.state_.width == tw and d.state_.filter_adjustments.initialized_ == t.state_.filter_adjustments.initialized_
           and d.state_.probability_tables.coeff_probs.at( 3 ).at( 7 ).at( 2 ).at( 10 ) == p, "the target's state is taken over" );
  if ( d.state_.filter_adjustments.initialized_ ) { ENSURES( d.state_.filter_adjustments.object_.loopfilter_ref_adjustments.at( 2 ) == x, "the target's adjustments are taken over" ); }
  ENSURES( copied and copy_pic == pictures + 3 and id( d.references_.golden ) == pictures + 3, "references are updated from the given picture" );
  COVER( "applied" );
}
PROOF( prove_apply_key ) { apply<KeyFrame>(); }
PROOF( prove_apply_inter ) { apply<InterFrame>(); }
