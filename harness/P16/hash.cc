// DecoderState::hash and its parts: with a collision-free combining function, states hash alike exactly when they are equal.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/probability_tables.cc src/util/raster.cc
//@ flags: -I/repo/src/decoder
//@ replace: void boost::hash_combine<bool>\(.*\) => mix_u8
//@ replace: ?void boost::hash_combine<unsigned char>\(.*\) => mix_u8
//@ replace: ?void boost::hash_combine<signed char>\(.*\) => mix_s8
//@ replace: void boost::hash_combine<unsigned short>\(.*\) => mix_u16
//@ replace: ?void boost::hash_combine<(unsigned )?int>\(.*\) => mix_u32
//@ replace: void boost::hash_combine<unsigned long>\(.*\) => mix_u64
//@ replace: void boost::hash_range<(unsigned|signed) char const\*>\(.*\) => mix_range
//@ replace: void boost::hash_range<__gnu_cxx::__normal_iterator<unsigned char const\*.*\(.*\) => mix_map
//@ replace: VP8RasterHandle<HashCachedRaster>::hash\(\) const => picture_hash
//@ trusted: boost::hash_combine and boost::hash_range combine without collisions (idealisation: collisions of the 64-bit hash are out of scope)

/* A collision-free combining function: a hash stands for the term that was
   combined, two hashes are the same exactly when the terms are. */
static constexpr uint64_t FIRST = 1ull << 40;
static constexpr unsigned MAX = 4096;
static uint64_t left_[ MAX ], right_[ MAX ];
static uint8_t kind_[ MAX ]; /* 0: right_ is a value, 1: right_ is a hash */
static unsigned terms;
static uint64_t mix( const uint64_t a, const uint64_t b, const bool hash = false )
{
  const unsigned i = terms++;
  left_[ i ] = a; right_[ i ] = b; kind_[ i ] = hash;
  return FIRST + i;
}
static bool same( uint64_t x, uint64_t y )
{
  bool r = true;
  while ( x >= FIRST and y >= FIRST ) {
    const unsigned i = x - FIRST, j = y - FIRST;
    if ( kind_[ i ] != kind_[ j ] ) { return false; }
    if ( kind_[ i ] ) { r &= same( right_[ i ], right_[ j ] ); } else { r &= right_[ i ] == right_[ j ]; }
    x = left_[ i ]; y = left_[ j ];
  }
  return r and x == y; /* both begin with the same seed */
}
extern "C" void mix_u8( size_t & seed, const uint8_t & v ) { seed = mix( seed, v ); }
extern "C" void mix_s8( size_t & seed, const int8_t & v ) { seed = mix( seed, (int64_t) v ); }
extern "C" void mix_u16( size_t & seed, const uint16_t & v ) { seed = mix( seed, v ); }
extern "C" void mix_u32( size_t & seed, const uint32_t & v ) { seed = mix( seed, v ); }
extern "C" void mix_u64( size_t & seed, const size_t & v ) { seed = mix( seed, v, v >= FIRST ); }
extern "C" void mix_range( size_t & seed, const uint8_t * first, const uint8_t * last )
{
  for ( const uint8_t * p = first; p != last; p++ ) { seed = mix( seed, *p ); }
  seed = mix( seed, last - first );
}
/* segmentation maps are known by their storage and stand for their contents */
static const uint8_t * map_at[ 3 ]; static uint64_t map_size[ 3 ], map_content[ 3 ];
extern "C" void mix_map( size_t & seed, const uint8_t * first, const uint8_t * last )
{
  const unsigned i = first == map_at[ 1 ] ? 1 : first == map_at[ 2 ] ? 2 : 0;
  ENSURES( first == map_at[ i ] and last == map_at[ i ] + map_size[ i ], "the whole of a segmentation map or picture plane is hashed" );
  seed = mix( seed, map_content[ i ] );
}

static void any( ProbabilityTables & t, const unsigned s )
{
  for ( unsigned n = 0; n < 1056; n++ ) { t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) = vp_u8( "token", 2 * n + s ); }
  for ( unsigned i = 0; i < 4; i++ ) { t.y_mode_probs.at( i ) = vp_u8( "y", 2 * i + s ); }
  for ( unsigned i = 0; i < 3; i++ ) { t.uv_mode_probs.at( i ) = vp_u8( "uv", 2 * i + s ); }
  for ( unsigned i = 0; i < 38; i++ ) { t.motion_vector_probs.at( i / 19 ).at( i % 19 ) = vp_u8( "mv", 2 * i + s ); }
}
static bool same_tokens( const ProbabilityTables & a, const ProbabilityTables & b )
{
  bool r = true;
  for ( unsigned n = 0; n < 1056; n++ ) { r &= a.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) == b.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ); }
  return r;
}
static bool same_modes( const ProbabilityTables & a, const ProbabilityTables & b )
{
  bool r = true;
  for ( unsigned i = 0; i < 4; i++ ) { r &= a.y_mode_probs.at( i ) == b.y_mode_probs.at( i ); }
  for ( unsigned i = 0; i < 3; i++ ) { r &= a.uv_mode_probs.at( i ) == b.uv_mode_probs.at( i ); }
  return r;
}
static bool same_mv( const ProbabilityTables & a, const ProbabilityTables & b )
{
  bool r = true;
  for ( unsigned i = 0; i < 38; i++ ) { r &= a.motion_vector_probs.at( i / 19 ).at( i % 19 ) == b.motion_vector_probs.at( i / 19 ).at( i % 19 ); }
  return r;
}
PROOF( prove_tables )
{
  if ( not vp_symbolic() ) { return; }
  ProbabilityTables & a = raw<ProbabilityTables>(), & b = raw<ProbabilityTables>();
  any( a, 0 ); any( b, 1 );
  terms = 0;
  const uint64_t x = a.hash(), y = b.hash();
  if ( same( x, y ) ) {
    ENSURES( same_tokens( a, b ), "tables with different token probabilities hash differently" );
    ENSURES( same_modes( a, b ), "tables with different mode probabilities hash differently" );
    ENSURES( same_mv( a, b ), "tables with different motion vector probabilities hash differently" );
    COVER( "equal hashes" );
  } else {
    ENSURES( not ( same_tokens( a, b ) and same_modes( a, b ) and same_mv( a, b ) ), "equal tables hash alike" );
    COVER( "different hashes" );
  }
}

static void any( FilterAdjustments & a, const unsigned s )
{
  for ( unsigned i = 0; i < 4; i++ ) {
    a.loopfilter_ref_adjustments.at( i ) = vp_s8( "ref", 2 * i + s );
    a.loopfilter_mode_adjustments.at( i ) = vp_s8( "mode", 2 * i + s );
  }
}
static bool same_adjustments( const FilterAdjustments & a, const FilterAdjustments & b )
{
  bool r = true;
  for ( unsigned i = 0; i < 4; i++ ) {
    r &= a.loopfilter_ref_adjustments.at( i ) == b.loopfilter_ref_adjustments.at( i );
    r &= a.loopfilter_mode_adjustments.at( i ) == b.loopfilter_mode_adjustments.at( i );
  }
  return r;
}
PROOF( prove_adjustments )
{
  if ( not vp_symbolic() ) { return; }
  FilterAdjustments & a = raw<FilterAdjustments>(), & b = raw<FilterAdjustments>();
  any( a, 0 ); any( b, 1 );
  terms = 0;
  const uint64_t x = a.hash(), y = b.hash();
  ENSURES( same( x, y ) == same_adjustments( a, b ), "filter adjustments hash alike exactly when equal" );
  COVER( "adjustments" );
}
/* a map of arbitrary size, known by its content */
static void any( Segmentation & g, const unsigned s )
{
  g.absolute_segment_adjustments = vp_bool( "absolute", s );
  for ( unsigned i = 0; i < 4; i++ ) {
    g.segment_quantizer_adjustments.at( i ) = vp_s8( "quantizer", 2 * i + s );
    g.segment_filter_adjustments.at( i ) = vp_s8( "filter", 2 * i + s );
  }
  map_size[ s ] = vp_u64( "map_size", s );
  REQUIRES( map_size[ s ] > 0 and map_size[ s ] < ( 1ull << 28 ) );
  map_content[ s ] = vp_u64( "map_content", s ) % FIRST;
  uint8_t * const bytes = s ? vp_bytes( "map1", map_size[ s ] ) : vp_bytes( "map0", map_size[ s ] );
  map_at[ s ] = bytes;
  twod_at( g.map, storage_over( bytes, 16, 16, map_size[ s ] ) );
}
static bool same_segmentation( const Segmentation & a, const Segmentation & b )
{
  bool r = a.absolute_segment_adjustments == b.absolute_segment_adjustments;
  for ( unsigned i = 0; i < 4; i++ ) {
    r &= a.segment_quantizer_adjustments.at( i ) == b.segment_quantizer_adjustments.at( i );
    r &= a.segment_filter_adjustments.at( i ) == b.segment_filter_adjustments.at( i );
  }
  return r & ( map_content[ 0 ] == map_content[ 1 ] );
}
PROOF( prove_segmentation )
{
  if ( not vp_symbolic() ) { return; }
  Segmentation & a = raw<Segmentation>(), & b = raw<Segmentation>();
  any( a, 0 ); any( b, 1 );
  terms = 0;
  const uint64_t x = a.hash(), y = b.hash();
  ENSURES( same( x, y ) == same_segmentation( a, b ), "segmentations hash alike exactly when equal" );
  COVER( "segmentation" );
}
PROOF( prove_state )
{
  if ( not vp_symbolic() ) { return; }
  DecoderState & a = raw<DecoderState>(), & b = raw<DecoderState>();
  DecoderState * const s[ 2 ] = { &a, &b };
  for ( unsigned i = 0; i < 2; i++ ) {
    s[ i ]->width = vp_u16( "width", i ); s[ i ]->height = vp_u16( "height", i );
    any( s[ i ]->probability_tables, i );
    s[ i ]->segmentation.initialized_ = vp_cases( vp_bool( "segmented", i ), 0, 1 );
    s[ i ]->filter_adjustments.initialized_ = vp_cases( vp_bool( "adjusted", i ), 0, 1 );
    any( s[ i ]->segmentation.object_, i );
    any( s[ i ]->filter_adjustments.object_, i );
  }
  terms = 0;
  const uint64_t x = a.hash(), y = b.hash();
  bool equal = a.width == b.width and a.height == b.height and same_tokens( a.probability_tables, b.probability_tables )
    and same_modes( a.probability_tables, b.probability_tables ) and same_mv( a.probability_tables, b.probability_tables )
    and a.segmentation.initialized_ == b.segmentation.initialized_ and a.filter_adjustments.initialized_ == b.filter_adjustments.initialized_;
  if ( a.segmentation.initialized_ and b.segmentation.initialized_ ) { equal = equal and same_segmentation( a.segmentation.object_, b.segmentation.object_ ); }
  if ( a.filter_adjustments.initialized_ and b.filter_adjustments.initialized_ ) { equal = equal and same_adjustments( a.filter_adjustments.object_, b.filter_adjustments.object_ ); }
  ENSURES( same( x, y ) == equal, "decoder states hash alike exactly when equal" );
  COVER( "state" );
}
PROOF( prove_decoder )
{
  if ( not vp_symbolic() ) { return; }
  DecoderHash * d[ 2 ];
  uint64_t v[ 8 ];
  for ( unsigned i = 0; i < 8; i++ ) { v[ i ] = vp_u64( "part", i ) % FIRST; }
  for ( unsigned i = 0; i < 2; i++ ) { d[ i ] = new DecoderHash( v[ 4 * i ], v[ 4 * i + 1 ], v[ 4 * i + 2 ], v[ 4 * i + 3 ] ); }
  terms = 0;
  const uint64_t x = d[ 0 ]->hash(), y = d[ 1 ]->hash();
  const bool equal = v[ 0 ] == v[ 4 ] and v[ 1 ] == v[ 5 ] and v[ 2 ] == v[ 6 ] and v[ 3 ] == v[ 7 ];
  ENSURES( same( x, y ) == equal, "decoders hash alike exactly when state and all three references do" );
  ENSURES( ( *d[ 0 ] == *d[ 1 ] ) == equal and ( *d[ 0 ] != *d[ 1 ] ) == not equal, "comparison of fingerprints" );
  COVER( "decoder" );
}
extern "C" size_t picture_hash( const RasterHandle * h ) { return FIRST / 2 + *reinterpret_cast<const uint64_t *>( h ); }
PROOF( prove_get_hash )
{
  if ( not vp_symbolic() ) { return; }
  Decoder & d = raw<Decoder>();
  any( d.state_.probability_tables, 0 );
  d.state_.segmentation.initialized_ = d.state_.filter_adjustments.initialized_ = false;
  d.state_.width = vp_u16( "width" ); d.state_.height = vp_u16( "height" );
  uint64_t id[ 3 ];
  const RasterHandle * const h[ 3 ] = { &d.references_.last, &d.references_.golden, &d.references_.alternative };
  for ( unsigned i = 0; i < 3; i++ ) {
    id[ i ] = vp_u8( "picture", i );
    uint64_t * const p = reinterpret_cast<uint64_t *>( const_cast<RasterHandle *>( h[ i ] ) );
    p[ 0 ] = id[ i ]; p[ 1 ] = 0;
  }
  terms = 0;
  const DecoderHash x = d.get_hash();
  const uint64_t y = d.state_.hash();
  ENSURES( same( x.state_hash_, y ), "the fingerprint covers the decoder state" );
  ENSURES( x.last_hash_ == FIRST / 2 + id[ 0 ] and x.golden_hash_ == FIRST / 2 + id[ 1 ] and x.alt_hash_ == FIRST / 2 + id[ 2 ], "the fingerprint covers every reference" );
  COVER( "get_hash" );
}
PROOF( prove_picture )
{
  if ( not vp_symbolic() ) { return; }
  BaseRaster & r = raw<BaseRaster>();
  TwoD<uint8_t> * const planes[ 3 ] = { &r.Y_, &r.U_, &r.V_ };
  const char * const names[ 3 ] = { "Y", "U", "V" };
  for ( unsigned i = 0; i < 3; i++ ) {
    map_size[ i ] = vp_u64( "plane_size", i );
    REQUIRES( map_size[ i ] > 0 and map_size[ i ] < ( 1ull << 32 ) );
    map_content[ i ] = vp_u64( "plane", i ) % FIRST;
    map_at[ i ] = vp_bytes( names[ i ], map_size[ i ] );
    twod_at( *planes[ i ], storage_over( const_cast<uint8_t *>( map_at[ i ] ), 16, 16, map_size[ i ] ) );
  }
  terms = 0;
  const uint64_t x = r.raw_hash();
  for ( unsigned i = 0; i < 3; i++ ) {
    const uint64_t kept = map_content[ i ];
    map_content[ i ] = vp_u64( "other_plane", i ) % FIRST;
    const uint64_t y = r.raw_hash();
    ENSURES( same( x, y ) == ( kept == map_content[ i ] ), "pictures differing in any one plane hash differently, equal ones alike" );
    map_content[ i ] = kept;
  }
  COVER( "picture" );
}
