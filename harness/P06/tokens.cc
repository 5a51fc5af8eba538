// Coefficient tokens of a block: Block::serialize_tokens and Block::parse_tokens (RFC 6386, 13).
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#define GHOST_COMPARE
#include "ghost_coder.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "serializer.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolEncoder::put\(.*\) => ghost_put
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ opts: slim=1 mergeloops=parse_tokens,serialize_tokens,rfc_tokens
//@ trusted: BoolEncoder::put / BoolDecoder::get are used through their contract, which is what P01 proves

/* the magnitudes that have a token: 67 + 11 extra bits */
enum { LIMIT = 67 + 2048 };
static uint8_t any_prob( const unsigned type, const unsigned band, const unsigned context, const unsigned node )
{
  return vp_u8( "prob", ( ( type * 8 + band ) * 3 + context ) * 11 + node );
}
static ProbabilityTables & any_tables( const unsigned type )
{
  ProbabilityTables & t = raw<ProbabilityTables>();
  for ( unsigned b = 0; b < 8; b++ ) { for ( unsigned c = 0; c < 3; c++ ) { for ( unsigned n = 0; n < 11; n++ ) {
    t.coeff_probs.at( type ).at( b ).at( c ).at( n ) = any_prob( type, b, c, n ); } } }
  return t;
}
/* a block with its neighbours */
template <class B> struct Place
{
  B & block, & left, & above;
  Place( const unsigned type ) : block( raw<B>() ), left( raw<B>() ), above( raw<B>() )
  {
    block.type_ = (BlockType) type;
    block.has_nonzero_ = false;
    for ( unsigned i = 0; i < 16; i++ ) { block.coefficients_.at( i ) = 0; }
    block.context_.left.initialized_ = vp_bool( "has_left" ); block.context_.left.object_ = &left;
    block.context_.above.initialized_ = vp_bool( "has_above" ); block.context_.above.object_ = &above;
    left.has_nonzero_ = vp_bool( "left_nonzero" ); above.has_nonzero_ = vp_bool( "above_nonzero" );
  }
};
static unsigned first_context() { return ( vp_bool( "has_left" ) & vp_bool( "left_nonzero" ) ) + ( vp_bool( "has_above" ) & vp_bool( "above_nonzero" ) ); }
static unsigned magnitude( const unsigned i ) { const unsigned m = vp_nondet( "magnitude", i, 12 ); REQUIRES( m < LIMIT ); return m; }
static int16_t coefficient( const unsigned i ) { const int m = magnitude( i ); return vp_bool( "negative", i ) ? -m : m; }

// ------------------------------------------------------------ the tokens of the format
/* Tokens as RFC 6386 writes them; every bit string starts with exactly one such sequence of tokens. */
static void bits( BoolEncoder & e, const unsigned v, const unsigned n, const uint8_t * const p ) { for ( unsigned i = 0; i < n; i++ ) { e.put( ( v >> ( n - 1 - i ) ) & 1, p[ i ] ); } }
static inline void rfc_token( BoolEncoder & e, const unsigned m, const bool negative, const bool after_zero, const uint8_t * const p )
{
  static const uint8_t cat1[] = { 159 }, cat2[] = { 165, 145 }, cat3[] = { 173, 148, 140 }, cat4[] = { 176, 155, 140, 135 }, cat5[] = { 180, 157, 141, 134, 130 },
    cat6[] = { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 };
  if ( not after_zero ) { e.put( true, p[ 0 ] ); }
  if ( m == 0 ) { e.put( false, p[ 1 ] ); return; }
  e.put( true, p[ 1 ] );
  if ( m == 1 ) { e.put( false, p[ 2 ] ); }
  else {
    e.put( true, p[ 2 ] );
    if ( m <= 4 ) {
      e.put( false, p[ 3 ] );
      e.put( m > 2, p[ 4 ] );
      if ( m > 2 ) { e.put( m == 4, p[ 5 ] ); }
    } else {
      e.put( true, p[ 3 ] );
      e.put( m >= 11, p[ 6 ] );
      if ( m < 11 ) {
        e.put( m >= 7, p[ 7 ] );
        if ( m < 7 ) { bits( e, m - 5, 1, cat1 ); } else { bits( e, m - 7, 2, cat2 ); }
      } else {
        e.put( m >= 35, p[ 8 ] );
        if ( m < 35 ) {
          e.put( m >= 19, p[ 9 ] );
          if ( m < 19 ) { bits( e, m - 11, 3, cat3 ); } else { bits( e, m - 19, 4, cat4 ); }
        } else {
          e.put( m >= 67, p[ 10 ] );
          if ( m < 67 ) { bits( e, m - 35, 5, cat5 ); } else { bits( e, m - 67, 11, cat6 ); }
        }
      }
    }
  }
  e.put( negative );
}

struct Expected { int16_t coefficients[ 16 ]; bool nonzero, last_zero; };
/* the tokens of one block; `length' is how many come before the end of the block */
__attribute__(( noinline )) static void rfc_tokens( BoolEncoder & e, const unsigned type, const unsigned length, Expected & x )
{
  unsigned context = first_context();
  x.nonzero = x.last_zero = false;
  for ( unsigned i = 0; i < 16; i++ ) { x.coefficients[ i ] = 0; }
  for ( unsigned i = type == 0 ? 1 : 0; i < 16; i++ ) {
    uint8_t p[ 11 ];
    for ( unsigned n = 0; n < 11; n++ ) {
      const unsigned b = rfc_coefficient_to_band[ i ];
      const uint8_t q[ 3 ] = { any_prob( type, b, 0, n ), any_prob( type, b, 1, n ), any_prob( type, b, 2, n ) };
      p[ n ] = q[ context ];
    }
    if ( i == length ) { REQUIRES( not x.last_zero ); e.put( false, p[ 0 ] ); vp_trace_mark( 0, 17 ); return; }
    const unsigned m = magnitude( i );
    const bool negative = vp_bool( "negative", i );
    rfc_token( e, m, negative, x.last_zero, p );
    vp_trace_mark( 0, i == 15 ? 17 : i + 1 );
    x.coefficients[ rfc_zigzag[ i ] ] = negative ? -(int) m : (int) m;
    x.last_zero = m == 0;
    x.nonzero = x.nonzero | ( m != 0 );
    context = ( m > 0 ) + ( m > 1 );
    vp_hint( m == 0 );
    vp_hint( ( m > 0 ) + ( m > 1 ) );
    vp_hint( (uint16_t) ( negative ? -(int) m : (int) m ) );
  }
}
static unsigned any_length( const unsigned type )
{
  const unsigned length = vp_cases( vp_nondet( "length", 0, 5 ), 0, 31 );
  REQUIRES( length <= 16 and ( type != 0 or length >= 1 ) );
  return length;
}

// ------------------------------------------------------------ every bit string is parsed as the format says
template <class B> static void parse( const unsigned type )
{
  Place<B> t( type );
  BoolEncoder & e = ghost_writer();
  Expected x;
  rfc_tokens( e, type, any_length( type ), x );
  const ProbabilityTables & tables = any_tables( type );
  BoolDecoder & d = ghost_reader( e );
  t.block.parse_tokens( d, tables );
  vp_trace_done( 0 );
  for ( unsigned i = 0; i < 16; i++ ) { ENSURES( t.block.coefficients_.at( i ) == x.coefficients[ i ], "coefficients are what the tokens of the format say" ); }
  ENSURES( t.block.has_nonzero_ == x.nonzero, "a block has non-zero coefficients exactly when it has one" );
  COVER( "block" );
}
PROOF( prove_parse_y_after_y2 ) { parse<YBlock>( 0 ); }
PROOF( prove_parse_y2 ) { parse<Y2Block>( 1 ); }
PROOF( prove_parse_uv ) { parse<UVBlock>( 2 ); }
PROOF( prove_parse_y ) { parse<YBlock>( 3 ); }

// ------------------------------------------------------------ every block is written as the format says, up to its last non-zero coefficient
template <class B> static void serialize( const unsigned type )
{
  Place<B> s( type );
  BoolEncoder & e = ghost_writer();
  Expected x;
  rfc_tokens( e, type, any_length( type ), x );
  REQUIRES( not x.last_zero );
  for ( unsigned i = 0; i < 16; i++ ) { s.block.coefficients_.at( i ) = x.coefficients[ i ]; }
  if ( type == 0 ) { s.block.coefficients_.at( 0 ) = vp_nondet( "dc", 0, 16 ); } /* belongs to the Y2 block */
  s.block.has_nonzero_ = x.nonzero;
  const ProbabilityTables & tables = any_tables( type );
  BoolEncoder & w = ghost_comparer();
  s.block.serialize_tokens( w, tables );
  ghost_compared( e, w );
  COVER( "block" );
}
PROOF( prove_serialize_y_after_y2 ) { serialize<YBlock>( 0 ); }
PROOF( prove_serialize_y2 ) { serialize<Y2Block>( 1 ); }
PROOF( prove_serialize_uv ) { serialize<UVBlock>( 2 ); }
PROOF( prove_serialize_y ) { serialize<YBlock>( 3 ); }
