// Carry propagation and whole-coder composition.
#include "vp.h"
#include "vp_vec.h"
#include <cassert>
#include "bool_encoder.hh"
//@ entry bounded_carry: needs=BoolEncoder::add_one_to_output\(\)

// output of L bytes, arbitrary contents other than all ones: plus one as a number
PROOF( bounded_carry )
{
  const uint64_t L = vp_split( vp_u8( "L" ) & 15, 0, 15 );
  REQUIRES( L >= 1 and L <= 7 );
  BoolEncoder & e = *new BoolEncoder();
  uint64_t before = 0, after = 0;
  for ( unsigned i = 0; i < L; i++ ) {
    const uint8_t x = vp_u8( "byte", i + 1 );
    e.output_.push_back( x );
    before = before << 8 | x;
  }
  REQUIRES( before != ( 1ull << ( 8 * L ) ) - 1 );
  COVER( "not all ones" );
  e.add_one_to_output();
  for ( unsigned i = 0; i < L; i++ ) { after = after << 8 | e.output_[ i ]; }
  ENSURES( e.output_.size() == L and after == before + 1, "the carry adds one to the output as a number" );
}

// one arbitrary coded bit, with a carry arriving in an output of five arbitrary bytes
PROOF( bounded_put_with_output )
{
  const unsigned L = 5;
  BoolEncoder & e = *new BoolEncoder();
  uint64_t before = 0, after = 0;
  for ( unsigned i = 0; i < L; i++ ) {
    const uint8_t x = vp_u8( "byte", i + 1 );
    e.output_.push_back( x );
    before = before << 8 | x;
  }
  const uint64_t k = vp_split( vp_u8( "k" ) & 31, 0, 31 );
  REQUIRES( k <= 23 and k >= 16 );
  const uint64_t b = vp_u32( "bottom" ), r = vp_u32( "range" );
  REQUIRES( r >= 128 and r <= 255 and b + r <= ( 1ull << ( k + 9 ) ) );
  REQUIRES( before != ( 1ull << 40 ) - 1 );
  e.range_ = r; e.bottom_ = b; e.bit_count_ = (char) ( (int) k - 24 );
  const bool bit = vp_bool( "bit" );
  const Probability p = vp_u8( "prob" );
  e.put( bit, p );
  const uint64_t split = 1 + ( ( ( r - 1 ) * p ) >> 8 );
  const uint64_t r1 = bit ? r - split : split, b1 = b + ( bit ? split : 0 );
  uint64_t s = 0;
  for ( unsigned t = 1; t < 8; t++ ) { if ( ( r1 << ( s ) ) < 128 ) { s++; } }
  for ( unsigned i = 0; i < L; i++ ) { after = after << 8 | e.output_[ i ]; }
  const uint64_t total = b1 << s;
  if ( e.output_.size() == L ) {
    COVER( "no output" );
    ENSURES( after == before and e.bottom_ == total, "without output, only the pending bits change" );
  } else {
    COVER( "output" );
    ENSURES( e.output_.size() == L + 1, "at most one byte per bit" );
    const uint64_t carry = total >> ( k + 8 + s );
    ENSURES( after == before + carry, "output so far plus the carry" );
    ENSURES( total == ( carry << ( k + 8 + s ) ) + ( uint64_t( e.output_[ L ] ) << ( k + s ) ) + e.bottom_, "low end of the interval is preserved exactly" );
  }
}

// the composition, through the public interface only: pseudo-random scripts
// (concrete), among them long runs that force carries through many bytes
template <unsigned N>
static void script( uint32_t seed, const Probability fixed )
{
  static bool bits[ N ];
  static Probability probs[ N ];
  BoolEncoder & e = *new BoolEncoder();
  for ( unsigned i = 0; i < N; i++ ) {
    seed = seed * 1664525u + 1013904223u;
    probs[ i ] = fixed ? fixed : seed >> 24;
    bits[ i ] = fixed == 1 ? true : ( ( seed >> 12 ) & 255 ) >= probs[ i ];
    e.put( bits[ i ], probs[ i ] );
  }
  const std::vector<uint8_t> & out = vp_leak( e.finish() );
  COVER( "encoded" );
  BoolDecoder d( Chunk( out ), true );
  for ( unsigned i = 0; i < N; i++ ) {
    ENSURES( d.get( probs[ i ] ) == bits[ i ], "every bit written is read back" );
  }
  ENSURES( d.valid(), "a complete stream stays valid" );
  // the encoder can be reused
  e.put( true, 7 ); e.put( false, 250 );
  const std::vector<uint8_t> & out2 = vp_leak( e.finish() );
  BoolDecoder d2( Chunk( out2 ), true );
  ENSURES( d2.get( 7 ) == true and d2.get( 250 ) == false, "a reused encoder starts afresh" );
}
PROOF( bounded_script_mixed ) { script<400>( 1, 0 ); }
PROOF( bounded_script_skewed ) { script<300>( 9, 3 ); }
PROOF( bounded_script_ones ) { script<300>( 5, 1 ); }
