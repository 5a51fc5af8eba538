// Arithmetic (bool) coder: every sequence of (bit, probability) pairs written
// by the encoder is read back by the decoder.
//
// Interval view.  After some puts the encoder denotes the interval
//   [ LOW, LOW + r )  with  LOW = N * 2^(k+8) + b,  k = bit_count + 24,
// in units of 2^-(8L+k+8), where N is the big-endian number formed by the L
// bytes output so far.  Invariant of every reachable encoder state:
//   128 <= r <= 255, 0 <= k <= 23, b + r <= 2^(k+9), and
//   if all L output bytes are 0xFF (or L == 0) then b + r <= 2^(k+8).
#include "vp.h"
#include "vp_vec.h"
#include <cassert>
#include "bool_encoder.hh"
//@ entry prove_put_step: cost=30 needs=stub_add_one
//@ entry prove_put_headroom: needs=stub_add_one
//@ entry prove_finish: shards=8 cost=60 needs=stub_add_one
//@ replace: ?BoolEncoder::add_one_to_output\(\) => stub_add_one
//@ trusted: induction over the number of coded bits from the step contracts is the two-line argument in DESIGN.md (P01)
//@ trusted: std::vector::push_back growth beyond reserved capacity (libstdc++)

struct Ghost { uint64_t L; bool all_ff; uint8_t * buf; } g;
static unsigned carries;

// contract of the carry: requires an output that is not all ones; adds one to
// the output read as a number (proved in carry.cc); here its use is counted.
extern "C" void stub_add_one( BoolEncoder * e )
{
  ENSURES( e->output_.size() == g.L and not g.all_ff, "a carry is applied before the byte is appended and never runs off the front" );
  carries++;
}

static void encoder_state( BoolEncoder & e, const uint64_t k )
{
  carries = 0;
  g.L = vp_u64( "L" );
  REQUIRES( g.L <= ( 1ull << 32 ) );
  g.buf = vp_bytes( "out", g.L + 64 );
  vp_vector( e.output_, g.buf, g.L, g.L + 64 );
  e.range_ = vp_u32( "range" );
  e.bottom_ = vp_u32( "bottom" );
  e.bit_count_ = (char) ( (int) k - 24 );
  REQUIRES( e.range_ >= 128 and e.range_ <= 255 );
  REQUIRES( uint64_t( e.bottom_ ) + e.range_ <= ( 1ull << ( k + 9 ) ) );
  g.all_ff = vp_bool( "all_ff" ) or g.L == 0;
  REQUIRES( not g.all_ff or uint64_t( e.bottom_ ) + e.range_ <= ( 1ull << ( k + 8 ) ) );
  // native replay: contents of the output consistent with the ghost flag
  if ( not vp_symbolic() ) {
    for ( uint64_t i = 0; i < g.L; i++ ) { g.buf[ i ] = g.all_ff ? 255 : 7; }
  }
}

PROOF( prove_put_step )
{
  BoolEncoder & e = *new BoolEncoder();
  const uint64_t k = vp_u8( "k" );
  REQUIRES( k <= 23 );
  encoder_state( e, k );
  const uint64_t i = vp_u64( "i" ); // arbitrary earlier output position
  REQUIRES( i < g.L );
  const uint8_t old = g.buf[ i ];
  const uint64_t b = e.bottom_, r = e.range_;
  const bool bit = vp_bool( "bit" );
  const Probability p = vp_u8( "prob" );
  COVER( "encoder invariant satisfiable" );

  e.put( bit, p );

  const uint64_t split = 1 + ( ( ( r - 1 ) * p ) >> 8 );
  const uint64_t r1 = bit ? r - split : split, b1 = b + ( bit ? split : 0 );
  uint64_t s = 0;
  for ( unsigned t = 1; t < 8; t++ ) { if ( ( r1 << ( s ) ) < 128 ) { s++; } }
  ENSURES( e.range_ == ( r1 << s ) and e.range_ >= 128 and e.range_ <= 255, "the new range is the coded sub-range, normalised" );
  const uint64_t k2 = (int) e.bit_count_ + 24;
  const uint64_t L2 = e.output_.size();
  ENSURES( k2 <= 23, "bit counter stays in its domain" );
  ENSURES( 8 * L2 + k2 == 8 * g.L + k + s, "the number of bits accounted for grows by exactly the normalisation shift" );
  ENSURES( e.output_.data() == g.buf and ( not vp_symbolic() or g.buf[ i ] == old ), "earlier output changes only through a carry" );
  const uint64_t total = b1 << s;                  // = carry * 2^(k+8+s) + byte * 2^(k+s) + b'
  if ( L2 == g.L ) {
    ENSURES( e.bottom_ == total, "low end of the interval without output" );
    ENSURES( carries == 0, "no carry without output" );
    COVER( "no byte output" );
    ENSURES( not g.all_ff or e.bottom_ + uint64_t( e.range_ ) <= ( 1ull << ( k2 + 8 ) ), "headroom invariant is kept without output" );
  } else {
    const uint64_t byte = g.buf[ g.L ];
    const uint64_t carry = total >> ( k + 8 + s );
    ENSURES( L2 == g.L + 1, "at most one byte is output per bit" );
    ENSURES( total == ( carry << ( k + 8 + s ) ) + ( byte << ( k + s ) ) + e.bottom_, "low end of the interval is preserved exactly across output" );
    ENSURES( carry <= 1 and ( not vp_symbolic() or carries == carry ), "the carry is applied exactly when the low end overflows its byte" );
    ENSURES_NATIVE( g.all_ff or g.buf[ g.L - 1 ] == 7 + carry, "carry reaches the output" );
    COVER( "byte output" );
    if ( carry ) { COVER( "carry" ); }
    // all ones afterwards: all ones before and 0xFF appended, or (FF..FE + carry) and 0xFF appended
    ENSURES( not ( byte == 255 and ( carry or g.all_ff ) ) or e.bottom_ + uint64_t( e.range_ ) <= ( 1ull << ( k2 + 8 ) ), "headroom invariant is re-established" );
  }
  ENSURES( uint64_t( e.bottom_ ) + e.range_ <= ( 1ull << ( k2 + 9 ) ), "interval invariant is re-established" );
}

PROOF( prove_fresh )
{
  BoolEncoder & e = *new BoolEncoder();
  COVER( "fresh encoder" );
  ENSURES( e.range_ == 255 and e.bottom_ == 0 and e.bit_count_ == -24 and e.output_.size() == 0, "a fresh encoder denotes the whole unit interval" );
}

// finish(): the bytes handed out denote exactly the low end of the final interval
PROOF( prove_finish )
{
  BoolEncoder & e = *new BoolEncoder();
  const uint64_t k = vp_cases( vp_u8( "k" ) % 24, 0, 23 );
  encoder_state( e, k );
  // ranges 128..254 and 255 behave differently in the first flush step; the
  // case is chosen structurally so that the verifier sees its bounds
  if ( vp_cases( vp_bool( "range_is_255" ), 0, 1 ) ) { e.range_ = 255; }
  else { e.range_ = 128 + vp_u8( "range254" ) % 127; }
  REQUIRES( uint64_t( e.bottom_ ) + e.range_ <= ( 1ull << ( k + 9 ) ) );
  REQUIRES( not g.all_ff or uint64_t( e.bottom_ ) + e.range_ <= ( 1ull << ( k + 8 ) ) );
  const uint64_t i = vp_u64( "i" );
  REQUIRES( i < g.L );
  const uint8_t old = g.buf[ i ];
  const uint64_t b = e.bottom_;
  std::vector<uint8_t> & out = vp_leak( e.finish() );
  COVER( "finished" );
  ENSURES( out.data() == g.buf and ( not vp_symbolic() or g.buf[ i ] == old ), "finish hands out the accumulated output" );
  const uint64_t extra = out.size() - g.L;
  ENSURES( 8 * extra >= k + 8 and extra <= 8, "finish emits every pending bit" );
  // value of the appended bytes, aligned on the last one
  uint64_t v = 0;
  for ( unsigned t = 0; t < 8; t++ ) { if ( t < extra ) { v = ( v << 8 ) | g.buf[ g.L + t ]; } }
  const uint64_t carry = b >> ( k + 8 );
  const uint64_t rest = b & ( ( 1ull << ( k + 8 ) ) - 1 );
  ENSURES( v == rest << ( 8 * extra - k - 8 ), "the appended bytes spell the low end of the interval, followed by zeros" );
  ENSURES( not vp_symbolic() or carries == carry, "finish propagates a pending carry into earlier bytes" );
  ENSURES_NATIVE( g.all_ff or g.buf[ g.L - 1 ] == 7 + carry, "carry reaches the output" );
  ENSURES( e.range_ == 255 and e.bottom_ == 0 and e.bit_count_ == -24 and e.output_.size() == 0, "finish leaves a fresh encoder behind" );
}

// ---------------------------------------------------------------- decoder
struct Dec { uint64_t n; const uint8_t * buf; };

static uint8_t at( const Dec & d, const uint64_t i ) { return i < d.n ? d.buf[ i ] : 0; }

PROOF( prove_decoder_start )
{
  Dec d;
  d.n = vp_u64( "n" );
  REQUIRES( d.n <= ( 1ull << 32 ) );
  d.buf = vp_bytes( "in", d.n );
  const bool complete = vp_bool( "complete" );
  BoolDecoder dec( Chunk( d.buf, d.n ), complete );
  COVER( "decoder built" );
  ENSURES( dec.range_ == 255, "decoding starts with the whole interval" );
  ENSURES( dec.bit_count_ == 0 and dec.value_ == ( uint32_t( at( d, 0 ) ) << 8 | at( d, 1 ) ), "the window starts with the first two bytes, zero-extended" );
  ENSURES( dec.chunk_.size() == ( d.n < 2 ? 0 : d.n - 2 ), "two bytes are consumed" );
  ENSURES( dec.chunk_.buffer() == d.buf + ( d.n < 2 ? d.n : 2 ), "the next byte to read is the third" );
  ENSURES( dec.valid() == ( complete or d.n >= 2 ), "running out of an incomplete chunk is reported" );
}

PROOF( prove_decoder_step )
{
  Dec d;
  d.n = vp_u64( "n" );
  REQUIRES( d.n <= ( 1ull << 32 ) );
  d.buf = vp_bytes( "in", d.n );
  const bool complete = vp_bool( "complete" ), valid = vp_bool( "valid" );
  BoolDecoder dec( Chunk( nullptr, 0 ), true );
  dec.chunk_ = Chunk( d.buf, d.n );
  dec.complete_chunk_ = complete;
  dec.valid_ = valid;
  const uint32_t r = vp_u32( "range" ), v = vp_u32( "value" );
  const unsigned bc = vp_u8( "bit_count" );
  REQUIRES( r >= 128 and r <= 255 and bc <= 7 );
  REQUIRES( v < ( r << 8 ) and ( v & ( ( 1u << bc ) - 1 ) ) == 0 );
  REQUIRES( complete ? valid : true );
  dec.range_ = r; dec.value_ = v; dec.bit_count_ = (char) bc;
  const Probability p = vp_u8( "prob" );
  COVER( "decoder invariant satisfiable" );

  // X: distance of the coded number from the low end of the interval, to five further bytes
  uint64_t next5 = 0;
  for ( unsigned t = 0; t < 5; t++ ) { next5 = next5 << 8 | at( d, t ); }
  const uint64_t X = ( uint64_t( v ) << 40 ) + ( next5 << bc );
  const uint64_t split = 1 + ( ( ( r - 1 ) * p ) >> 8 );
  const bool expect = X >= ( split << 48 );

  const bool bit = dec.get( p );

  ENSURES( bit == expect, "the decoded bit says on which side of the split the coded number lies" );
  const uint64_t r1 = bit ? r - split : split;
  uint64_t s = 0;
  for ( unsigned t = 1; t < 8; t++ ) { if ( ( r1 << ( s ) ) < 128 ) { s++; } }
  ENSURES( dec.range_ == ( r1 << s ), "the new range is the chosen sub-range, normalised" );
  const unsigned bc2 = dec.bit_count_;
  ENSURES( bc2 <= 7, "bit counter stays in its domain" );
  const bool fetched = bc + s >= 8;
  ENSURES( bc2 == ( ( bc + s ) & 7 ), "bits shifted in are counted" );
  ENSURES( dec.chunk_.size() == ( fetched and d.n ? d.n - 1 : d.n ), "exactly the bytes needed are consumed" );
  ENSURES( dec.chunk_.buffer() == d.buf + ( fetched and d.n ? 1 : 0 ), "input is consumed in order" );
  const uint64_t X1 = ( X - ( bit ? split << 48 : 0 ) ) << s; // exact: X1 < 2^64
  uint64_t next4 = 0;
  for ( unsigned t = 0; t < 4; t++ ) { next4 = next4 << 8 | at( d, t + ( fetched ? 1 : 0 ) ); }
  if ( fetched ) {
    COVER( "byte fetched" );
    ENSURES( ( X1 >> 8 ) == ( uint64_t( dec.value_ ) << 32 ) + ( next4 << bc2 ), "the distance from the new low end is tracked exactly (byte fetched)" );
  } else {
    ENSURES( X1 == ( uint64_t( dec.value_ ) << 40 ) + ( next5 << bc2 ), "the distance from the new low end is tracked exactly" );
  }
  ENSURES( dec.value_ < ( dec.range_ << 8 ) and ( dec.value_ & ( ( 1u << bc2 ) - 1 ) ) == 0, "decoder invariant is re-established" );
  ENSURES( dec.valid() == ( valid and ( complete or not fetched or d.n > 0 ) ), "running out of an incomplete chunk is reported" );
}

// the composition, through the public interface only
