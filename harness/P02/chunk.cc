// Bounds safety and value exactness of byte-chunk views.
#include "vp.h"
#include "chunk.hh"

static Chunk any_chunk( uint64_t & n )
{
  n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 40 ) );
  const uint8_t * p = vp_bytes( "data", n );
  return Chunk( p, n );
}

// sub-views: accepted exactly when the requested range lies inside the parent
PROOF( prove_subview )
{
  uint64_t n;
  Chunk c = any_chunk( n );
  const uint64_t off = vp_u64( "offset" ), len = vp_u64( "length" );
  COVER( "subview requires" );
  bool threw = false;
  try {
    Chunk s = c( off, len );
    COVER( "subview accepted" );
    ENSURES( off <= n and len <= n - off, "a sub-view is only handed out when it lies inside its parent" );
    ENSURES( s.buffer() == c.buffer() + off and s.size() == len, "a sub-view covers exactly the requested range" );
  } catch ( const std::out_of_range & ) {
    threw = true;
    COVER( "subview refused" );
  }
  ENSURES( threw == not ( off <= n and len <= n - off ), "a request is refused exactly when it leaves the parent" );
}

PROOF( prove_suffix )
{
  uint64_t n;
  Chunk c = any_chunk( n );
  const uint64_t off = vp_u64( "offset" );
  bool threw = false;
  try {
    Chunk s = c( off );
    COVER( "suffix accepted" );
    ENSURES( s.buffer() == c.buffer() + off and s.size() == n - off, "a suffix covers exactly the rest of its parent" );
  } catch ( const std::out_of_range & ) {
    threw = true;
    COVER( "suffix refused" );
  }
  ENSURES( threw == ( off > n ), "a suffix is refused exactly when it starts past the end" );
}

PROOF( prove_nested )
{
  uint64_t n;
  Chunk c = any_chunk( n );
  const uint64_t o1 = vp_u64( "o1" ), l1 = vp_u64( "l1" ), o2 = vp_u64( "o2" ), l2 = vp_u64( "l2" );
  try {
    Chunk s = c( o1, l1 )( o2, l2 );
    COVER( "nested accepted" );
    const uint64_t start = s.buffer() - c.buffer();
    ENSURES( start <= n and s.size() <= n - start, "nested sub-views never reach outside the outermost buffer" );
    ENSURES( start == o1 + o2 and s.size() == l2, "nested sub-views compose" );
  } catch ( const std::out_of_range & ) { COVER( "nested refused" ); }
}

PROOF( prove_reads )
{
  uint64_t n;
  Chunk c = any_chunk( n );
  const unsigned w = vp_split( vp_u8( "width" ) & 3, 0, 3 );
  const uint64_t need = 1ull << w;
  uint64_t v = 0;
  bool threw = false;
  try {
    switch ( w ) {
    case 0: v = c.octet(); break;
    case 1: v = c.le16(); break;
    case 2: v = c.le32(); break;
    default: v = c.le64(); break;
    }
    COVER( "read accepted" );
  } catch ( const std::out_of_range & ) {
    threw = true;
    COVER( "read refused" );
  }
  ENSURES( threw == ( need > n ), "a typed read is refused exactly when the view is too short" );
  if ( not threw ) {
    uint64_t expect = 0;
    for ( unsigned i = 0; i < need; i++ ) { expect |= uint64_t( c.buffer()[ i ] ) << ( 8 * i ); }
    ENSURES( v == expect, "typed reads are little-endian" );
  }
}

PROOF( prove_bits )
{
  uint64_t n;
  Chunk c = any_chunk( n );
  const uint64_t off = vp_split( vp_u8( "bit_offset" ) & 63, 0, 63 );
  const uint64_t len = vp_u8( "bit_length" );
  REQUIRES( len >= 1 );
  COVER( "bits requires" );
  uint64_t v = 0;
  bool threw = false;
  try {
    v = c.bits( off, len );
    COVER( "bits accepted" );
  } catch ( const std::out_of_range & ) { threw = true; }
  const bool fits = ( off + len <= 8 * n );
  if ( not threw ) {
    ENSURES( fits, "bit fields outside the view are refused" );
    ENSURES( off + len <= 64 and len <= 63, "unsupported bit fields are refused" );
    uint64_t expect = 0;
    for ( unsigned i = 0; i < 8; i++ ) {
      if ( 8 * i < off + len ) { expect |= uint64_t( c.buffer()[ i ] ) << ( 8 * i ); }
    }
    expect >>= off;
    expect &= ( 1ull << len ) - 1;
    ENSURES( v == expect, "a bit field is the little-endian bits requested" );
  } else {
    ENSURES( not fits or off + len > 64 or len > 63, "a supported bit field inside the view is never refused" );
  }
}
