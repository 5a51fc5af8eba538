// Compressed-frame container: frame tag, first partition, DCT partitions.
#include "vp.h"
#include "vp_vec.h"
#include "exception.hh"
#include "uncompressed_chunk.hh"
//@ sources: src/decoder/uncompressed_chunk.cc

static uint64_t n;
static const uint8_t * p;

static uint8_t B( const uint64_t i ) { return p[ i ]; }

PROOF( prove_frame_tag )
{
  n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 32 ) );
  p = vp_bytes( "frame", n );
  const uint16_t w = vp_u16( "width" ), h = vp_u16( "height" );
  const bool partial = vp_bool( "accept_partial" );

  int outcome = 0; // 0 accepted, 1 invalid, 2 unsupported
  bool key = false, show = false, experimental = false;
  LoopFilterType lf = LoopFilterType::Normal;
  CorruptionLevel level = NO_CORRUPTION;
  Chunk first( nullptr, 0 ), rest( nullptr, 0 );
  try {
    UncompressedChunk u( Chunk( p, n ), w, h, partial );
    key = u.key_frame(); show = u.show_frame(); experimental = u.experimental();
    lf = u.loop_filter_type(); level = u.corruption_level();
    first = u.first_partition(); rest = u.rest_;
  } catch ( const Invalid & ) {
    outcome = 1;
  } catch ( const Unsupported & ) {
    outcome = 2;
  }

  if ( n < 3 ) {
    COVER( "too short for a tag" );
    const bool bad_version = n > 0 and ( ( B( 0 ) >> 1 ) & 7 ) != 0 and ( ( B( 0 ) >> 1 ) & 7 ) != 4 and ( ( B( 0 ) >> 1 ) & 7 ) != 6;
    if ( bad_version ) {
      ENSURES( outcome != 0, "a short frame of an unsupported version is refused" );
    } else if ( partial ) {
      ENSURES( outcome == 0 and level == CORRUPTED_FRAME and not key and first.size() == 0, "a frame without a tag is accepted only as wholly corrupted" );
    } else {
      ENSURES( outcome == 1, "a frame without a tag is invalid" );
    }
    return;
  }
  const uint32_t tag = B( 0 ) | uint32_t( B( 1 ) ) << 8 | uint32_t( B( 2 ) ) << 16;
  const bool t_key = not ( tag & 1 );
  const unsigned version = ( tag >> 1 ) & 7;
  const bool t_show = ( tag >> 4 ) & 1;
  const uint64_t first_len = tag >> 5;
  const uint64_t offset = t_key ? 10 : 3;

  if ( version != 0 and version != 4 and version != 6 ) {
    ENSURES( outcome == 2, "unsupported bitstream versions are refused" );
    return;
  }
  const bool truncated = n <= offset + first_len;
  if ( not partial and truncated ) {
    COVER( "truncated first partition" );
    ENSURES( outcome == 1, "a frame that ends inside its first partition is invalid" );
    return;
  }
  if ( n < offset ) { // partial accepted
    ENSURES( outcome == 0 and level == CORRUPTED_FRAME and not key and first.size() == 0, "a key frame without its fixed header is wholly corrupted" );
    return;
  }
  if ( t_key ) {
    if ( not ( B( 3 ) == 0x9d and B( 4 ) == 0x01 and B( 5 ) == 0x2a ) ) {
      ENSURES( outcome == 1, "a key frame needs the start code" );
      return;
    }
    const unsigned fw = B( 6 ) | B( 7 ) << 8, fh = B( 8 ) | B( 9 ) << 8;
    if ( fw != w or fh != h or w > 16383 or h > 16383 ) {
      ENSURES( outcome == 2, "a key frame of other dimensions, or with scaling, is refused" );
      return;
    }
    COVER( "key frame accepted" );
  }
  COVER( "frame accepted" );
  ENSURES( outcome == 0, "a well-formed frame is accepted" );
  ENSURES( key == t_key and show == t_show, "key and show flags come from the tag" );
  ENSURES( experimental == ( version >= 4 ) and lf == ( version == 6 ? LoopFilterType::NoFilter : LoopFilterType::Normal ), "version selects the filter kind" );
  ENSURES( level == ( truncated ? CORRUPTED_FIRST_PARTITION : NO_CORRUPTION ), "truncation is flagged exactly when the first partition is cut" );
  ENSURES( first.buffer() == p + offset, "the first partition starts after the header" );
  ENSURES( first.size() == ( truncated ? n - offset : first_len ), "the first partition has the declared length" );
  if ( not truncated ) {
    ENSURES( rest.buffer() == p + offset + first_len and rest.size() == n - offset - first_len, "residual data is everything after the first partition" );
  }
}

// partitions of the residual data: sizes from the 3-byte table, contiguous, nothing lost
template <unsigned num>
static void partitions()
{
  n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 32 ) );
  p = vp_bytes( "rest", n );
  static const uint8_t small[ 4 ] = { 1, 0, 0, 0 };
  UncompressedChunk u( Chunk( small, 4 ), 0, 0, true );
  u.rest_ = Chunk( p, n );

  uint64_t table = 3 * ( num - 1 );
  bool ok = n >= table;
  uint64_t left = n - table, pos = table, len[ num ] = {}, start[ num ] = {};
  if ( ok ) {
    for ( unsigned i = 0; i < num; i++ ) {
      start[ i ] = pos;
      if ( i + 1 < num ) {
        len[ i ] = B( 3 * i ) | uint64_t( B( 3 * i + 1 ) ) << 8 | uint64_t( B( 3 * i + 2 ) ) << 16;
        ok = ok and len[ i ] <= left;
        left -= len[ i ];
        pos += len[ i ];
      } else {
        len[ i ] = left;
      }
    }
  }
  bool threw = false;
  try {
    const std::vector<Chunk> parts = u.dct_partitions( num );
    COVER( "partitions found" );
    ENSURES( ok, "partition sizes that leave the frame are refused" );
    ENSURES( parts.size() == num, "as many partitions as asked for" );
    for ( unsigned i = 0; i < num; i++ ) {
      ENSURES( parts[ i ].buffer() == p + start[ i ] and parts[ i ].size() == len[ i ], "each partition is exactly the declared byte range, the last one takes the rest" );
    }
  } catch ( const std::out_of_range & ) {
    threw = true;
    COVER( "partitions refused" );
  }
  ENSURES( threw == not ok, "partitions are refused exactly when the declared sizes do not fit" );
}
PROOF( prove_partitions_1 ) {
  n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 32 ) );
  p = vp_bytes( "rest", n );
  static const uint8_t small[ 4 ] = { 1, 0, 0, 0 };
  UncompressedChunk u( Chunk( small, 4 ), 0, 0, true );
  u.rest_ = Chunk( p, n );
  const std::vector<Chunk> parts = u.dct_partitions( 1 );
  COVER( "one partition" );
  ENSURES( parts.size() == 1 and parts[ 0 ].buffer() == p and parts[ 0 ].size() == n, "a single partition is all residual data" );
}
PROOF( prove_partitions_2 ) { partitions<2>(); }
PROOF( prove_partitions_4 ) { partitions<4>(); }
PROOF( prove_partitions_8 ) { partitions<8>(); }
