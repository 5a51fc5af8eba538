// Writing a frame and parsing it back: make_frame is inverted by UncompressedChunk.
#include "vp.h"
#include "vp_vec.h"
#include "serializer.cc"
//@ sources: src/decoder/uncompressed_chunk.cc
//@ replace: std::vector<unsigned char, .*>::_M_check_len.* => vp_grow
//@ flags: -I/repo/src/encoder

template <unsigned num, bool fixed_lengths = false>
static void round_trip()
{
  const bool key = vp_cases( vp_bool( "key" ), 0, 1 ), show = vp_bool( "show" );
  const bool experimental = vp_bool( "experimental" ), ref_update = vp_bool( "reference_update" );
  REQUIRES( experimental or not ref_update ); // version 2 does not exist
  const uint16_t w = vp_u16( "width" ), h = vp_u16( "height" );

  const uint64_t n1 = vp_u32( "first_size" ) % ( 1 << 19 );
  std::vector<uint8_t> & first = vp_leak( std::vector<uint8_t>() );
  uint8_t * const p1 = vp_bytes( "first", n1 );
  vp_vector( first, p1, n1, n1 );

  std::vector<std::vector<uint8_t>> & dct = vp_leak( std::vector<std::vector<uint8_t>>( num ) );
  uint64_t len[ num ], total = 0;
  uint8_t * ptr[ num ];
  static const char * const names[ 8 ] = { "dct0", "dct1", "dct2", "dct3", "dct4", "dct5", "dct6", "dct7" };
  for ( unsigned i = 0; i < num; i++ ) {
    static const uint64_t lengths[ 8 ] = { 70000, 3, 0, 300, 16777215, 1, 256, 65536 };
    len[ i ] = fixed_lengths ? lengths[ i ] : vp_u32( "dct_size", i ) % ( 1 << 24 );
    total += len[ i ];
    ptr[ i ] = vp_bytes( names[ i ], len[ i ] );
    vp_vector( dct[ i ], ptr[ i ], len[ i ], len[ i ] );
  }
  REQUIRES( num > 1 or total > 0 ); // the coder never emits an empty partition

  std::vector<uint8_t> * frame = nullptr;
  try {
    frame = &vp_leak( make_frame( key, show, experimental, ref_update, w, h, first, dct ) );
  } catch ( const Invalid & ) {
    COVER( "too large" );
    ENSURES( w > 16383 or h > 16383, "only oversized frames are refused by the writer" );
    return;
  }
  ENSURES( w <= 16383 and h <= 16383, "oversized frames are refused by the writer" );
  const uint64_t head = key ? 10 : 3;
  ENSURES( frame->size() == head + n1 + 3 * ( num - 1 ) + total, "the frame is header, first partition, size table and partitions" );
  COVER( "written" );

  bool ok = true;
  try {
    const UncompressedChunk & u = vp_leak( UncompressedChunk( Chunk( frame->data(), frame->size() ), w, h, false ) );
    ENSURES( u.key_frame() == key and u.show_frame() == show and u.experimental() == experimental, "flags survive" );
    ENSURES( u.loop_filter_type() == ( ref_update ? LoopFilterType::NoFilter : LoopFilterType::Normal ), "filter kind survives" );
    ENSURES( u.corruption_level() == NO_CORRUPTION, "a written frame is not corrupt" );
    ENSURES( u.first_partition().size() == n1, "first partition length survives" );
    const uint64_t i = vp_u64( "index" );
    if ( i < n1 ) { ENSURES( u.first_partition().buffer()[ i ] == p1[ i ], "first partition bytes survive" ); }
    const std::vector<Chunk> & parts = vp_leak( u.dct_partitions( num ) );
    ENSURES( parts.size() == num, "partition count survives" );
    for ( unsigned k = 0; k < num; k++ ) {
      ENSURES( parts[ k ].size() == len[ k ], "partition lengths survive" );
      if ( i < len[ k ] ) {
        COVER( "partition byte" );
        ENSURES( parts[ k ].buffer()[ i ] == ptr[ k ][ i ], "partition bytes survive" );
      }
    }
  } catch ( const std::exception & ) {
    ok = false;
  }
  ENSURES( ok, "the parser accepts every frame the writer makes" );
}
PROOF( prove_round_trip_1 ) { round_trip<1>(); }
PROOF( prove_round_trip_2 ) { round_trip<2>(); }
// four and eight partitions: any contents, one set of lengths
PROOF( bounded_round_trip_4 ) { round_trip<4, true>(); }
PROOF( bounded_round_trip_8 ) { round_trip<8, true>(); }
