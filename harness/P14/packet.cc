// Wire format of media packets and acknowledgements.
#include "vp.h"
#include "vp_vec.h"
#include "raw.h"
#include "packet.hh"
//@ sources: src/net/packet.cc
//@ flags: -I/repo/src/net

static uint32_t le( const uint8_t * p, const unsigned n )
{
  uint32_t v = 0;
  for ( unsigned i = 0; i < n; i++ ) { v |= uint32_t( p[ i ] ) << ( 8 * i ); }
  return v;
}

// any datagram
PROOF( prove_parse_packet )
{
  const uint64_t n = vp_u64( "size" );
  REQUIRES( n <= ( 1ull << 20 ) );
  uint8_t * const p = vp_bytes( "datagram", n );
  Packet * q = nullptr;
  try {
    q = &vp_leak( Packet( Chunk( p, n ) ) );
  } catch ( const std::exception & ) {
    COVER( "refused" );
    ENSURES( n <= 22 or le( p + 14, 2 ) >= le( p + 16, 2 ), "only malformed packets are refused" );
    return;
  }
  COVER( "accepted" );
  ENSURES( n > 22, "packets without a payload are refused" );
  if ( n <= 22 ) { return; }
  ENSURES( le( p + 14, 2 ) < le( p + 16, 2 ), "a fragment number outside the frame is refused" );
  ENSURES( q->valid(), "a parsed packet is valid" );
  ENSURES( q->connection_id() == le( p, 2 ) and q->source_state() == le( p + 2, 4 ) and q->target_state() == le( p + 6, 4 )
           and q->frame_no() == le( p + 10, 4 ) and q->fragment_no() == le( p + 14, 2 ) and q->fragments_in_this_frame() == le( p + 16, 2 )
           and q->time_since_last() == le( p + 18, 4 ), "the fields are those on the wire" );
  ENSURES( q->payload().size() == n - 22, "the payload is the rest of the datagram" );
  const uint64_t i = vp_u64( "index" );
  if ( i < n - 22 ) { ENSURES( uint8_t( q->payload().data()[ i ] ) == p[ 22 + i ], "the payload bytes are those on the wire" ); }
}

PROOF( prove_packet_round_trip )
{
  Packet & q = raw<Packet>();
  new ( &q.payload_ ) std::string();
  q.valid_ = true;
  q.connection_id_ = vp_u16( "connection" ); q.source_state_ = vp_u32( "source" ); q.target_state_ = vp_u32( "target" );
  q.frame_no_ = vp_u32( "frame" ); q.fragment_no_ = vp_u16( "fragment" ); q.fragments_in_this_frame_ = vp_u16( "fragments" );
  q.time_since_last_ = vp_u32( "time" );
  REQUIRES( q.fragment_no_ < q.fragments_in_this_frame_ );
  const uint64_t n = vp_u64( "payload_size" );
  REQUIRES( n > 0 and n <= ( 1ull << 20 ) );
  uint8_t * const p = vp_bytes( "payload", n );
  vp_string( q.payload_, p, n );

  const std::string & wire = vp_leak( q.to_string() );
  ENSURES( wire.size() == n + 22, "a packet is a 22-byte header and the payload" );
  bool ok = true;
  try {
    const Packet & r = vp_leak( Packet( Chunk( wire ) ) );
    COVER( "parsed" );
    ENSURES( r.valid() and r.connection_id() == q.connection_id_ and r.source_state() == q.source_state_ and r.target_state() == q.target_state_
             and r.frame_no() == q.frame_no_ and r.fragment_no() == q.fragment_no_ and r.fragments_in_this_frame() == q.fragments_in_this_frame_
             and r.time_since_last() == q.time_since_last_, "every field survives the wire" );
    ENSURES( r.payload().size() == n, "payload length survives the wire" );
    const uint64_t i = vp_u64( "index" );
    if ( i < n ) { ENSURES( uint8_t( r.payload().data()[ i ] ) == p[ i ], "payload bytes survive the wire" ); }
  } catch ( const std::exception & ) {
    ok = false;
  }
  ENSURES( ok, "a serialized packet is accepted" );
}

PROOF( prove_header_fields )
{
  const uint16_t a = vp_u16( "a" );
  const uint32_t b = vp_u32( "b" );
  const uint64_t c = vp_u64( "c" );
  const std::string & x = vp_leak( Packet::put_header_field( a ) ), & y = vp_leak( Packet::put_header_field( b ) ), & z = vp_leak( Packet::put_header_field( c ) );
  COVER( "fields" );
  ENSURES( x.size() == 2 and Chunk( x ).le16() == a, "a 16-bit field is two bytes, little-endian" );
  ENSURES( y.size() == 4 and Chunk( y ).le32() == b, "a 32-bit field is four bytes, little-endian" );
  ENSURES( z.size() == 8 and Chunk( z ).le64() == c, "a 64-bit field is eight bytes, little-endian" );
}

// acknowledgements: any datagram of up to 20 + 4 * 3 + 3 bytes, so any state count with up to three states present
PROOF( bounded_parse_ack )
{
  const uint64_t any = vp_nondet( "size", 0, 6 );
  REQUIRES( any <= 35 );
  const uint64_t n = vp_cases( any, 0, 35 );
  uint8_t * const p = vp_bytes( "datagram", n );
  AckPacket * q = nullptr;
  try {
    q = &vp_leak( AckPacket( Chunk( p, n ) ) );
  } catch ( const std::exception & ) {
    ENSURES( n < 20 or le( p + 16, 4 ) > ( n - 20 ) / 4, "only truncated acknowledgements are refused" );
    return;
  }
  COVER( "accepted" );
  ENSURES( n >= 20, "an acknowledgement without its header is refused" );
  if ( n < 20 ) { return; }
  const uint32_t count = le( p + 16, 4 );
  ENSURES( count <= ( n - 20 ) / 4, "an acknowledgement without all its states is refused" );
  ENSURES( q->connection_id() == le( p, 2 ) and q->frame_no() == le( p + 2, 4 ) and q->fragment_no() == le( p + 6, 2 )
           and q->avg_delay() == le( p + 8, 4 ) and q->current_state() == le( p + 12, 4 ), "the acknowledgement's fields are those on the wire" );
  ENSURES( q->complete_states_.size() == count, "the states are as many as the wire says" );
  for ( unsigned i = 0; i < 3; i++ ) {
    if ( i < count and i < ( n - 20 ) / 4 ) { ENSURES( q->complete_states_[ i ] == le( p + 20 + 4 * i, 4 ), "the states are those on the wire" ); }
  }
}

PROOF( bounded_ack_round_trip )
{
  const unsigned count = vp_cases( vp_nondet( "count", 0, 2 ), 0, 3 );
  std::deque<uint32_t> & states = vp_leak( std::deque<uint32_t>() );
  for ( unsigned i = 0; i < count; i++ ) { states.push_back( vp_u32( "state", i ) ); }
  const uint16_t connection = vp_u16( "connection" ), fragment = vp_u16( "fragment" );
  const uint32_t frame = vp_u32( "frame" ), delay = vp_u32( "delay" ), current = vp_u32( "current" );
  AckPacket & q = vp_leak( AckPacket( connection, frame, fragment, delay, current, states ) );
  ENSURES( q.connection_id() == connection and q.frame_no() == frame and q.fragment_no() == fragment and q.avg_delay() == delay
           and q.current_state() == current and q.complete_states_ == states, "an acknowledgement holds what it was made of" );
  const std::string & wire = vp_leak( q.to_string() );
  ENSURES( wire.size() == 20 + 4 * count, "an acknowledgement is a 20-byte header and its states" );
  bool ok = true;
  try {
    const AckPacket & r = vp_leak( AckPacket( Chunk( wire ) ) );
    COVER( "parsed" );
    ENSURES( r.connection_id() == connection and r.frame_no() == frame and r.fragment_no() == fragment and r.avg_delay() == delay
             and r.current_state() == current, "every field of an acknowledgement survives the wire" );
    ENSURES( r.complete_states_.size() == count, "the number of states survives the wire" );
    for ( unsigned i = 0; i < count; i++ ) { ENSURES( r.complete_states_[ i ] == vp_u32( "state", i ), "every state survives the wire" ); }
  } catch ( const std::exception & ) {
    ok = false;
  }
  ENSURES( ok, "a serialized acknowledgement is accepted" );
}
