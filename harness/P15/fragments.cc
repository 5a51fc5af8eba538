// Splitting a frame into packets and putting it together again.
#include "vp.h"
#include "vp_vec.h"
#include "raw.h"
#include "packet.hh"
//@ sources: src/net/packet.cc
//@ flags: -I/repo/src/net
//@ noop: std::ostream.*operator<<.*|std::basic_ostream.*operator<<.*

static const uint64_t PAYLOAD = 1400;

// one packet cut out of a frame of any length
PROOF( prove_cut )
{
  const uint64_t n = vp_u64( "frame_size" );
  REQUIRES( n > 0 and n <= 65535 * PAYLOAD );
  uint8_t * const p = vp_bytes( "frame", n );
  std::vector<uint8_t> & frame = vp_leak( std::vector<uint8_t>() );
  vp_vector( frame, p, n, n );
  const uint16_t no = vp_u16( "fragment_no" ), connection = vp_u16( "connection" ), time = vp_u16( "time" );
  const uint32_t source = vp_u32( "source" ), target = vp_u32( "target" ), frame_no = vp_u32( "frame_no" );
  const uint64_t first = PAYLOAD * no;
  REQUIRES( first < n );
  size_t next = 0;
  const Packet & q = vp_leak( Packet( frame, connection, source, target, frame_no, no, time, next ) );
  const uint64_t len = n - first < PAYLOAD ? n - first : PAYLOAD;
  COVER( "cut" );
  ENSURES( q.valid() and q.connection_id() == connection and q.source_state() == source and q.target_state() == target
           and q.frame_no() == frame_no and q.fragment_no() == no and q.time_since_last() == time, "a packet carries the identity of its frame" );
  ENSURES( q.payload().size() == len, "a packet carries at most 1400 bytes, as many as remain" );
  ENSURES( next == first + len, "the next packet starts where this one ends" );
  const uint64_t i = vp_u64( "index" );
  if ( i < len ) { ENSURES( uint8_t( q.payload().data()[ i ] ) == p[ first + i ], "a packet carries the bytes at its place in the frame" ); }
}

static void name( Packet & q )
{
  q.connection_id_ = vp_u16( "p_connection" ); q.source_state_ = vp_u32( "p_source" ); q.target_state_ = vp_u32( "p_target" );
  q.frame_no_ = vp_u32( "p_frame_no" ); q.fragment_no_ = vp_u16( "p_fragment_no" ); q.fragments_in_this_frame_ = vp_u16( "p_fragments" );
  q.time_since_last_ = vp_u32( "p_time" );
}
static bool foreign( const FragmentedFrame & f, const Packet & q )
{
  return q.connection_id_ != f.connection_id_ or q.source_state_ != f.source_state_ or q.target_state_ != f.target_state_
    or q.fragments_in_this_frame_ != f.fragments_in_this_frame_ or q.frame_no_ != f.frame_no_ or q.fragment_no_ >= f.fragments_in_this_frame_;
}

// One arrival at a reassembly buffer in any state, of any number of fragments.  Only the slot with the
// packet's number exists: touching any other one fails the memory-safety obligations.
PROOF( prove_arrival )
{
  FragmentedFrame & f = raw<FragmentedFrame>();
  f.connection_id_ = vp_u16( "connection" ); f.source_state_ = vp_u32( "source" ); f.target_state_ = vp_u32( "target" );
  f.frame_no_ = vp_u32( "frame_no" ); f.fragments_in_this_frame_ = vp_u16( "fragments" );
  const uint32_t remaining = f.remaining_fragments_ = vp_u32( "remaining" );

  Packet & q = raw<Packet>();
  q.valid_ = true;
  name( q );
  const uint64_t n = vp_u64( "payload_size" );
  REQUIRES( n > 0 and n <= ( 1ull << 16 ) );
  uint8_t * const payload = vp_bytes( "payload", n );
  new ( &q.payload_ ) std::string();
  vp_string( q.payload_, payload, n );

  Packet & slot = raw<Packet>();
  const bool there = slot.valid_ = vp_cases( vp_bool( "there" ), 0, 1 );
  slot.connection_id_ = f.connection_id_; slot.source_state_ = f.source_state_; slot.target_state_ = f.target_state_;
  slot.frame_no_ = f.frame_no_; slot.fragment_no_ = q.fragment_no_; slot.fragments_in_this_frame_ = f.fragments_in_this_frame_;
  slot.time_since_last_ = vp_u32( "slot_time" );
  uint64_t m = 0;
  uint8_t * old = nullptr;
  new ( &slot.payload_ ) std::string();
  if ( there ) {
    m = vp_u64( "slot_size" );
    REQUIRES( m > 0 and m <= ( 1ull << 16 ) );
    old = vp_bytes( "slot", m );
    vp_string( slot.payload_, old, m );
  }
  REQUIRES( there or remaining > 0 );
  Packet * * const v = reinterpret_cast<Packet **>( &f.fragments_ );
  v[ 0 ] = &slot - q.fragment_no_;
  v[ 1 ] = v[ 2 ] = v[ 0 ] + f.fragments_in_this_frame_;

  bool refused = false;
  try {
    f.add_packet( q );
  } catch ( const std::exception & ) {
    refused = true;
  }
  const bool stranger = foreign( f, q );
  ENSURES( refused == stranger, "exactly the packets of another frame or connection are refused" );
  if ( stranger ) { COVER( "stranger" ); } else { COVER( "welcome" ); }
  const bool taken = not there and not stranger;
  ENSURES( f.remaining_fragments_ == remaining - taken, "a fragment is counted when it arrives for the first time, and only then" );
  ENSURES( f.complete() == ( remaining - taken == 0 ), "the frame is complete when nothing is missing" );
  ENSURES( slot.valid_ == ( there or taken ), "a slot is filled by its fragment and stays filled" );
  const uint64_t i = vp_u64( "index" );
  if ( taken ) {
    ENSURES( slot.payload_.size() == n and slot.fragment_no_ == q.fragment_no_, "an arriving fragment fills its slot" );
    if ( i < n ) { ENSURES( uint8_t( slot.payload_.data()[ i ] ) == payload[ i ], "a filled slot holds the payload that arrived" ); }
  } else if ( there ) {
    ENSURES( slot.payload_.size() == m, "a fragment that is there is not replaced" );
    if ( i < m ) { ENSURES( uint8_t( slot.payload_.data()[ i ] ) == old[ i ], "the bytes that are there are not replaced" ); }
  }
}

// the buffer made from the first packet to arrive (any of up to four fragments)
PROOF( bounded_first_arrival )
{
  Packet & q = raw<Packet>();
  q.valid_ = true;
  name( q );
  const uint16_t n_frag = vp_cases( vp_nondet( "count", 0, 2 ), 0, 3 ) + 1;
  const uint64_t no = vp_cases( vp_nondet( "number", 0, 2 ), 0, 3 );
  q.fragments_in_this_frame_ = n_frag;
  q.fragment_no_ = no;
  const uint16_t connection = vp_u16( "connection" );
  const uint64_t n = vp_u64( "payload_size" );
  REQUIRES( n > 0 and n <= ( 1ull << 16 ) );
  uint8_t * const payload = vp_bytes( "payload", n );
  new ( &q.payload_ ) std::string();
  vp_string( q.payload_, payload, n );
  const FragmentedFrame * f = nullptr;
  try {
    f = new FragmentedFrame( connection, q );
  } catch ( const std::exception & ) {
    ENSURES( connection != q.connection_id_ or no >= n_frag, "only a packet of another connection is refused" );
    return;
  }
  COVER( "made" );
  ENSURES( connection == q.connection_id_ and no < n_frag, "a packet of another connection does not start a frame" );
  ENSURES( f->connection_id() == connection and f->source_state() == q.source_state_ and f->target_state() == q.target_state_
           and f->frame_no() == q.frame_no_ and f->fragments_in_this_frame() == n_frag, "the frame has the identity of its packets" );
  ENSURES( f->remaining_fragments_ == n_frag - 1u and f->complete() == ( n_frag == 1 ), "all other fragments are missing" );
  ENSURES( f->fragments_.size() == n_frag, "there is a slot for every fragment" );
  for ( unsigned k = 0; k < n_frag; k++ ) { ENSURES( f->fragments_[ k ].valid_ == ( k == no ), "only the arrived fragment is there" ); }
  const uint64_t i = vp_u64( "index" );
  ENSURES( f->fragments_[ no ].payload_.size() == n, "the arrived fragment has its payload" );
  if ( i < n ) { ENSURES( uint8_t( f->fragments_[ no ].payload_.data()[ i ] ) == payload[ i ], "the arrived fragment has its bytes" ); }
}

// putting together up to three fragments of any contents
static FragmentedFrame & with_fragments( const unsigned n, uint8_t * const p[], const uint64_t len[], const bool valid[] )
{
  FragmentedFrame & f = raw<FragmentedFrame>();
  f.fragments_in_this_frame_ = n;
  f.remaining_fragments_ = 0;
  new ( &f.fragments_ ) std::vector<Packet>( n );
  for ( unsigned k = 0; k < n; k++ ) {
    Packet & s = f.fragments_[ k ];
    f.remaining_fragments_ += not valid[ k ];
    s.valid_ = valid[ k ];
    if ( valid[ k ] ) { vp_string( s.payload_, p[ k ], len[ k ] ); }
  }
  return f;
}

PROOF( bounded_assemble )
{
  const unsigned n = vp_cases( vp_nondet( "count", 0, 2 ), 0, 3 );
  REQUIRES( n > 0 );
  uint8_t * p[ 3 ];
  uint64_t len[ 3 ];
  bool valid[ 3 ], all = true;
  static const char * const names[ 3 ] = { "payload0", "payload1", "payload2" };
  uint64_t total = 0, prefix = 0;
  for ( unsigned k = 0; k < n; k++ ) {
    len[ k ] = vp_u16( "size", k );
    REQUIRES( len[ k ] > 0 );
    p[ k ] = vp_bytes( names[ k ], len[ k ] );
    valid[ k ] = vp_cases( vp_bool( "valid", k ), 0, 1 );
    all = all and valid[ k ];
    total += len[ k ];
    if ( all ) { prefix += len[ k ]; }
  }
  const FragmentedFrame & f = with_fragments( n, p, len, valid );
  ENSURES( f.complete() == all, "a frame is complete when every fragment is there" );
  const uint64_t i = vp_u64( "index" );
  const std::string * whole = nullptr;
  try {
    whole = new std::string( f.frame() );
  } catch ( const std::exception & ) {
    COVER( "incomplete" );
  }
  ENSURES( ( whole != nullptr ) == all, "only a complete frame is handed out" );
  if ( whole ) { ENSURES( whole->size() == total, "the frame is as long as its fragments together" ); }
  const std::string & part = vp_leak( f.partial_frame() );
  ENSURES( part.size() == prefix, "the partial frame is the fragments up to the first missing one" );
  uint64_t at = 0;
  bool reached = true;
  for ( unsigned k = 0; k < n; k++ ) {
    reached = reached and valid[ k ];
    if ( i < len[ k ] ) {
      COVER( "byte" );
      if ( whole ) { ENSURES( uint8_t( whole->data()[ at + i ] ) == p[ k ][ i ], "the frame is its fragments in order" ); }
      if ( reached ) { ENSURES( uint8_t( part.data()[ at + i ] ) == p[ k ][ i ], "the partial frame is its fragments in order" ); }
    }
    at += len[ k ];
  }
}

// cutting a frame of up to three packets
PROOF( bounded_split )
{
  const uint64_t n = vp_u64( "frame_size" );
  REQUIRES( n > 0 and n <= 3 * PAYLOAD );
  uint8_t * const p = vp_bytes( "frame", n );
  std::vector<uint8_t> & frame = vp_leak( std::vector<uint8_t>() );
  vp_vector( frame, p, n, n );
  const uint16_t connection = vp_u16( "connection" );
  const uint32_t source = vp_u32( "source" ), target = vp_u32( "target" ), frame_no = vp_u32( "frame_no" ), time = vp_u32( "time" );
  const FragmentedFrame & f = *new FragmentedFrame( connection, source, target, frame_no, time, frame );
  const unsigned count = ( n + PAYLOAD - 1 ) / PAYLOAD;
  ENSURES( f.connection_id() == connection and f.source_state() == source and f.target_state() == target and f.frame_no() == frame_no, "the frame has the identity given" );
  ENSURES( f.complete(), "a frame that is cut is complete" );
  ENSURES( f.fragments_.size() == count and f.fragments_in_this_frame() == count, "a frame is cut into as many packets as needed" );
  const uint64_t i = vp_u64( "index" );
  for ( unsigned k = 0; k < 3; k++ ) {
    if ( k < count ) {
      COVER( "fragment" );
      const Packet & q = f.fragments_[ k ];
      const uint64_t len = n - PAYLOAD * k < PAYLOAD ? n - PAYLOAD * k : PAYLOAD;
      ENSURES( q.valid() and q.connection_id() == connection and q.source_state() == source and q.target_state() == target and q.frame_no() == frame_no
               and q.fragment_no() == k and q.fragments_in_this_frame() == count, "every packet names its frame and its place in it" );
      ENSURES( q.time_since_last() == ( k == 0 ? time : 0 ), "the time since the previous frame travels with the first packet" );
      ENSURES( q.payload().size() == len, "the packets cover the frame" );
      if ( i < len ) { ENSURES( uint8_t( q.payload().data()[ i ] ) == p[ PAYLOAD * k + i ], "the packets hold the bytes of the frame in order" ); }
    }
  }
}
