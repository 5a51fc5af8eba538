// Frame::serialize: both partitions are coded with the tables the decoder will use for the frame.
#include <cstring>
#include <type_traits>
#include "vp.h"
#include "raw.h"
#include "any_header.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "decoder.cc"
#include "serializer.cc"
#include "state_spec.h"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc src/decoder/probability_tables.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ replace: Frame<.*>::serialize_first_partition\(.*\) const => first_partition
//@ replace: Frame<.*>::serialize_tokens\(.*\) const => tokens
//@ replace: make_frame\(.*\) => container

static const void * the_frame;
static Flat first_with, tokens_with;
static unsigned firsts, tokens_, containers;
static uint8_t code[ 3 ];
static const void * first_data, * tokens_data;
static bool key_flag, show_flag, as_given;
static unsigned c_w, c_h;
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::vector<uint8_t> first_partition( const void * f, const ProbabilityTables & t )
{
  ENSURES( f == the_frame, "of the frame itself" );
  firsts++; flatten( t, first_with );
  std::vector<uint8_t> v( 5 );
  first_data = v.data();
  return v;
}
extern "C" std::vector<std::vector<uint8_t>> tokens( const void * f, const ProbabilityTables & t )
{
  ENSURES( f == the_frame, "of the frame itself" );
  tokens_++; flatten( t, tokens_with );
  std::vector<std::vector<uint8_t>> v( 1 );
  tokens_data = v.data();
  return v;
}
extern "C" std::vector<uint8_t> container( const bool key, const bool show, const bool experimental, const bool reference_update, const uint16_t w, const uint16_t h,
                                           const std::vector<uint8_t> & first, const std::vector<std::vector<uint8_t>> & rest )
{
  containers++; key_flag = key; show_flag = show; c_w = w; c_h = h;
  as_given = not experimental and not reference_update and first.data() == first_data and rest.data() == tokens_data;
  return std::vector<uint8_t>( code, code + 3 );
}
template <class F, class H> static void check( H & h, const bool key )
{
  Before & b = *new Before();
  const DecoderState & s = some_state( b );
  F & f = raw<F>();
  memcpy( (void *) &f.header_, (const void *) &h, sizeof( H ) );
  f.show_ = vp_bool( "show" );
  f.display_width_ = vp_u16( "display_width" ); f.display_height_ = vp_u16( "display_height" );
  the_frame = &f;
  firsts = tokens_ = containers = 0;
  vp_fill( code, 3, "code" );
  Flat & frame = *new Flat( b.t ), & after = *new Flat();
  const std::vector<uint8_t> & out = *new std::vector<uint8_t>( f.serialize( s.probability_tables ) );
  add_tokens( frame, h );
  if ( not key ) { add_modes( frame, *(InterFrameHeader *) &h ); }
  ENSURES( firsts == 1 and tokens_ == 1 and containers == 1, "both parts are written once" );
  SAME( first_with, frame, "modes and vectors are coded with the tables the decoder will use" );
  SAME( tokens_with, frame, "coefficients are coded with the tables the decoder will use" );
  flatten( s.probability_tables, after );
  SAME( after, b.t, "the tables it is given stay as they are" );
  ENSURES( key_flag == key and show_flag == f.show_ and c_w == f.display_width_ and c_h == f.display_height_, "frame type, visibility and size are the frame's" );
  ENSURES( as_given, "the partitions are written as they were coded" );
  ENSURES( out.size() == 3 and out[ 0 ] == code[ 0 ] and out[ 1 ] == code[ 1 ] and out[ 2 ] == code[ 2 ], "the coded frame is returned" );
  COVER( "serialized" );
}
PROOF( prove_serialize_key ) { if ( not vp_symbolic() ) { return; } check<KeyFrame>( some_key_header(), true ); }
PROOF( prove_serialize_inter ) { if ( not vp_symbolic() ) { return; } check<InterFrame>( some_inter_header(), false ); }
