// DecoderState::parse_and_apply: how probabilities, segmentation and filter adjustments carry over from frame to frame.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "ghost_coder.h"
#include "any_header.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "decoder.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc src/decoder/loopfilter.cc src/decoder/probability_tables.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ replace: Frame<KeyFrameHeader, .*>::Frame\(bool, unsigned int, unsigned int, BoolDecoder&\) => key_frame
//@ replace: Frame<InterFrameHeader, .*>::Frame\(bool, unsigned int, unsigned int, BoolDecoder&\) => inter_frame
//@ replace: Frame<KeyFrameHeader, .*>::parse_macroblock_headers\(.*\) => key_headers
//@ replace: Frame<InterFrameHeader, .*>::parse_macroblock_headers\(.*\) => inter_headers
//@ replace: Frame<KeyFrameHeader, .*>::update_segmentation\(.*\) => key_map
//@ replace: Frame<InterFrameHeader, .*>::update_segmentation\(.*\) => inter_map
//@ replace: Frame<KeyFrameHeader, .*>::parse_tokens\(.*\) => key_tokens
//@ replace: Frame<InterFrameHeader, .*>::parse_tokens\(.*\) => inter_tokens
//@ replace: UncompressedChunk::dct_partitions\(.*\) const => partitions

#include "state_spec.h"
/* ghost state: what the frame object was given */
static KeyFrameHeader * key_header;
static InterFrameHeader * inter_header;
static unsigned calls, step_headers, step_map, step_tokens;
static Flat seen_headers, seen_tokens;
static unsigned frame_w, frame_h; static bool frame_show;
static SegmentationMap * seen_map;
static void * the_frame, * other_frame;
static uint8_t asked_partitions;

extern "C" void key_frame( KeyFrame * f, const bool show, const unsigned w, const unsigned h, BoolDecoder & )
{
  the_frame = f; frame_show = show; frame_w = w; frame_h = h;
  memcpy( (void *) &f->header_, (void *) key_header, sizeof( KeyFrameHeader ) );
}
extern "C" void inter_frame( InterFrame * f, const bool show, const unsigned w, const unsigned h, BoolDecoder & )
{
  the_frame = f; frame_show = show; frame_w = w; frame_h = h;
  memcpy( (void *) &f->header_, (void *) inter_header, sizeof( InterFrameHeader ) );
}
static void headers( void * f, const ProbabilityTables & t ) { other_frame = f; flatten( t, seen_headers ); step_headers = ++calls; }
static void tokens_( void * f, const ProbabilityTables & t ) { other_frame = f; flatten( t, seen_tokens ); step_tokens = ++calls; }
static void map_( void * f, SegmentationMap & m ) { other_frame = f; seen_map = &m; step_map = ++calls; }
extern "C" void key_headers( KeyFrame * f, BoolDecoder &, const ProbabilityTables & t, const bool ) { headers( f, t ); }
extern "C" void inter_headers( InterFrame * f, BoolDecoder &, const ProbabilityTables & t, const bool ) { headers( f, t ); }
extern "C" void key_map( KeyFrame * f, SegmentationMap & m ) { map_( f, m ); }
extern "C" void inter_map( InterFrame * f, SegmentationMap & m ) { map_( f, m ); }
extern "C" void key_tokens( KeyFrame * f, std::vector<Chunk>, const ProbabilityTables & t ) { tokens_( f, t ); }
extern "C" void inter_tokens( InterFrame * f, std::vector<Chunk>, const ProbabilityTables & t ) { tokens_( f, t ); }
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::vector<Chunk> partitions( const UncompressedChunk *, const uint8_t n ) { asked_partitions = n; return {}; }

static UncompressedChunk & some_chunk( const bool key )
{
  UncompressedChunk & u = raw<UncompressedChunk>();
  u.key_frame_ = key; u.experimental_ = false; u.show_frame_ = vp_bool( "show" );
  u.corruption_level_ = (CorruptionLevel) ( vp_u8( "corruption" ) & 3 );
  new ( &u.first_partition_ ) Chunk( nullptr, 0 );
  new ( &u.rest_ ) Chunk( nullptr, 0 );
  calls = step_headers = step_map = step_tokens = 0; seen_map = nullptr; the_frame = other_frame = nullptr;
  return u;
}
template <class H> static void common( const H & h, DecoderState & s, const Before & b, const UncompressedChunk & u, const bool key )
{
  ENSURES( s.width == MW and s.height == MH, "frame size unchanged" );
  ENSURES( frame_w == MW and frame_h == MH and frame_show == u.show_frame_, "the frame has the state's size and the container's show flag" );
  ENSURES( step_headers and step_tokens > step_headers and other_frame == the_frame, "modes and then coefficients of the new frame are parsed" );
  ENSURES( asked_partitions == ( 1 << h.log2_number_of_dct_partitions.i_ ), "partition count" );
  /* segmentation */
  const auto & us = h.update_segmentation;
  ENSURES( s.segmentation.initialized_ == us.initialized_, "segmentation is kept exactly while headers enable it" );
  if ( us.initialized_ ) {
    const Segmentation & g = s.segmentation.object_;
    const bool had = b.segmented and not key;
    const auto & fd = us.object_.segment_feature_data;
    ENSURES( g.absolute_segment_adjustments == ( fd.initialized_ ? (bool) fd.object_.segment_feature_mode.i_ : had ? b.absolute : false ), "segment adjustment mode changes only where the header updates it" );
    for ( unsigned i = 0; i < 4; i++ ) {
      const auto & q = fd.object_.quantizer_update.at( i );
      const auto & f = fd.object_.loop_filter_update.at( i );
      ENSURES( g.segment_quantizer_adjustments.at( i ) == ( fd.initialized_ ? ( q.initialized_ ? (int) q.object_.i_ : 0 ) : had ? b.sq[ i ] : 0 ), "segment quantizers change only where the header updates them" );
      ENSURES( g.segment_filter_adjustments.at( i ) == ( fd.initialized_ ? ( f.initialized_ ? (int) f.object_.i_ : 0 ) : had ? b.sf[ i ] : 0 ), "segment filter levels change only where the header updates them" );
    }
    ENSURES( seen_map == &g.map and step_map > step_headers, "the persistent map is updated from the new frame's macroblocks" );
    ENSURES( g.map.width() == MW and g.map.height() == MH, "map size" );
    if ( had ) {
      for ( unsigned i = 0; i < MW * MH; i++ ) { ENSURES( g.map.at( i % MW, i / MW ) == b.map[ i ], "segment numbers persist until a macroblock updates them" ); }
      COVER( "segmentation carried over" );
    }
    COVER( "segmentation" );
  } else {
    ENSURES( not step_map, "no map is updated without segmentation" );
    COVER( "no segmentation" );
  }
  check_adjustments( h, s, b, key );
}

template <class F, class H> static void check( H & h, const bool key )
{
  Before & b = *new Before();
  DecoderState & s = some_state( b );
  UncompressedChunk & u = some_chunk( key );
  Flat & base = *new Flat(), & frame = *new Flat(), & after = *new Flat();
  if ( key ) { defaults( base ); } else { base = b.t; }
  frame = base;
  new F( s.parse_and_apply<F>( u ) );
  add_tokens( frame, h );
  if ( not key ) { add_modes( frame, *(InterFrameHeader *) &h ); }
  SAME( seen_headers, frame, "modes are parsed with the updated tables" );
  SAME( seen_tokens, frame, "coefficients are parsed with the updated tables" );
  flatten( s.probability_tables, after );
  if ( h.refresh_entropy_probs.i_ ) {
    SAME( after, frame, "updates are kept" );
    COVER( "tables kept" );
  } else {
    SAME( after, base, "updates are dropped after the frame" );
    COVER( "tables dropped" );
  }
  common( h, s, b, u, key );
}
PROOF( prove_key ) { if ( not vp_symbolic() ) { return; } key_header = &some_key_header(); check<KeyFrame>( *key_header, true ); }
PROOF( prove_inter ) { if ( not vp_symbolic() ) { return; } inter_header = &some_inter_header(); check<InterFrame>( *inter_header, false ); }
