/* The arithmetic coder behind its contract (proved in P01): the decoder returns
   the bits that were put, in order, when asked with the same probabilities.
   The verifier replaces BoolEncoder::put and BoolDecoder::get by this ghost
   sequence; native replays run the real coder.
   Use with
     replace: BoolEncoder::put(.*) => ghost_put
     replace: BoolDecoder::get(.*) => ghost_get   */
#ifndef GHOST_CODER_H
#define GHOST_CODER_H
#include "vp.h"
#include "bool_encoder.hh"
static bool ghost_zero; /* parse as if every bit were zero */
#ifdef GHOST_COMPARE
static bool ghost_comparing; /* what is written is compared with what was written before */
extern "C" void ghost_put( BoolEncoder *, bool value, uint8_t prob )
{
  if ( ghost_comparing ) { ENSURES( vp_trace_get( 0, prob ) == value, "the bits written are those of the format" ); return; }
  vp_trace_put( 0, value, prob );
}
static BoolEncoder & ghost_comparer() { if ( vp_symbolic() ) { ghost_comparing = true; vp_trace_rewind( 0 ); } return *new BoolEncoder(); }
static void ghost_compared( BoolEncoder & expected, BoolEncoder & written )
{
  if ( vp_symbolic() ) { ghost_comparing = false; vp_trace_done( 0 ); return; }
  ENSURES( expected.finish() == written.finish(), "the bits written are those of the format" );
}
#else
extern "C" void ghost_put( BoolEncoder *, bool value, uint8_t prob ) { vp_trace_put( 0, value, prob ); }
#endif
extern "C" bool ghost_get( BoolDecoder *, uint8_t prob ) { if ( ghost_zero ) { return false; } return vp_trace_get( 0, prob ); }
static std::vector<uint8_t> * ghost_bytes;
/* a decoder that sees what the encoder wrote */
static BoolDecoder & ghost_reader( BoolEncoder & e )
{
  if ( vp_symbolic() ) {
    ghost_zero = false;
    vp_trace_rewind( 0 );
    return *new BoolDecoder( Chunk( nullptr, 0 ) );
  }
  ghost_bytes = new std::vector<uint8_t>( e.finish() );
  return *new BoolDecoder( Chunk( ghost_bytes->data(), ghost_bytes->size() ) );
}
/* the same bits from the start, for a second reader */
static BoolDecoder & ghost_again( BoolDecoder & d )
{
  if ( vp_symbolic() ) { vp_trace_rewind( 0 ); return d; }
  return *new BoolDecoder( Chunk( ghost_bytes->data(), ghost_bytes->size() ) );
}
static BoolDecoder & ghost_zeros()
{
  ghost_zero = true;
  return *new BoolDecoder( Chunk( nullptr, 0 ) );
}
/* an encoder as the property sees it; its reserved buffer is irrelevant to the verifier */
static BoolEncoder & ghost_writer()
{
  if ( vp_symbolic() ) { vp_trace_reset( 0 ); return *reinterpret_cast<BoolEncoder *>( operator new( sizeof( BoolEncoder ) ) ); }
  return *new BoolEncoder();
}
#endif
