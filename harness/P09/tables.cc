// Probability tables: defaults of RFC 6386 and updates prescribed by a frame header.
#include "vp.h"
#include "raw.h"
#include "ghost_coder.h"
#include "any_header.h"
#include "rfc_tables.h"
#include "decoder.hh"
#include "probability_tables.cc"
//@ sources: src/decoder/vp8_prob_data.cc
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ flags: -I/repo/src/decoder

static uint8_t & coeff( ProbabilityTables & t, const unsigned n ) { return t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ); }

template <class T> static void any_tables( T & t )
{
  for ( unsigned n = 0; n < 1056; n++ ) { coeff( t, n ) = vp_u8( "old_token", n ); }
  for ( unsigned i = 0; i < 4; i++ ) { t.y_mode_probs.at( i ) = vp_u8( "old_y", i ); }
  for ( unsigned i = 0; i < 3; i++ ) { t.uv_mode_probs.at( i ) = vp_u8( "old_uv", i ); }
  for ( unsigned i = 0; i < 38; i++ ) { t.motion_vector_probs.at( i / 19 ).at( i % 19 ) = vp_u8( "old_mv", i ); }
}
template <class H> static uint8_t new_coeff( const H & h, const ProbabilityTables & old, const unsigned n )
{
  const auto & f = h.token_prob_update.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ).coeff_prob;
  return f.initialized_ ? f.object_.i_ : coeff( const_cast<ProbabilityTables &>( old ), n );
}

PROOF( prove_defaults )
{
  ProbabilityTables & t = *new ProbabilityTables();
  for ( unsigned n = 0; n < 1056; n++ ) { ENSURES( coeff( t, n ) == rfc_k_default_coeff_probs[ n ], "default token probabilities" ); }
  for ( unsigned i = 0; i < 4; i++ ) { ENSURES( t.y_mode_probs.at( i ) == rfc_k_default_y_mode_probs[ i ], "default luma mode probabilities" ); }
  for ( unsigned i = 0; i < 3; i++ ) { ENSURES( t.uv_mode_probs.at( i ) == rfc_k_default_uv_mode_probs[ i ], "default chroma mode probabilities" ); }
  for ( unsigned i = 0; i < 38; i++ ) { ENSURES( t.motion_vector_probs.at( i / 19 ).at( i % 19 ) == rfc_k_default_mv_probs[ i ], "default motion vector probabilities" ); }
  COVER( "defaults" );
}

template <class H> static void coeff_update( H & h )
{
  ProbabilityTables & t = raw<ProbabilityTables>(), & old = raw<ProbabilityTables>();
  any_tables( t ); any_tables( old );
  t.coeff_prob_update( h );
  for ( unsigned n = 0; n < 1056; n++ ) { ENSURES( coeff( t, n ) == new_coeff( h, old, n ), "a token probability changes exactly when updated" ); }
  bool same = true;
  for ( unsigned i = 0; i < 4; i++ ) { same &= t.y_mode_probs.at( i ) == old.y_mode_probs.at( i ); }
  for ( unsigned i = 0; i < 3; i++ ) { same &= t.uv_mode_probs.at( i ) == old.uv_mode_probs.at( i ); }
  for ( unsigned i = 0; i < 38; i++ ) { same &= t.motion_vector_probs.at( i / 19 ).at( i % 19 ) == old.motion_vector_probs.at( i / 19 ).at( i % 19 ); }
  ENSURES( same, "token updates change no other table" );
  COVER( "token update" );
}
PROOF( prove_coeff_update_key ) { coeff_update( some_key_header() ); }
PROOF( prove_coeff_update_inter ) { coeff_update( some_inter_header() ); }

PROOF( prove_update )
{
  InterFrameHeader & h = some_inter_header();
  ProbabilityTables & t = raw<ProbabilityTables>(), & old = raw<ProbabilityTables>();
  any_tables( t ); any_tables( old );
  t.update( h );
  for ( unsigned n = 0; n < 1056; n++ ) { ENSURES( coeff( t, n ) == new_coeff( h, old, n ), "a token probability changes exactly when updated" ); }
  for ( unsigned i = 0; i < 4; i++ ) {
    ENSURES( t.y_mode_probs.at( i ) == ( h.intra_16x16_prob.initialized_ ? h.intra_16x16_prob.object_.at( i ).i_ : old.y_mode_probs.at( i ) ), "luma mode probabilities change exactly when updated" );
  }
  for ( unsigned i = 0; i < 3; i++ ) {
    ENSURES( t.uv_mode_probs.at( i ) == ( h.intra_chroma_prob.initialized_ ? h.intra_chroma_prob.object_.at( i ).i_ : old.uv_mode_probs.at( i ) ), "chroma mode probabilities change exactly when updated" );
  }
  for ( unsigned i = 0; i < 38; i++ ) {
    const auto & f = h.mv_prob_update.at( i / 19 ).at( i % 19 ).mv_prob;
    const uint8_t x = f.object_.i_;
    ENSURES( t.motion_vector_probs.at( i / 19 ).at( i % 19 ) == ( f.initialized_ ? ( x ? (uint8_t) ( x << 1 ) : 1 ) : old.motion_vector_probs.at( i / 19 ).at( i % 19 ) ),
             "a motion vector probability changes exactly when updated, to twice the coded value (or one)" );
  }
  COVER( "inter update" );
}
PROOF( prove_mv_update )
{
  InterFrameHeader & h = some_inter_header();
  ProbabilityTables & t = raw<ProbabilityTables>(), & old = raw<ProbabilityTables>();
  any_tables( t ); any_tables( old );
  t.mv_prob_update( h.mv_prob_update );
  for ( unsigned i = 0; i < 38; i++ ) {
    const auto & f = h.mv_prob_update.at( i / 19 ).at( i % 19 ).mv_prob;
    const uint8_t x = f.object_.i_;
    ENSURES( t.motion_vector_probs.at( i / 19 ).at( i % 19 ) == ( f.initialized_ ? ( x ? (uint8_t) ( x << 1 ) : 1 ) : old.motion_vector_probs.at( i / 19 ).at( i % 19 ) ),
             "a motion vector probability changes exactly when updated, to twice the coded value (or one)" );
  }
  COVER( "mv update" );
}
