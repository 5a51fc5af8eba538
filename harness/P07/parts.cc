// The parts of a split macroblock: what write_subblock_inter_prediction writes, read_subblock_inter_prediction reads; and two-component vectors.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#include "ghost_coder.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "serializer.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolEncoder::put\(.*\) => ghost_put
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ replace: _ZL?6encode.*[0-9]kf_y_mode_treeEEv.* => put_kf_y
//@ replace: _ZL?6encode.*[0-9]y_mode_treeEEv.* => put_y
//@ replace: _ZL?6encode.*[0-9]uv_mode_treeEEv.* => put_uv
//@ replace: _ZL?6encode.*[0-9]mv_ref_treeEEv.* => put_mv_ref
//@ replace: _ZL?6encode.*[0-9]b_mode_treeEEv.* => put_b
//@ replace: _ZL?6encode.*[0-9]submv_ref_treeEEv.* => put_submv
//@ replace: _ZL?6encode.*[0-9]split_mv_treeEEv.* => put_split
//@ replace: _ZL?6encode.*[0-9]segment_id_treeEEv.* => put_segment
//@ replace: mbmode BoolDecoder::tree<\(unsigned char\)5, mbmode>\(.*\) => get_mb5
//@ replace: mbmode BoolDecoder::tree<\(unsigned char\)4, mbmode>\(.*\) => get_mb4
//@ replace: bmode BoolDecoder::tree<\(unsigned char\)10, bmode>\(.*\) => get_b10
//@ replace: bmode BoolDecoder::tree<\(unsigned char\)4, bmode>\(.*\) => get_b4
//@ replace: unsigned char BoolDecoder::tree<\(unsigned char\)4, unsigned char>\(.*\) => get_u4
//@ replace: \(anonymous namespace\)::encode\(BoolEncoder&, short, .*\)|encode\(BoolEncoder&, short, .*\) => put_component
//@ replace: MotionVector::read_component\(.*\) => get_component
//@ trusted: trees and vector components are used through their contract (proved in trees.cc); BoolEncoder::put / BoolDecoder::get through P01
#include "contracts.h"

typedef SafeArray<Component, 2> VectorProbs;
static VectorProbs & any_vector_probs()
{
  VectorProbs & p = raw<VectorProbs>();
  for ( unsigned i = 0; i < 38; i++ ) { p.at( i / 19 ).at( i % 19 ) = vp_u8( "mv_prob", i ); }
  return p;
}
static int16_t codable( const char * const name ) { const unsigned m = vp_nondet( name, 0, 11 ); REQUIRES( m < 2047 ); return (int16_t) ( 2 * (int) m - 2046 ); }
PROOF( prove_vector )
{
  VectorProbs & p = any_vector_probs();
  MotionVector v;
  v.x_ = codable( "x" ); v.y_ = codable( "y" );
  BoolEncoder & e = ghost_writer();
  encode( e, v, p );
  BoolDecoder & first = ghost_reader( e );
  const MotionVector back( first, p );
  vp_trace_done( 0 );
  ENSURES( back.x_ == v.x_ and back.y_ == v.y_, "a vector is read back" );
  BoolDecoder & d = ghost_again( first );
  ENSURES( rfc_component( d, p.at( 0 ) ) == v.y_, "the row comes first, with the first probabilities" );
  ENSURES( rfc_component( d, p.at( 1 ) ) == v.x_, "the column comes second, with the second probabilities" );
  COVER( "vector" );
}
static void part( const unsigned mode )
{
  VectorProbs & p = any_vector_probs();
  YBlock & left = raw<YBlock>(); YBlock & above = raw<YBlock>(); YBlock & b = raw<YBlock>(); YBlock & t = raw<YBlock>();
  left.motion_vector_.x_ = vp_s16( "left_x" ); left.motion_vector_.y_ = vp_s16( "left_y" );
  above.motion_vector_.x_ = vp_s16( "above_x" ); above.motion_vector_.y_ = vp_s16( "above_y" );
  const bool has_left = vp_bool( "has_left" ), has_above = vp_bool( "has_above" );
  b.context_.left.initialized_ = t.context_.left.initialized_ = has_left; b.context_.left.object_ = t.context_.left.object_ = &left;
  b.context_.above.initialized_ = t.context_.above.initialized_ = has_above; b.context_.above.object_ = t.context_.above.object_ = &above;
  MotionVector best;
  best.x_ = vp_s16( "best_x" ); best.y_ = vp_s16( "best_y" );
  /* a vector that fits the mode */
  const int16_t lx = has_left ? left.motion_vector_.x_ : 0, ly = has_left ? left.motion_vector_.y_ : 0, ax = has_above ? above.motion_vector_.x_ : 0, ay = has_above ? above.motion_vector_.y_ : 0;
  b.prediction_mode_ = (bmode) mode;
  b.motion_vector_.x_ = mode == LEFT4X4 ? lx : mode == ABOVE4X4 ? ax : mode == ZERO4X4 ? 0 : best.x_ + codable( "dx" );
  b.motion_vector_.y_ = mode == LEFT4X4 ? ly : mode == ABOVE4X4 ? ay : mode == ZERO4X4 ? 0 : best.y_ + codable( "dy" );
  t.prediction_mode_ = B_DC_PRED; t.motion_vector_.x_ = t.motion_vector_.y_ = 0;
  BoolEncoder & e = ghost_writer();
  b.write_subblock_inter_prediction( e, best, p );
  BoolDecoder & first = ghost_reader( e );
  t.read_subblock_inter_prediction( first, best, p );
  vp_trace_done( 0 );
  ENSURES( t.prediction_mode_ == mode, "the mode of a part is read back" );
  ENSURES( t.motion_vector_.x_ == b.motion_vector_.x_ and t.motion_vector_.y_ == b.motion_vector_.y_, "the vector of a part is read back" );
  BoolDecoder & d = ghost_again( first );
  /* RFC 6386 5.10 and dixie: context of the mode */
  const bool same = lx == ax and ly == ay, above_zero = ax == 0 and ay == 0, left_zero = lx == 0 and ly == 0;
  const unsigned context = same ? ( above_zero ? 4 : 3 ) : above_zero ? 2 : left_zero ? 1 : 0;
  ENSURES( rfc_word( d, SUBMV, rfc_submv_ref_probs2 + 3 * context, 3 ) == mode, "the mode of a part is coded with the probabilities of its context" );
  if ( mode == NEW4X4 ) {
    const int16_t dy = rfc_component( d, p.at( 0 ) ), dx = rfc_component( d, p.at( 1 ) );
    ENSURES( (int16_t) ( best.x_ + dx ) == b.motion_vector_.x_ and (int16_t) ( best.y_ + dy ) == b.motion_vector_.y_, "a new vector is relative to the best one" );
  }
  vp_trace_done( 0 );
  COVER( "part" );
}
PROOF( prove_left_part ) { part( LEFT4X4 ); }
PROOF( prove_above_part ) { part( ABOVE4X4 ); }
PROOF( prove_zero_part ) { part( ZERO4X4 ); }
PROOF( prove_new_part ) { part( NEW4X4 ); }
