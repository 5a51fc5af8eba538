// Macroblock headers: everything Macroblock::serialize writes, Macroblock's parsing constructor reads back.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "vp_vec.h"
#include "ghost_coder.h"
#include "rfc_tables.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "serializer.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolEncoder::put\(.*\) => ghost_put
//@ replace: BoolDecoder::get\(.*\) => ghost_get
//@ replace: _ZL?6encode.*[0-9]kf_y_mode_treeEEv.* => put_kf_y
//@ replace: _ZL?6encode.*[0-9]y_mode_treeEEv.* => put_y
//@ replace: _ZL?6encode.*[0-9]uv_mode_treeEEv.* => put_uv
//@ replace: _ZL?6encode.*[0-9]mv_ref_treeEEv.* => put_mv_ref
//@ replace: _ZL?6encode.*[0-9]b_mode_treeEEv.* => put_b
//@ replace: _ZL?6encode.*[0-9]submv_ref_treeEEv.* => put_submv
//@ replace: _ZL?6encode.*[0-9]split_mv_treeEEv.* => put_split
//@ replace: _ZL?6encode.*[0-9]segment_id_treeEEv.* => put_segment
//@ replace: mbmode BoolDecoder::tree<\(unsigned char\)5, mbmode>\(.*\) => get_mb5
//@ replace: mbmode BoolDecoder::tree<\(unsigned char\)4, mbmode>\(.*\) => get_mb4
//@ replace: bmode BoolDecoder::tree<\(unsigned char\)10, bmode>\(.*\) => get_b10
//@ replace: bmode BoolDecoder::tree<\(unsigned char\)4, bmode>\(.*\) => get_b4
//@ replace: unsigned char BoolDecoder::tree<\(unsigned char\)4, unsigned char>\(.*\) => get_u4
//@ replace: \(anonymous namespace\)::encode\(BoolEncoder&, short, .*\)|encode\(BoolEncoder&, short, .*\) => put_component
//@ replace: MotionVector::read_component\(.*\) => get_component
//@ replace: Scorer::add\(unsigned char, Optional<.*\) => census_add
//@ replace: Scorer::calculate\(\) => census_calculate
//@ replace: Block<.*>::write_subblock_inter_prediction\(.*\) const => put_part
//@ replace: Block<.*>::read_subblock_inter_prediction\(.*\) => get_part
//@ trusted: trees and vector components are used through their contract (proved in trees.cc), the parts of a split macroblock through the one proved in parts.cc, the census as an arbitrary function of the neighbours it is given (P13); BoolEncoder::put / BoolDecoder::get through P01

#include "contracts.h"
/* the census is some function of the macroblocks added to it, in order, with their weights */
static uint64_t census_key;
static const InterFrameMacroblock * near_by[ 3 ];
extern "C" void census_add( Scorer * s, const uint8_t weight, const Optional<const InterFrameMacroblock *> & mb )
{
  if ( s->splitmv_score_ == 0 and s->index_ == 0 ) { census_key = s->motion_vectors_flipped_; }
  s->splitmv_score_ = 1;
  uint64_t which = 0;
  for ( unsigned i = 0; i < 3; i++ ) { which += ( i + 1 ) * (uint64_t) ( mb.initialized_ ? mb.object_ == near_by[ i ] : false ); }
  census_key = vp_uf( "census", census_key, weight * 8 + which * 2 + mb.initialized_ );
}
extern "C" void census_calculate( Scorer * s )
{
  for ( unsigned i = 0; i < 4; i++ ) {
    s->scores_.at( i ) = vp_uf( "score", census_key, i ) % 6;
    s->motion_vectors_.at( i ).x_ = vp_uf( "census_x", census_key, i ); s->motion_vectors_.at( i ).y_ = vp_uf( "census_y", census_key, i );
  }
  s->splitmv_score_ = vp_uf( "score", census_key, 4 ) % 6;
}
/* a part of a split macroblock, whose vector fits its mode, is read back when its neighbours and the best vector are the same */
typedef SafeArray<Component, 2> VectorProbs;
static const MotionVector none;
static const MotionVector & vector_of( const Optional<const YBlock *> & b ) { return b.initialized_ ? b.object_->motion_vector_ : none; }
static uint64_t around( const YBlock * b ) { const MotionVector & l = vector_of( b->context_.left ); const MotionVector & a = vector_of( b->context_.above );
  return (uint16_t) l.x_ | (uint64_t) (uint16_t) l.y_ << 16 | (uint64_t) (uint16_t) a.x_ << 32 | (uint64_t) (uint16_t) a.y_ << 48; }
extern "C" void put_part( const YBlock * b, BoolEncoder &, const MotionVector & best, const VectorProbs & probs )
{
  vp_trace_put_word( 0, b->prediction_mode_, around( b ) );
  vp_trace_put_word( 0, (uint16_t) b->motion_vector_.x_, (uint16_t) best.x_ | (uint64_t) (uint16_t) best.y_ << 16 | (uint64_t) PART << 56 );
  vp_trace_put_word( 0, (uint16_t) b->motion_vector_.y_, component_tag( probs.at( 0 ), 0 ) );
  for ( unsigned i = 1; i < 6; i++ ) { vp_trace_put_word( 0, 0, component_tag( probs.at( i / 3 ), 7 * ( i % 3 ) ) ); }
}
extern "C" void get_part( YBlock * b, BoolDecoder &, const MotionVector & best, const VectorProbs & probs )
{
  ENSURES( b->motion_vector_.x_ == 0 and b->motion_vector_.y_ == 0, "a part is decoded into a subblock without a vector" );
  b->prediction_mode_ = (bmode) vp_trace_get_word( 0, around( b ) );
  b->motion_vector_.x_ = vp_trace_get_word( 0, (uint16_t) best.x_ | (uint64_t) (uint16_t) best.y_ << 16 | (uint64_t) PART << 56 );
  b->motion_vector_.y_ = vp_trace_get_word( 0, component_tag( probs.at( 0 ), 0 ) );
  for ( unsigned i = 1; i < 6; i++ ) { vp_trace_get_word( 0, component_tag( probs.at( i / 3 ), 7 * ( i % 3 ) ) ); }
}

// ------------------------------------------------------------ a macroblock and its surroundings
template <class MB> struct Surroundings
{
  Y2Block & y2; YBlock * y; UVBlock * uv;
  TwoD<Y2Block> & Y2; TwoD<YBlock> & Y; TwoD<UVBlock> & U, & V;
  Surroundings()
    : y2( raw<Y2Block>() ), y( &raw<YBlock>( 16 ) ), uv( &raw<UVBlock>( 8 ) ),
      Y2( twod_at( raw<TwoD<Y2Block>>(), storage_over( &y2, 1, 1, 1 ) ) ), Y( twod_at( raw<TwoD<YBlock>>(), storage_over( y, 4, 4, 16 ) ) ),
      U( twod_at( raw<TwoD<UVBlock>>(), storage_over( uv, 2, 2, 4 ) ) ), V( twod_at( raw<TwoD<UVBlock>>(), storage_over( uv + 4, 2, 2, 4 ) ) )
  {
    /* as Frame creates them */
    y2.coded_ = true; y2.type_ = ::Y2; y2.prediction_mode_ = DC_PRED;
    for ( unsigned i = 0; i < 16; i++ ) { y[ i ].type_ = Y_after_Y2; y[ i ].prediction_mode_ = B_DC_PRED; y[ i ].motion_vector_.x_ = y[ i ].motion_vector_.y_ = 0; }
    for ( unsigned i = 0; i < 8; i++ ) { uv[ i ].prediction_mode_ = DC_PRED; uv[ i ].motion_vector_.x_ = uv[ i ].motion_vector_.y_ = 0; }
  }
};
static YBlock * outside; /* four subblocks to the left, four above */
static bool has_left, has_above;
static void make_outside( const bool inter )
{
  outside = &raw<YBlock>( 8 );
  for ( unsigned i = 0; i < 8; i++ ) {
    const unsigned m = vp_nondet( "outside_mode", i, 4 );
    REQUIRES( m < ( inter ? 14 : 10 ) );
    outside[ i ].prediction_mode_ = (bmode) m;
    outside[ i ].motion_vector_.x_ = vp_s16( "outside_x", i ); outside[ i ].motion_vector_.y_ = vp_s16( "outside_y", i );
  }
  has_left = vp_bool( "has_left" ); has_above = vp_bool( "has_above" );
}
static void link( YBlock * const y )
{
  for ( unsigned i = 0; i < 16; i++ ) {
    auto & c = y[ i ].context_;
    c.left.initialized_ = i % 4 or has_left;
    c.left.object_ = i % 4 ? y + i - 1 : outside + i / 4;
    c.above.initialized_ = i > 3 or has_above;
    c.above.object_ = i > 3 ? y + i - 4 : outside + 4 + i;
  }
}
template <class MB, class S> static MB & over( S & s )
{
  MB & m = raw<MB>();
  BIND_REFERENCE( m, Y2_, s.y2 );
  new ( &m.Y_ ) TwoDSubRange<YBlock, 4, 4>( s.Y, 0, 0 );
  new ( &m.U_ ) TwoDSubRange<UVBlock, 2, 2>( s.U, 0, 0 );
  new ( &m.V_ ) TwoDSubRange<UVBlock, 2, 2>( s.V, 0, 0 );
  m.context_.column = m.context_.row = 0;
  m.context_.width = 1 + vp_nondet( "width", 0, 10 ); m.context_.height = 1 + vp_nondet( "height", 0, 10 );
  m.context_.left.initialized_ = m.context_.above.initialized_ = m.context_.above_left.initialized_ = m.context_.above_right.initialized_ = false;
  return m;
}
/* the fields every macroblock has */
static bool every; /* every combination of optional fields, or all present */
static bool choice( const char * const name ) { return not every or vp_cases( vp_bool( name ), 0, 1 ); }
template <class MB, class H> static void common( MB & m, H & h )
{
  h.update_segmentation.initialized_ = choice( "segmentation" );
  h.update_segmentation.object_.update_mb_segmentation_map.i_ = choice( "map" );
  h.prob_skip_false.initialized_ = choice( "skipping" );
  h.prob_skip_false.object_.i_ = vp_u8( "prob_skip" );
  m.segment_id_update_.initialized_ = h.update_segmentation.initialized_ and h.update_segmentation.object_.update_mb_segmentation_map.i_;
  m.segment_id_update_.object_.value_ = vp_nondet( "segment", 0, 2 );
  m.mb_skip_coeff_.initialized_ = h.prob_skip_false.initialized_;
  m.mb_skip_coeff_.object_.i_ = vp_bool( "skip" );
}
template <class MB> static void common_back( const MB & m, const MB & b )
{
  ENSURES( b.segment_id_update_.initialized_ == m.segment_id_update_.initialized_, "a segment number is read exactly when written" );
  if ( m.segment_id_update_.initialized_ ) { ENSURES( b.segment_id_update_.object_.value_ == m.segment_id_update_.object_.value_, "segment number" ); }
  ENSURES( b.mb_skip_coeff_.initialized_ == m.mb_skip_coeff_.initialized_, "a skip flag is read exactly when written" );
  if ( m.mb_skip_coeff_.initialized_ ) { ENSURES( b.mb_skip_coeff_.object_.i_ == m.mb_skip_coeff_.object_.i_, "skip flag" ); }
}
static void any_probs( ProbabilityArray<num_segments> & p ) { for ( unsigned i = 0; i < 3; i++ ) { p.at( i ) = vp_u8( "segment_prob", i ); } }
static bmode implied( const mbmode m ) { return m == V_PRED ? B_VE_PRED : m == H_PRED ? B_HE_PRED : m == TM_PRED ? B_TM_PRED : B_DC_PRED; }
/* intra modes: a luma mode, sixteen subblock modes and a chroma mode */
static unsigned b_mode( const unsigned i ) { const unsigned m = vp_nondet( "b_mode", i, 4 ); REQUIRES( m < 10 ); return m; }
static void intra_modes( Y2Block & y2, YBlock * const y, UVBlock * const uv )
{
  const bool b = not every and vp_cases( vp_bool( "b_pred" ), 0, 1 );
  const mbmode mode = b ? B_PRED : (mbmode) vp_nondet( "y_mode", 0, 2 );
  y2.prediction_mode_ = mode;
  y2.coded_ = not b;
  for ( unsigned i = 0; i < 16; i++ ) {
    y[ i ].prediction_mode_ = b ? (bmode) b_mode( i ) : implied( mode );
    y[ i ].type_ = b ? Y_without_Y2 : Y_after_Y2;
  }
  uv[ 0 ].prediction_mode_ = (mbmode) vp_nondet( "uv_mode", 0, 2 );
}
static void blocks_back( const Y2Block & y2, const YBlock * const y, const Y2Block & y2b, const YBlock * const yb )
{
  ENSURES( y2b.prediction_mode_ == y2.prediction_mode_, "luma mode" );
  ENSURES( y2b.coded_ == y2.coded_, "a second-order block exists exactly when the mode has one" );
  for ( unsigned i = 0; i < 16; i++ ) {
    ENSURES( yb[ i ].prediction_mode_ == y[ i ].prediction_mode_, "subblock modes" );
    ENSURES( yb[ i ].type_ == y[ i ].type_, "subblock types" );
    ENSURES( yb[ i ].motion_vector_.x_ == y[ i ].motion_vector_.x_ and yb[ i ].motion_vector_.y_ == y[ i ].motion_vector_.y_, "motion vectors" );
  }
}

// ------------------------------------------------------------ the same bits, read as RFC 6386 says (9.3, 19.3)
template <class MB, class H> static void rfc_common( BoolDecoder & d, const MB & m, const H & h )
{
  if ( h.update_segmentation.initialized_ and h.update_segmentation.object_.update_mb_segmentation_map.i_ ) {
    uint8_t p[ 3 ];
    for ( unsigned i = 0; i < 3; i++ ) { p[ i ] = vp_u8( "segment_prob", i ); }
    ENSURES( rfc_word( d, SEGMENT, p, 3 ) == m.segment_id_update_.object_.value_, "the format's segment number" );
  }
  if ( h.prob_skip_false.initialized_ ) { ENSURES( d.get( h.prob_skip_false.object_.i_ ) == m.mb_skip_coeff_.object_.i_, "the format's skip flag" ); }
}
static void rfc_intra( BoolDecoder & d, const bool key, const Y2Block & y2, const YBlock * const y, const UVBlock * const uv, const uint8_t * const yp, const uint8_t * const uvp )
{
  ENSURES( rfc_word( d, key ? KF_Y : INTER_Y, yp, 4 ) == y2.prediction_mode_, "the format's luma mode" );
  if ( y2.prediction_mode_ == B_PRED ) {
    for ( unsigned i = 0; i < 16; i++ ) {
      const uint8_t * p = rfc_invariant_b_mode_probs;
      if ( key ) {
        const unsigned a = i > 3 ? y[ i - 4 ].prediction_mode_ : has_above ? outside[ 4 + i ].prediction_mode_ : 0;
        const unsigned l = i % 4 ? y[ i - 1 ].prediction_mode_ : has_left ? outside[ i / 4 ].prediction_mode_ : 0;
        p = &kf_b_mode_probs.at( a ).at( l ).at( 0 ); /* prove_key_table */
      }
      ENSURES( rfc_word( d, B_MODE, p, 9 ) == y[ i ].prediction_mode_, "the format's subblock modes" );
    }
  }
  ENSURES( rfc_word( d, UV_MODE, uvp, 3 ) == uv[ 0 ].prediction_mode_, "the format's chroma mode" );
  vp_trace_done( 0 );
}

// ------------------------------------------------------------ key frames
static void key_round_trip()
{
  typedef KeyFrameMacroblock MB;
  Surroundings<MB> s, t;
  make_outside( false );
  link( s.y ); link( t.y );
  MB & m = over<MB>( s );
  KeyFrameHeader & h = raw<KeyFrameHeader>();
  common( m, h );
  intra_modes( s.y2, s.y, s.uv );
  ProbabilityArray<num_segments> & seg = raw<ProbabilityArray<num_segments>>();
  any_probs( seg );
  ProbabilityTables & tables = raw<ProbabilityTables>();
  BoolEncoder & e = ghost_writer();
  m.serialize( e, h, seg, tables );
  BoolDecoder & first = ghost_reader( e );
  const MB & b = *new MB( m.context_, first, h, seg, tables, t.Y2, t.Y, t.U, t.V, false );
  vp_trace_done( 0 );
  common_back( m, b );
  blocks_back( s.y2, s.y, t.y2, t.y );
  ENSURES( t.uv[ 0 ].prediction_mode_ == s.uv[ 0 ].prediction_mode_, "chroma mode" );
  BoolDecoder & d = ghost_again( first );
  rfc_common( d, m, h );
  rfc_intra( d, true, s.y2, s.y, s.uv, rfc_kf_y_mode_probs, rfc_kf_uv_mode_probs );
}
PROOF( prove_key_macroblock ) { every = false; key_round_trip(); COVER( "key macroblock, every mode" ); }
PROOF( prove_key_macroblock_fields ) { every = true; key_round_trip(); COVER( "key macroblock, every combination of fields" ); }

PROOF( prove_key_table )
{
  for ( unsigned i = 0; i < 900; i++ ) { ENSURES( kf_b_mode_probs.at( i / 90 ).at( i / 9 % 10 ).at( i % 9 ) == rfc_kf_b_mode_probs[ i ], "the contextual probabilities of key frames are the format's" ); }
  COVER( "table" );
}
// ------------------------------------------------------------ inter frames
static void any_header( InterFrameHeader & h )
{
  h.prob_inter.i_ = vp_u8( "prob_inter" ); h.prob_references_last.i_ = vp_u8( "prob_last" ); h.prob_references_golden.i_ = vp_u8( "prob_golden" );
  h.sign_bias_golden.i_ = vp_bool( "bias_golden" ); h.sign_bias_alternate.i_ = vp_bool( "bias_alternate" );
}
static void any_tables( ProbabilityTables & t )
{
  for ( unsigned i = 0; i < 4; i++ ) { t.y_mode_probs.at( i ) = vp_u8( "y_prob", i ); }
  for ( unsigned i = 0; i < 3; i++ ) { t.uv_mode_probs.at( i ) = vp_u8( "uv_prob", i ); }
  for ( unsigned i = 0; i < 38; i++ ) { t.motion_vector_probs.at( i / 19 ).at( i % 19 ) = vp_u8( "mv_prob", i ); }
}
static void header_back( const InterFrameMacroblockHeader & m, const InterFrameMacroblockHeader & b )
{
  ENSURES( b.is_inter_mb.i_ == m.is_inter_mb.i_, "inter or intra" );
  ENSURES( b.reference() == m.reference(), "reference frame" );
  ENSURES( b.mb_ref_frame_sel1.initialized_ == m.mb_ref_frame_sel1.initialized_ and b.mb_ref_frame_sel2.initialized_ == m.mb_ref_frame_sel2.initialized_, "reference fields present" );
  ENSURES( b.motion_vectors_flipped_ == m.motion_vectors_flipped_, "sign bias" );
}
typedef InterFrameMacroblock IMB;
static void intra_round_trip()
{
  Surroundings<IMB> s, t;
  make_outside( true );
  link( s.y ); link( t.y );
  IMB & m = over<IMB>( s );
  InterFrameHeader & h = raw<InterFrameHeader>();
  any_header( h );
  common( m, h );
  m.header_.set_reference( CURRENT_FRAME );
  m.header_.motion_vectors_flipped_ = false;
  intra_modes( s.y2, s.y, s.uv );
  ProbabilityArray<num_segments> & seg = raw<ProbabilityArray<num_segments>>();
  any_probs( seg );
  ProbabilityTables & tables = raw<ProbabilityTables>();
  any_tables( tables );
  BoolEncoder & e = ghost_writer();
  m.serialize( e, h, seg, tables );
  BoolDecoder & first = ghost_reader( e );
  const IMB & b = *new IMB( m.context_, first, h, seg, tables, t.Y2, t.Y, t.U, t.V, false );
  vp_trace_done( 0 );
  common_back( m, b );
  header_back( m.header_, b.header_ );
  blocks_back( s.y2, s.y, t.y2, t.y );
  ENSURES( t.uv[ 0 ].prediction_mode_ == s.uv[ 0 ].prediction_mode_, "chroma mode" );
  BoolDecoder & d = ghost_again( first );
  rfc_common( d, m, h );
  ENSURES( not d.get( h.prob_inter.i_ ), "the format's inter flag" );
  uint8_t yp[ 4 ], uvp[ 3 ];
  for ( unsigned i = 0; i < 4; i++ ) { yp[ i ] = vp_u8( "y_prob", i ); }
  for ( unsigned i = 0; i < 3; i++ ) { uvp[ i ] = vp_u8( "uv_prob", i ); }
  rfc_intra( d, false, s.y2, s.y, s.uv, yp, uvp );
}
PROOF( prove_intra_in_inter ) { every = false; intra_round_trip(); COVER( "intra macroblock of an inter frame, every mode" ); }
PROOF( prove_intra_in_inter_fields ) { every = true; intra_round_trip(); COVER( "intra macroblock of an inter frame, every combination of fields" ); }
static unsigned part_of( const unsigned layout, const unsigned i )
{
  return layout == 0 ? i / 8 : layout == 1 ? ( i / 2 ) % 2 : layout == 2 ? 2 * ( i / 8 ) + ( i / 2 ) % 2 : i;
}
static int16_t codable( const char * const name, const unsigned i ) { return (int16_t) ( 2 * ( vp_u16( name, i ) % 2047 ) - 2046 ); }
/* native replays run the real census on real neighbours */
static IMB * a_neighbour( const unsigned i )
{
  Surroundings<IMB> & s = *new Surroundings<IMB>();
  IMB & m = over<IMB>( s );
  m.header_.set_reference( (reference_frame) vp_nondet( "near_reference", i, 2 ) );
  m.header_.motion_vectors_flipped_ = vp_bool( "near_flipped", i );
  s.y2.prediction_mode_ = vp_bool( "near_split", i ) ? SPLITMV : NEWMV;
  s.y[ 15 ].motion_vector_.x_ = (int) vp_nondet( "near_x", i, 3 ) - 4; s.y[ 15 ].motion_vector_.y_ = (int) vp_nondet( "near_y", i, 1 ) * 8;
  return &m;
}
static IMB & inter_macroblock( Surroundings<IMB> & s, InterFrameHeader & h )
{
  IMB & m = over<IMB>( s );
  for ( unsigned i = 0; i < 3; i++ ) { near_by[ i ] = &raw<IMB>(); if ( not vp_symbolic() ) { near_by[ i ] = a_neighbour( i ); } }
  m.context_.above.initialized_ = vp_bool( "above" ); m.context_.above.object_ = near_by[ 0 ];
  m.context_.left.initialized_ = vp_bool( "left" ); m.context_.left.object_ = near_by[ 1 ];
  m.context_.above_left.initialized_ = m.context_.above.initialized_ & m.context_.left.initialized_; m.context_.above_left.object_ = near_by[ 2 ];
  any_header( h );
  common( m, h );
  const unsigned ref = vp_cases( vp_nondet( "reference", 0, 2 ) % 3, 0, 2 );
  m.header_.set_reference( (reference_frame) ( LAST_FRAME + ref ) );
  m.header_.motion_vectors_flipped_ = ref == 1 ? h.sign_bias_golden.i_ : ref == 2 ? h.sign_bias_alternate.i_ : false;
  m.header_.partition_id.initialized_ = false;
  return m;
}
static void round_trip( Surroundings<IMB> & s, Surroundings<IMB> & t, IMB & m, InterFrameHeader & h )
{
  ProbabilityArray<num_segments> & seg = raw<ProbabilityArray<num_segments>>();
  any_probs( seg );
  ProbabilityTables & tables = raw<ProbabilityTables>();
  any_tables( tables );
  BoolEncoder & e = ghost_writer();
  m.serialize( e, h, seg, tables );
  BoolDecoder & first = ghost_reader( e );
  const IMB & b = *new IMB( m.context_, first, h, seg, tables, t.Y2, t.Y, t.U, t.V, false );
  vp_trace_done( 0 );
  common_back( m, b );
  header_back( m.header_, b.header_ );
  blocks_back( s.y2, s.y, t.y2, t.y );
  ENSURES( b.header_.partition_id.initialized_ == m.header_.partition_id.initialized_, "a split layout is read exactly when written" );
  if ( m.header_.partition_id.initialized_ ) { ENSURES( b.header_.partition_id.object_.value_ == m.header_.partition_id.object_.value_, "split layout" ); }
  /* the same bits, as RFC 6386 says */
  BoolDecoder & d = ghost_again( first );
  rfc_common( d, m, h );
  ENSURES( d.get( h.prob_inter.i_ ), "the format's inter flag" );
  const bool not_last = d.get( h.prob_references_last.i_ );
  const bool alternate = not_last and d.get( h.prob_references_golden.i_ );
  ENSURES( m.header_.reference() == ( not not_last ? LAST_FRAME : alternate ? ALTREF_FRAME : GOLDEN_FRAME ), "the format's reference frame" );
  Scorer c = m.motion_vector_census();
  const uint8_t counts[ 4 ] = { c.scores_.at( 0 ), c.scores_.at( 1 ), c.scores_.at( 2 ), c.splitmv_score_ };
  uint8_t mode_probs[ 4 ];
  for ( unsigned i = 0; i < 4; i++ ) { mode_probs[ i ] = rfc_mv_counts_to_probs[ 4 * counts[ i ] + i ]; }
  ENSURES( rfc_word( d, MV_REF, mode_probs, 4 ) == s.y2.prediction_mode_, "the format's inter mode" );
  const MotionVector best = Scorer::clamp( c.best(), m.context_ );
  if ( s.y2.prediction_mode_ == NEWMV ) {
    const int16_t dy = rfc_component( d, tables.motion_vector_probs.at( 0 ) ), dx = rfc_component( d, tables.motion_vector_probs.at( 1 ) );
    ENSURES( (int16_t) ( best.y_ + dy ) == s.y[ 15 ].motion_vector_.y_ and (int16_t) ( best.x_ + dx ) == s.y[ 15 ].motion_vector_.x_, "the format's new vector: row, then column, relative to the best vector" );
  }
  if ( s.y2.prediction_mode_ == SPLITMV ) {
    static const uint8_t * const layouts[ 4 ] = { rfc_split_0, rfc_split_1, rfc_split_2, rfc_split_3 };
    const uint8_t * const layout = layouts[ m.header_.partition_id.object_.value_ ];
    ENSURES( rfc_word( d, SPLIT, rfc_split_mv_probs, 3 ) == m.header_.partition_id.object_.value_, "the format's split layout" );
    for ( unsigned k = 0; k < 16; k++ ) {
      for ( unsigned i = 0; i < 16; i++ ) {
        if ( layout[ i ] != k ) { continue; }
        YBlock part = s.y[ i ];
        part.motion_vector_.x_ = part.motion_vector_.y_ = 0;
        if ( vp_symbolic() ) { get_part( &part, d, best, tables.motion_vector_probs ); } else { part.read_subblock_inter_prediction( d, best, tables.motion_vector_probs ); }
        ENSURES( part.prediction_mode_ == s.y[ i ].prediction_mode_ and part.motion_vector_.x_ == s.y[ i ].motion_vector_.x_ and part.motion_vector_.y_ == s.y[ i ].motion_vector_.y_, "the format's parts, each where it first occurs in raster order" );
        break;
      }
    }
  }
  vp_trace_done( 0 );
}
PROOF( prove_inter_macroblock )
{
  Surroundings<IMB> s, t;
  make_outside( true );
  link( s.y ); link( t.y );
  InterFrameHeader & h = raw<InterFrameHeader>();
  IMB & m = inter_macroblock( s, h );
  const unsigned kind = vp_cases( vp_nondet( "kind", 0, 2 ), 0, 3 );
  const mbmode mode = kind == 0 ? NEARESTMV : kind == 1 ? NEARMV : kind == 2 ? ZEROMV : NEWMV;
  s.y2.prediction_mode_ = mode;
  Scorer c = m.motion_vector_census();
  MotionVector v;
  if ( mode == NEARESTMV ) { v = Scorer::clamp( c.nearest(), m.context_ ); }
  if ( mode == NEARMV ) { v = Scorer::clamp( c.near(), m.context_ ); }
  if ( mode == NEWMV ) { v = Scorer::clamp( c.best(), m.context_ ); v.x_ += codable( "dx", 0 ); v.y_ += codable( "dy", 0 ); }
  for ( unsigned i = 0; i < 16; i++ ) { s.y[ i ].motion_vector_.x_ = v.x_; s.y[ i ].motion_vector_.y_ = v.y_; }
  round_trip( s, t, m, h );
  COVER( "inter macroblock" );
}
PROOF( prove_split_macroblock )
{
  Surroundings<IMB> s, t;
  make_outside( true );
  link( s.y ); link( t.y );
  InterFrameHeader & h = raw<InterFrameHeader>();
  IMB & m = inter_macroblock( s, h );
  s.y2.prediction_mode_ = SPLITMV;
  s.y2.coded_ = false;
  const unsigned layout = vp_cases( vp_nondet( "layout", 0, 2 ), 0, 3 );
  m.header_.partition_id.initialized_ = true;
  m.header_.partition_id.object_.value_ = layout;
  for ( unsigned i = 0; i < 16; i++ ) {
    const unsigned k = part_of( layout, i );
    s.y[ i ].type_ = Y_without_Y2;
    s.y[ i ].prediction_mode_ = (bmode) ( LEFT4X4 + vp_nondet( "part_mode", k, 2 ) );
    s.y[ i ].motion_vector_.x_ = vp_s16( "part_x", k ); s.y[ i ].motion_vector_.y_ = vp_s16( "part_y", k );
  }
  if ( not vp_symbolic() ) { /* the contract of parts: a vector fits its mode */
    const MotionVector best = Scorer::clamp( m.motion_vector_census().best(), m.context_ );
    for ( unsigned k = 0; k < 16; k++ ) {
      const YBlock * first = nullptr;
      for ( unsigned i = 0; i < 16; i++ ) {
        if ( part_of( layout, i ) != k ) { continue; }
        YBlock & b = s.y[ i ];
        if ( first ) { b.motion_vector_ = first->motion_vector_; continue; }
        first = &b;
        if ( b.prediction_mode_ == LEFT4X4 ) { b.motion_vector_ = vector_of( b.context_.left ); }
        else if ( b.prediction_mode_ == ABOVE4X4 ) { b.motion_vector_ = vector_of( b.context_.above ); }
        else if ( b.prediction_mode_ == ZERO4X4 ) { b.motion_vector_ = none; }
        else { b.motion_vector_.x_ = best.x_ + b.motion_vector_.x_ % 1024 * 2; b.motion_vector_.y_ = best.y_ + b.motion_vector_.y_ % 1024 * 2; }
      }
    }
  }
  round_trip( s, t, m, h );
  COVER( "split macroblock" );
}
