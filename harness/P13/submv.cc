// The motion vector of one part of a split macroblock, and the reference a macroblock predicts from.
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "rfc_tables.h"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: BoolDecoder::get\(.*\) => any_get
//@ replace: MotionVector::read_component\(.*\) => any_component
//@ trusted: BoolDecoder::get returns an arbitrary bit (what it decodes is P01); MotionVector::read_component returns an arbitrary value (its coding is P07)

static unsigned gets; static uint8_t asked[ 8 ]; static bool bits[ 8 ];
extern "C" bool any_get( BoolDecoder *, const uint8_t prob )
{
  const unsigned n = vp_cases( gets++, 0, 7 );
  asked[ n ] = prob;
  bits[ n ] = vp_bool( "bit", n );
  return bits[ n ];
}
static unsigned components; static int16_t component[ 8 ]; static const void * component_probs[ 8 ];
extern "C" int16_t any_component( BoolDecoder &, const SafeArray<Probability, MV_PROB_CNT> & probs )
{
  const unsigned n = components++;
  component_probs[ n ] = &probs;
  component[ n ] = vp_s16( "component", n );
  return component[ n ];
}
static void neighbour( Optional<const YBlock *> & o, const unsigned i, int16_t & x, int16_t & y )
{
  o.initialized_ = vp_cases( vp_bool( "present", i ), 0, 1 );
  x = y = 0;
  if ( not o.initialized_ ) { return; }
  YBlock & b = raw<YBlock>();
  b.motion_vector_.x_ = x = vp_s16( "x", i );
  b.motion_vector_.y_ = y = vp_s16( "y", i );
  o.object_ = &b;
}
PROOF( prove_subvector )
{
  if ( not vp_symbolic() ) { return; }
  YBlock & b = raw<YBlock>();
  int16_t lx, ly, ax, ay;
  neighbour( b.context_.left, 0, lx, ly );
  neighbour( b.context_.above, 1, ax, ay );
  b.motion_vector_.x_ = b.motion_vector_.y_ = 0;
  const int16_t bx = vp_s16( "best_x" ), by = vp_s16( "best_y" );
  ProbabilityTables & t = raw<ProbabilityTables>();
  gets = components = 0;
  b.read_subblock_inter_prediction( raw<BoolDecoder>(), MotionVector( bx, by ), t.motion_vector_probs );

  const bool lz = lx == 0 and ly == 0, az = ax == 0 and ay == 0, equal = lx == ax and ly == ay;
  const unsigned ctx = equal ? ( az ? 4 : 3 ) : az ? 2 : lz ? 1 : 0;
  const uint8_t * const p = rfc_submv_ref_probs2 + 3 * ctx;
  ENSURES( asked[ 0 ] == p[ 0 ], "probabilities follow from the left and above vectors" );
  unsigned want = 1;
  int x = lx, y = ly; bmode mode = LEFT4X4;
  if ( bits[ 0 ] ) {
    ENSURES( asked[ 1 ] == p[ 1 ], "probabilities follow from the left and above vectors" );
    want = 2; x = ax; y = ay; mode = ABOVE4X4;
    if ( bits[ 1 ] ) {
      ENSURES( asked[ 2 ] == p[ 2 ], "probabilities follow from the left and above vectors" );
      want = 3; x = y = 0; mode = ZERO4X4;
      if ( bits[ 2 ] ) { x = (int16_t) ( bx + component[ 1 ] ); y = (int16_t) ( by + component[ 0 ] ); mode = NEW4X4; }
    }
  }
  ENSURES( gets == want, "nothing else is decoded" );
  ENSURES( b.prediction_mode_ == mode, "subblock mode" );
  ENSURES( b.motion_vector_.x_ == x and b.motion_vector_.y_ == y, "the left, above, zero or new vector" );
  ENSURES( components == ( mode == NEW4X4 ? 2 : 0 ), "only new vectors are coded" );
  if ( mode == NEW4X4 ) {
    ENSURES( component_probs[ 0 ] == &t.motion_vector_probs.at( 0 ) and component_probs[ 1 ] == &t.motion_vector_probs.at( 1 ), "row, then column, each with its own probabilities" );
    COVER( "new" );
  }
  COVER( "subvector" );
}

PROOF( prove_reference )
{
  if ( not vp_symbolic() ) { return; }
  InterFrameHeader & h = raw<InterFrameHeader>();
  h.prob_inter.i_ = vp_u8( "prob_inter" ); h.prob_references_last.i_ = vp_u8( "prob_last" ); h.prob_references_golden.i_ = vp_u8( "prob_golden" );
  h.sign_bias_golden.i_ = vp_bool( "bias_golden" ); h.sign_bias_alternate.i_ = vp_bool( "bias_alternate" );
  gets = 0;
  const InterFrameMacroblockHeader & m = *new InterFrameMacroblockHeader( raw<BoolDecoder>(), h );
  ENSURES( asked[ 0 ] == h.prob_inter.i_, "probability of inter prediction" );
  reference_frame want = CURRENT_FRAME;
  unsigned n = 1;
  if ( bits[ 0 ] ) {
    ENSURES( asked[ 1 ] == h.prob_references_last.i_, "probability of the last frame" );
    want = LAST_FRAME; n = 2;
    if ( bits[ 1 ] ) {
      ENSURES( asked[ 2 ] == h.prob_references_golden.i_, "probability of the golden frame" );
      want = bits[ 2 ] ? ALTREF_FRAME : GOLDEN_FRAME; n = 3;
    }
  }
  ENSURES( gets == n, "nothing else is decoded" );
  ENSURES( m.reference() == want, "reference frame" );
  ENSURES( m.is_inter_mb == bits[ 0 ], "inter coded exactly when coded so" );
  ENSURES( m.motion_vectors_flipped_ == ( want == GOLDEN_FRAME ? (bool) h.sign_bias_golden.i_ : want == ALTREF_FRAME ? (bool) h.sign_bias_alternate.i_ : false ), "vectors change sign with the bias of the reference" );
  COVER( "reference" );
}
/* the picture a reference stands for */
PROOF( prove_picture )
{
  if ( not vp_symbolic() ) { return; }
  References & r = raw<References>();
  static uint8_t pictures[ 3 ];
  RasterHandle * const h[ 3 ] = { &r.last, &r.golden, &r.alternative };
  for ( unsigned i = 0; i < 3; i++ ) { const void ** p = reinterpret_cast<const void **>( h[ i ] ); p[ 0 ] = pictures + i; p[ 1 ] = nullptr; }
  const unsigned k = vp_cases( vp_u8( "reference" ) % 3, 0, 2 );
  const VP8Raster & p = r.at( (reference_frame) ( LAST_FRAME + k ) );
  ENSURES( (const void *) &p == pictures + k, "each reference number names its picture" );
  bool refused = false;
  try { r.at( CURRENT_FRAME ); } catch ( const LogicError & ) { refused = true; }
  ENSURES( refused, "a macroblock cannot predict from the frame it is in" );
  COVER( "pictures" );
}
/* encoder side: choosing a reference, then asking for it */
PROOF( prove_set_reference )
{
  InterFrameMacroblockHeader & m = raw<InterFrameMacroblockHeader>();
  m.mb_ref_frame_sel1.initialized_ = vp_bool( "sel1" ); m.mb_ref_frame_sel2.initialized_ = vp_bool( "sel2" );
  const unsigned k = vp_cases( vp_u8( "reference" ) % 4, 0, 3 );
  m.set_reference( (reference_frame) k );
  ENSURES( m.reference() == (reference_frame) k, "the chosen reference is the one recorded" );
  ENSURES( m.is_inter_mb == ( k != 0 ) and m.mb_ref_frame_sel1.initialized_ == ( k != 0 ) and m.mb_ref_frame_sel2.initialized_ == ( k >= 2 ), "exactly the needed fields are present" );
  COVER( "set reference" );
}
