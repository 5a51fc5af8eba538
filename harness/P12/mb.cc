// Loop filtering of one macroblock: the level used and when inner edges are skipped.
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "loopfilter.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: NormalLoopFilter::filter\(.*\) => normal
//@ replace: SimpleLoopFilter::filter\(.*\) => simple

static int clamp63_( const int x ) { return x < 0 ? 0 : x > 63 ? 63 : x; }
static unsigned calls;
static int level, interior, hev, kind_;
static bool skipped;
static VP8Raster::Macroblock * target;
extern "C" void normal( NormalLoopFilter * f, VP8Raster::Macroblock & raster, const bool skip )
{
  calls++; kind_ = 1;
  level = f->simple_.filter_level(); interior = f->simple_.interior_limit(); hev = f->hev_threshold_vector_[ 0 ]; skipped = skip; target = &raster;
}
extern "C" void simple( SimpleLoopFilter * f, VP8Raster::Macroblock & raster, const bool skip )
{
  calls++; kind_ = 2;
  level = f->filter_level(); interior = f->interior_limit(); skipped = skip; target = &raster;
}
static void kind( KeyFrameMacroblock &, unsigned ) {}
static void kind( InterFrameMacroblock & m, const unsigned r )
{
  m.header_.is_inter_mb.i_ = r != 0;
  m.header_.mb_ref_frame_sel1.initialized_ = r != 0;
  m.header_.mb_ref_frame_sel1.object_.i_ = r >= 2;
  m.header_.mb_ref_frame_sel2.initialized_ = r >= 2;
  m.header_.mb_ref_frame_sel2.object_.i_ = r == 3;
}
template <class M> static void one( const bool key )
{
  if ( not vp_symbolic() ) { return; }
  M & m = raw<M>();
  const unsigned r = key ? 0 : vp_u8( "reference" ) & 3;
  kind( m, r );
  Y2Block & y2 = raw<Y2Block>();
  BIND_REFERENCE( m, Y2_, y2 );
  REQUIRES( &m.Y2_ == &y2 );
  const unsigned mode = vp_u8( "mode" ) & 15;
  REQUIRES( r ? ( mode > B_PRED and mode <= SPLITMV ) : mode <= B_PRED );
  y2.prediction_mode_ = (mbmode) mode;
  y2.coded_ = vp_bool( "coded" );
  m.has_nonzero_ = vp_bool( "nonzero" );
  Optional<FilterAdjustments> & a = raw<Optional<FilterAdjustments>>();
  a.initialized_ = vp_cases( vp_bool( "adjustments" ), 0, 1 );
  int8_t * const ref = a.object_.loopfilter_ref_adjustments.storage_, * const madj = a.object_.loopfilter_mode_adjustments.storage_;
  for ( unsigned i = 0; i < 4; i++ ) { ref[ i ] = vp_u8( "ref", i ); madj[ i ] = vp_u8( "mode_adj", i ); }
  FilterParameters p;
  p.type = vp_bool( "simple" ) ? LoopFilterType::Simple : LoopFilterType::Normal;
  p.filter_level = vp_u8( "level" ) & 63;
  p.sharpness_level = vp_u8( "sharpness" ) & 7;
  VP8Raster::Macroblock & raster = raw<VP8Raster::Macroblock>();
  calls = 0;
  m.loopfilter( a, p, raster );

  int want = p.filter_level;
  if ( a.initialized_ ) {
    want += ref[ r ];
    if ( r == 0 ) { if ( mode == B_PRED ) { want += madj[ 0 ]; } }
    else if ( mode == ZEROMV ) { want += madj[ 1 ]; }
    else if ( mode == SPLITMV ) { want += madj[ 3 ]; }
    else { want += madj[ 2 ]; }
  }
  want = clamp63_( want );
  ENSURES( calls == ( want ? 1 : 0 ), "a macroblock is filtered exactly when its level is not zero" );
  if ( not calls ) { COVER( "level zero" ); return; }
  ENSURES( kind_ == ( p.type == LoopFilterType::Simple ? 2 : 1 ), "filter type" );
  ENSURES( level == want, "level after reference and mode adjustments, within 0..63" );
  int in = want;
  if ( p.sharpness_level ) { in >>= p.sharpness_level > 4 ? 2 : 1; if ( in > 9 - p.sharpness_level ) { in = 9 - p.sharpness_level; } }
  ENSURES( interior == ( in ? in : 1 ), "interior limit of the level" );
  if ( kind_ == 1 ) {
    ENSURES( hev == ( key ? ( want >= 40 ? 2 : want >= 15 ? 1 : 0 ) : ( want >= 40 ? 3 : want >= 20 ? 2 : want >= 15 ? 1 : 0 ) ), "high edge variance threshold of the level and frame type" );
  }
  ENSURES( skipped == ( y2.coded_ and not m.has_nonzero_ ), "inner edges are skipped only without coefficients and with a second-order block" );
  ENSURES( target == &raster, "the macroblock itself is filtered" );
  COVER( "filtered" );
}
PROOF( prove_macroblock_key ) { one<KeyFrameMacroblock>( true ); }
PROOF( prove_macroblock_inter ) { one<InterFrameMacroblock>( false ); }
