/* The decoder's persistent state: an arbitrary one, and what the header of a frame makes of its tables (RFC 6386 sections 9.3-9.11, 13.4, 17.2).
   Needs vp.h, any_header.h and rfc_tables.h. */
#ifndef STATE_SPEC_H
#define STATE_SPEC_H
static constexpr unsigned MW = 3, MH = 2;
struct Flat { uint8_t p[ 1056 ], y[ 4 ], uv[ 3 ], mv[ 38 ]; };
static void flatten( const ProbabilityTables & t, Flat & f )
{
  for ( unsigned n = 0; n < 1056; n++ ) { f.p[ n ] = t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ); }
  for ( unsigned i = 0; i < 4; i++ ) { f.y[ i ] = t.y_mode_probs.at( i ); }
  for ( unsigned i = 0; i < 3; i++ ) { f.uv[ i ] = t.uv_mode_probs.at( i ); }
  for ( unsigned i = 0; i < 38; i++ ) { f.mv[ i ] = t.motion_vector_probs.at( i / 19 ).at( i % 19 ); }
}
/* an arbitrary prior state */
struct Before { Flat t; bool segmented, adjusted; bool absolute; int8_t sq[ 4 ], sf[ 4 ], ref[ 4 ], mode[ 4 ]; uint8_t map[ MW * MH ]; };
static DecoderState & some_state( Before & b )
{
  DecoderState & s = *new DecoderState( MW, MH );
  ProbabilityTables & t = s.probability_tables;
  for ( unsigned n = 0; n < 1056; n++ ) { t.coeff_probs.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ) = vp_u8( "old_token", n ); }
  for ( unsigned i = 0; i < 4; i++ ) { t.y_mode_probs.at( i ) = vp_u8( "old_y", i ); }
  for ( unsigned i = 0; i < 3; i++ ) { t.uv_mode_probs.at( i ) = vp_u8( "old_uv", i ); }
  for ( unsigned i = 0; i < 38; i++ ) { t.motion_vector_probs.at( i / 19 ).at( i % 19 ) = vp_u8( "old_mv", i ); }
  flatten( t, b.t );
  b.segmented = vp_cases( vp_bool( "was_segmented" ), 0, 1 );
  b.adjusted = vp_cases( vp_bool( "was_adjusted" ), 0, 1 );
  if ( b.segmented ) {
    s.segmentation.initialize( MW, MH );
    Segmentation & g = s.segmentation.get();
    g.absolute_segment_adjustments = b.absolute = vp_bool( "was_absolute" );
    for ( unsigned i = 0; i < 4; i++ ) {
      g.segment_quantizer_adjustments.at( i ) = b.sq[ i ] = vp_s8( "old_sq", i );
      g.segment_filter_adjustments.at( i ) = b.sf[ i ] = vp_s8( "old_sf", i );
    }
    for ( unsigned i = 0; i < MW * MH; i++ ) { g.map.at( i % MW, i / MW ) = b.map[ i ] = vp_u8( "old_map", i ) % 4; }
  }
  if ( b.adjusted ) {
    s.filter_adjustments.initialize();
    for ( unsigned i = 0; i < 4; i++ ) {
      s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) = b.ref[ i ] = vp_s8( "old_ref", i );
      s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) = b.mode[ i ] = vp_s8( "old_mode", i );
    }
  }
  return s;
}
/* the tables this frame is coded with, given those it starts from */
template <class H> static void add_tokens( Flat & f, const H & h )
{
  for ( unsigned n = 0; n < 1056; n++ ) {
    const auto & x = h.token_prob_update.at( n / 264 ).at( n / 33 % 8 ).at( n / 11 % 3 ).at( n % 11 ).coeff_prob;
    f.p[ n ] = x.initialized_ ? x.object_.i_ : f.p[ n ];
  }
}
static void add_modes( Flat & f, const InterFrameHeader & h )
{
  for ( unsigned i = 0; i < 4; i++ ) { f.y[ i ] = h.intra_16x16_prob.initialized_ ? h.intra_16x16_prob.object_.at( i ).i_ : f.y[ i ]; }
  for ( unsigned i = 0; i < 3; i++ ) { f.uv[ i ] = h.intra_chroma_prob.initialized_ ? h.intra_chroma_prob.object_.at( i ).i_ : f.uv[ i ]; }
  for ( unsigned i = 0; i < 38; i++ ) {
    const auto & x = h.mv_prob_update.at( i / 19 ).at( i % 19 ).mv_prob;
    f.mv[ i ] = x.initialized_ ? ( x.object_.i_ ? (uint8_t) ( x.object_.i_ << 1 ) : 1 ) : f.mv[ i ];
  }
}
static void defaults( Flat & f )
{
  for ( unsigned n = 0; n < 1056; n++ ) { f.p[ n ] = rfc_k_default_coeff_probs[ n ]; }
  for ( unsigned i = 0; i < 4; i++ ) { f.y[ i ] = rfc_k_default_y_mode_probs[ i ]; }
  for ( unsigned i = 0; i < 3; i++ ) { f.uv[ i ] = rfc_k_default_uv_mode_probs[ i ]; }
  for ( unsigned i = 0; i < 38; i++ ) { f.mv[ i ] = rfc_k_default_mv_probs[ i ]; }
}
#define SAME( a, b, name ) do { \
  for ( unsigned n_ = 0; n_ < 1056; n_++ ) { ENSURES( ( a ).p[ n_ ] == ( b ).p[ n_ ], name ); } \
  for ( unsigned n_ = 0; n_ < 4; n_++ ) { ENSURES( ( a ).y[ n_ ] == ( b ).y[ n_ ], name ); } \
  for ( unsigned n_ = 0; n_ < 3; n_++ ) { ENSURES( ( a ).uv[ n_ ] == ( b ).uv[ n_ ], name ); } \
  for ( unsigned n_ = 0; n_ < 38; n_++ ) { ENSURES( ( a ).mv[ n_ ] == ( b ).mv[ n_ ], name ); } } while ( 0 )

template <class H> static void check_adjustments( const H & h, const DecoderState & s, const Before & b, const bool key )
{
  /* loop-filter adjustments */
  const auto & la = h.mode_lf_adjustments;
  ENSURES( s.filter_adjustments.initialized_ == la.initialized_, "filter adjustments are kept exactly while headers enable them" );
  if ( la.initialized_ ) {
    const FilterAdjustments & a = s.filter_adjustments.object_;
    const bool had = b.adjusted and not key, upd = la.object_.initialized_;
    for ( unsigned i = 0; i < 4; i++ ) {
      const auto & r = la.object_.object_.ref_update.at( i );
      const auto & m = la.object_.object_.mode_update.at( i );
      ENSURES( a.loopfilter_ref_adjustments.at( i ) == ( upd ? ( r.initialized_ ? (int) r.object_.i_ : 0 ) : had ? b.ref[ i ] : 0 ), "reference adjustments change only where the header updates them" );
      ENSURES( a.loopfilter_mode_adjustments.at( i ) == ( upd ? ( m.initialized_ ? (int) m.object_.i_ : 0 ) : had ? b.mode[ i ] : 0 ), "mode adjustments change only where the header updates them" );
    }
    COVER( "filter adjustments" );
  }
}
#endif
