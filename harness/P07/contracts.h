/* contracts of tree coding and of vector components (proved in trees.cc), as single values of the ghost sequence */
// ------------------------------------------------------------ contracts
/* a value coded through a tree with given probabilities is read back through the same tree with the same probabilities */
template <unsigned N> static uint64_t packed( const ProbabilityArray<N> & p, const unsigned from, const uint64_t tree )
{
  uint64_t tag = tree << 56;
  for ( unsigned i = from; i < N - 1 and i < from + 7; i++ ) { tag |= (uint64_t) p.at( i ) << ( 8 * ( i - from ) ); }
  return tag;
}
template <unsigned N> static bool same_tree( const TreeArray<N> & a, const TreeArray<N> & b )
{
  bool same = true;
  for ( unsigned i = 0; i < 2 * ( N - 1 ); i++ ) { same = same & ( a.at( i ) == b.at( i ) ); }
  return same;
}
enum { KF_Y = 1, INTER_Y, UV_MODE, MV_REF, B_MODE, SUBMV, SPLIT, SEGMENT, COMPONENT, PART };
static uint64_t tree_of( const TreeArray<5> & t ) { return same_tree<5>( t, kf_y_mode_tree ) ? KF_Y : same_tree<5>( t, y_mode_tree ) ? INTER_Y : same_tree<5>( t, mv_ref_tree ) ? MV_REF : 255; }
static uint64_t tree_of( const TreeArray<4> & t ) { return same_tree<4>( t, uv_mode_tree ) ? UV_MODE : same_tree<4>( t, submv_ref_tree ) ? SUBMV : same_tree<4>( t, split_mv_tree ) ? SPLIT : same_tree<4>( t, segment_id_tree ) ? SEGMENT : 255; }
static uint64_t tree_of( const TreeArray<10> & t ) { return same_tree<10>( t, b_mode_tree ) ? B_MODE : 255; }
template <unsigned N> static void put_tree( const unsigned value, const unsigned lo, const unsigned hi, const TreeArray<N> & nodes, const ProbabilityArray<N> & p )
{
  ENSURES( lo <= value and value <= hi, "only values of a tree are written through it" );
  vp_trace_put_word( 0, value, packed<N>( p, 0, tree_of( nodes ) ) );
  if ( N > 8 ) { vp_trace_put_word( 0, 0, packed<N>( p, 7, 0 ) ); }
}
template <unsigned N> static unsigned get_tree( const TreeArray<N> & nodes, const ProbabilityArray<N> & p )
{
  const unsigned value = vp_trace_get_word( 0, packed<N>( p, 0, tree_of( nodes ) ) );
  if ( N > 8 ) { vp_trace_get_word( 0, packed<N>( p, 7, 0 ) ); }
  return value;
}
extern "C" void put_kf_y( BoolEncoder &, const mbmode & v, const ProbabilityArray<5> & p ) { put_tree<5>( v, DC_PRED, B_PRED, kf_y_mode_tree, p ); }
extern "C" void put_y( BoolEncoder &, const mbmode & v, const ProbabilityArray<5> & p ) { put_tree<5>( v, DC_PRED, B_PRED, y_mode_tree, p ); }
extern "C" void put_uv( BoolEncoder &, const mbmode & v, const ProbabilityArray<4> & p ) { put_tree<4>( v, DC_PRED, TM_PRED, uv_mode_tree, p ); }
extern "C" void put_mv_ref( BoolEncoder &, const mbmode & v, const ProbabilityArray<5> & p ) { put_tree<5>( v, NEARESTMV, SPLITMV, mv_ref_tree, p ); }
extern "C" void put_b( BoolEncoder &, const bmode & v, const ProbabilityArray<10> & p ) { put_tree<10>( v, B_DC_PRED, B_HU_PRED, b_mode_tree, p ); }
extern "C" void put_submv( BoolEncoder &, const bmode & v, const ProbabilityArray<4> & p ) { put_tree<4>( v, LEFT4X4, NEW4X4, submv_ref_tree, p ); }
extern "C" void put_split( BoolEncoder &, const uint8_t & v, const ProbabilityArray<4> & p ) { put_tree<4>( v, 0, 3, split_mv_tree, p ); }
extern "C" void put_segment( BoolEncoder &, const uint8_t & v, const ProbabilityArray<4> & p ) { put_tree<4>( v, 0, 3, segment_id_tree, p ); }
extern "C" mbmode get_mb5( BoolDecoder &, const TreeArray<5> & nodes, const ProbabilityArray<5> & p ) { return (mbmode) get_tree<5>( nodes, p ); }
extern "C" mbmode get_mb4( BoolDecoder &, const TreeArray<4> & nodes, const ProbabilityArray<4> & p ) { return (mbmode) get_tree<4>( nodes, p ); }
extern "C" bmode get_b10( BoolDecoder &, const TreeArray<10> & nodes, const ProbabilityArray<10> & p ) { return (bmode) get_tree<10>( nodes, p ); }
extern "C" bmode get_b4( BoolDecoder &, const TreeArray<4> & nodes, const ProbabilityArray<4> & p ) { return (bmode) get_tree<4>( nodes, p ); }
extern "C" uint8_t get_u4( BoolDecoder &, const TreeArray<4> & nodes, const ProbabilityArray<4> & p ) { return (uint8_t) get_tree<4>( nodes, p ); }
/* a codable component is read back with the same probabilities */
typedef SafeArray<Probability, MV_PROB_CNT> Component;
static uint64_t component_tag( const Component & p, const unsigned from )
{
  uint64_t tag = (uint64_t) COMPONENT << 56;
  for ( unsigned i = from; i < MV_PROB_CNT and i < from + 7; i++ ) { tag |= (uint64_t) p.at( i ) << ( 8 * ( i - from ) ); }
  return tag;
}
extern "C" void put_component( BoolEncoder &, const int16_t v, const Component & p )
{
  ENSURES( ( v & 1 ) == 0 and v > -2048 and v < 2048, "only vectors the format can express are written" );
  vp_trace_put_word( 0, (uint16_t) v, component_tag( p, 0 ) );
  vp_trace_put_word( 0, 0, component_tag( p, 7 ) );
  vp_trace_put_word( 0, 0, component_tag( p, 14 ) );
}
extern "C" int16_t get_component( BoolDecoder &, const Component & p )
{
  const uint16_t v = vp_trace_get_word( 0, component_tag( p, 0 ) );
  vp_trace_get_word( 0, component_tag( p, 7 ) );
  vp_trace_get_word( 0, component_tag( p, 14 ) );
  return (int16_t) v;
}
/* a reader following the format; the verifier lets it read the ghost sequence, a native replay the bits themselves */
static int rfc_tree( BoolDecoder & d, const int8_t * const tree, const uint8_t * const p )
{
  int i = 0;
  do { i = tree[ i + ( d.get( p[ i >> 1 ] ) ? 1 : 0 ) ]; } while ( i > 0 );
  return -i;
}
static unsigned rfc_word( BoolDecoder & d, const uint64_t tree, const uint8_t * const p, const unsigned n )
{
  if ( not vp_symbolic() ) {
    const int8_t * const trees[] = { nullptr, rfc_kf_y_mode_tree, rfc_y_mode_tree, rfc_uv_mode_tree, rfc_mv_ref_tree, rfc_b_mode_tree, rfc_submv_ref_tree, rfc_split_mv_tree, rfc_segment_id_tree };
    return rfc_tree( d, trees[ tree ], p );
  }
  uint64_t tag = tree << 56;
  for ( unsigned i = 0; i < n and i < 7; i++ ) { tag |= (uint64_t) p[ i ] << ( 8 * i ); }
  const unsigned v = vp_trace_get_word( 0, tag );
  if ( n > 7 ) {
    tag = 0;
    for ( unsigned i = 7; i < n; i++ ) { tag |= (uint64_t) p[ i ] << ( 8 * ( i - 7 ) ); }
    vp_trace_get_word( 0, tag );
  }
  return v;
}
static int16_t rfc_component( BoolDecoder & d, const Component & c )
{
  if ( vp_symbolic() ) { return get_component( d, c ); }
  const uint8_t * const p = &c.at( 0 );
  int a = 0;
  if ( d.get( p[ 0 ] ) ) {
    for ( unsigned i = 0; i < 3; i++ ) { a += ( d.get( p[ 9 + i ] ) ? 1 : 0 ) << i; }
    for ( unsigned i = 9; i > 3; i-- ) { a += ( d.get( p[ 9 + i ] ) ? 1 : 0 ) << i; }
    if ( not ( a & 0xfff0 ) or d.get( p[ 9 + 3 ] ) ) { a += 8; }
  } else { a = rfc_tree( d, rfc_small_mv_tree, p + 2 ); }
  return 2 * ( a and d.get( p[ 1 ] ) ? -a : a );
}
