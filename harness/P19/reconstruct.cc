// Reconstruction of one macroblock: each block predicted once, from the right source, and its own residue added to it.
#include <cstring>
#include <type_traits>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: VP8Raster::Block<\d+u?>::predictors\(\) const => gather
//@ replace: void VP8Raster::Block<4u?>::intra_predict<bmode>\(.*\) const => intra4
//@ replace: void VP8Raster::Block<8u?>::intra_predict<mbmode>\(.*\) const => intra8
//@ replace: void VP8Raster::Block<16u?>::intra_predict<mbmode>\(.*\) const => intra16
//@ replace: VP8Raster::Block<4u?>::inter_predict\(MotionVector const&, TwoD<unsigned char> const&, TwoDSubRange<unsigned char, 4u?, 4u?>&\) const => inter4
//@ replace: VP8Raster::Block<8u?>::inter_predict\(MotionVector const&, TwoD<unsigned char> const&, TwoDSubRange<unsigned char, 8u?, 8u?>&\) const => inter8
//@ replace: VP8Raster::Block<16u?>::inter_predict\(MotionVector const&, TwoD<unsigned char> const&, TwoDSubRange<unsigned char, 16u?, 16u?>&\) const => inter16
//@ replace: DCTCoefficients::idct_add\(.*\) const => add
//@ replace: DCTCoefficients::iwht\(.*\) const => walsh
//@ replace: References::at\(reference_frame\) const => reference
//@ trusted: the assembly transforms (vp8_short_idct4x4llm_mmx, vp8_short_inv_walsh4x4_sse2): the first adds the residue of the coefficients it is given to the block it is given, the second sets the sixteen first coefficients it is given

enum { Y = 0, U = 16, V = 20, BLOCKS = 24 };
static VP8Raster::Macroblock * out;
static bool predicted[ BLOCKS ], added[ BLOCKS ];
/* what the macroblock says */
static int y_mode, uv_mode;
static bool inter_, nonzero;
static bmode sub_mode[ 16 ];
static MotionVector mv[ BLOCKS ];
static int16_t want[ BLOCKS ][ 16 ], want_y2[ 16 ], dc[ 16 ];
static bool walsh_done;
static VP8Raster * pictures;
static unsigned ref_;

/* which subblock of the macroblock */
static unsigned which( const void * b )
{
  const VP8Raster::Block4 * const p = static_cast<const VP8Raster::Block4 *>( b );
  unsigned k = BLOCKS;
  for ( unsigned i = 0; i < 16; i++ ) { if ( p == &out->Y_sub.at( i ) ) { k = Y + i; } }
  for ( unsigned i = 0; i < 4; i++ ) { if ( p == &out->U_sub.at( i ) ) { k = U + i; } }
  for ( unsigned i = 0; i < 4; i++ ) { if ( p == &out->V_sub.at( i ) ) { k = V + i; } }
  ENSURES( k < BLOCKS, "only blocks of the macroblock are touched" );
  return k < BLOCKS ? k : 0;
}
static void predict( const unsigned first, const unsigned n )
{
  bool fresh = true;
  for ( unsigned i = first; i < first + n; i++ ) { fresh = fresh and not predicted[ i ] and not added[ i ]; predicted[ i ] = true; }
  ENSURES( fresh, "each block is predicted once, before its residue is added" );
}
static bool split() { return inter_ ? y_mode == SPLITMV : y_mode == B_PRED; }
/* blocks before this one in the macroblock are finished */
static void in_order( const unsigned k )
{
  bool done = true;
  for ( unsigned i = 0; i < k; i++ ) { done = done and predicted[ i ] and ( added[ i ] or not nonzero ); }
  ENSURES( done, "a subblock is predicted from finished subblocks" );
}
extern "C" void gather( void *, const void * b )
{
  if ( b == &out->Y or b == &out->U or b == &out->V ) { return; }
  in_order( which( b ) );
}
extern "C" void intra4( const void * b, const bmode mode, const void *, const void * to )
{
  const unsigned k = which( b );
  ENSURES( not inter_ and y_mode == B_PRED and k < 16, "only luma is predicted by subblock, and only when the macroblock says so" );
  if ( k >= 16 ) { return; }
  in_order( k );
  ENSURES( mode == sub_mode[ k ], "with the subblock's own mode" );
  ENSURES( to == &static_cast<const VP8Raster::Block4 *>( b )->contents_, "into the block itself" );
  predict( k, 1 );
}
extern "C" void intra8( const void * b, const mbmode mode, const void *, const void * to )
{
  ENSURES( not inter_ and ( b == &out->U or b == &out->V ) and mode == uv_mode and to == &static_cast<const VP8Raster::Block8 *>( b )->contents_, "chroma is predicted with its mode" );
  predict( b == &out->U ? U : V, 4 );
}
extern "C" void intra16( const void * b, const mbmode mode, const void *, const void * to )
{
  ENSURES( not inter_ and y_mode != B_PRED and b == &out->Y and mode == y_mode and to == &out->Y.contents_, "luma is predicted with its mode" );
  predict( Y, 16 );
}
static bool same_vector( const MotionVector & m, const unsigned k ) { return m.x() == mv[ k ].x() and m.y() == mv[ k ].y(); }
extern "C" void inter4( const void * b, const MotionVector & m, const TwoD<uint8_t> & from, const void * to )
{
  const unsigned k = which( b );
  ENSURES( inter_ and y_mode == SPLITMV, "subblocks are only predicted when the macroblock is split" );
  ENSURES( same_vector( m, k < 16 ? k : k < V ? k : k - 4 ), "with the vector of the subblock" );
  ENSURES( &from == ( k < U ? &pictures[ ref_ ].Y_ : k < V ? &pictures[ ref_ ].U_ : &pictures[ ref_ ].V_ ), "from the reference picture's same plane" );
  ENSURES( to == &static_cast<const VP8Raster::Block4 *>( b )->contents_, "into the block itself" );
  predict( k, 1 );
}
extern "C" void inter8( const void * b, const MotionVector & m, const TwoD<uint8_t> & from, const void * to )
{
  ENSURES( inter_ and y_mode != SPLITMV and ( b == &out->U or b == &out->V ), "chroma is predicted whole when the macroblock is not split" );
  ENSURES( same_vector( m, U ) and &from == ( b == &out->U ? &pictures[ ref_ ].U_ : &pictures[ ref_ ].V_ ) and to == &static_cast<const VP8Raster::Block8 *>( b )->contents_, "chroma: its vector, the reference picture's same plane" );
  predict( b == &out->U ? U : V, 4 );
}
extern "C" void inter16( const void * b, const MotionVector & m, const TwoD<uint8_t> & from, const void * to )
{
  ENSURES( inter_ and y_mode != SPLITMV and b == &out->Y and same_vector( m, 15 ) and &from == &pictures[ ref_ ].Y_ and to == &out->Y.contents_, "luma: its vector, the reference picture's luma" );
  predict( Y, 16 );
}
extern "C" void add( const DCTCoefficients & c, const void * b )
{
  const unsigned k = which( b );
  ENSURES( nonzero, "without coefficients nothing is added" );
  ENSURES( predicted[ k ] and not added[ k ], "residue is added once, after prediction" );
  added[ k ] = true;
  bool ok = true;
  for ( unsigned i = 0; i < 16; i++ ) { ok &= c.coefficients_.storage_[ i ] == ( i == 0 and k < 16 and not split() ? dc[ k ] : want[ k ][ i ] ); }
  ENSURES( ok, "the residue is the block's own coefficients, dequantized, with the first one from the second-order block if there is one" );
  ENSURES( split() or k >= 16 or walsh_done, "second-order coefficients come first" );
}
extern "C" void walsh( const DCTCoefficients & y2, SafeArray<SafeArray<DCTCoefficients, 4>, 4> & output )
{
  ENSURES( not split(), "no second-order block when luma is split" );
  bool ok = true;
  for ( unsigned i = 0; i < 16; i++ ) { ok &= y2.coefficients_.storage_[ i ] == want_y2[ i ]; }
  ENSURES( ok, "the second-order coefficients, dequantized" );
  for ( unsigned i = 0; i < 16; i++ ) { output.at( i / 4 ).at( i % 4 ).at( 0 ) = dc[ i ]; }
  walsh_done = true;
}
extern "C" const VP8Raster & reference( const References &, const reference_frame r ) { ENSURES( r == LAST_FRAME or r == GOLDEN_FRAME or r == ALTREF_FRAME, "one of the three references" ); return pictures[ r ]; }

static void kind( KeyFrameMacroblock &, unsigned ) {}
static void kind( InterFrameMacroblock & m, const unsigned r )
{
  m.header_.is_inter_mb.i_ = r != 0;
  m.header_.mb_ref_frame_sel1.initialized_ = r != 0;
  m.header_.mb_ref_frame_sel1.object_.i_ = r >= 2;
  m.header_.mb_ref_frame_sel2.initialized_ = r >= 2;
  m.header_.mb_ref_frame_sel2.object_.i_ = r == 3;
}
template <class B> static B * blocks( const char * name, const unsigned n, const unsigned first, const uint16_t dcf, const uint16_t acf )
{
  B * const b = &raw<B>( n );
  for ( unsigned k = 0; k < n; k++ ) { for ( unsigned i = 0; i < 16; i++ ) {
    const int16_t c = b[ k ].coefficients_.coefficients_.storage_[ i ] = vp_s16( name, k * 16 + i );
    const int16_t v = (int16_t) ( (uint16_t) c * ( i ? acf : dcf ) );
    if ( first < BLOCKS ) { want[ first + k ][ i ] = v; } else { want_y2[ i ] = v; }
  } }
  return b;
}
template <class B> static void vectors( B * b, const char * name, const unsigned n, const unsigned first )
{
  for ( unsigned k = 0; k < n; k++ ) { mv[ first + k ] = MotionVector( vp_s16( name, 2 * k + 1 ), vp_s16( name, 2 * k + 2 ) ); b[ k ].motion_vector_ = mv[ first + k ]; }
}
template <class M> static M & any_macroblock( const Quantizer & z, const unsigned r )
{
  M & m = raw<M>();
  inter_ = r != 0; ref_ = r;
  kind( m, r );
  memset( predicted, 0, sizeof( predicted ) ); memset( added, 0, sizeof( added ) ); walsh_done = false;
  YBlock * const y = blocks<YBlock>( "y", 16, Y, z.y_dc, z.y_ac );
  UVBlock * const u = blocks<UVBlock>( "u", 4, U, z.uv_dc, z.uv_ac ), * const v = blocks<UVBlock>( "v", 4, V, z.uv_dc, z.uv_ac );
  Y2Block & y2 = *blocks<Y2Block>( "y2", 1, BLOCKS, z.y2_dc, z.y2_ac );
  BIND_REFERENCE( m, Y2_, y2 );
  m.Y_.master_ = &storage_over( y, 4, 4, 16 ); m.Y_.column_ = m.Y_.row_ = 0;
  m.U_.master_ = &storage_over( u, 2, 2, 4 ); m.U_.column_ = m.U_.row_ = 0;
  m.V_.master_ = &storage_over( v, 2, 2, 4 ); m.V_.column_ = m.V_.row_ = 0;
  y_mode = vp_u8( "y_mode" ); uv_mode = vp_u8( "uv_mode" );
  REQUIRES( uv_mode <= TM_PRED and ( inter_ ? y_mode > B_PRED and y_mode <= SPLITMV : y_mode <= B_PRED ) );
  y_mode = vp_cases( y_mode, DC_PRED, SPLITMV );
  y2.prediction_mode_ = (mbmode) y_mode; y2.coded_ = not split(); y2.has_nonzero_ = vp_bool( "y2_nonzero" );
  for ( unsigned k = 0; k < 16; k++ ) { const unsigned s = vp_u8( "sub_mode", k ); REQUIRES( s <= B_HU_PRED ); sub_mode[ k ] = y[ k ].prediction_mode_ = (bmode) s; y[ k ].has_nonzero_ = vp_bool( "y_nonzero", k ); y[ k ].type_ = split() ? Y_without_Y2 : Y_after_Y2; }
  for ( unsigned k = 0; k < 4; k++ ) { u[ k ].prediction_mode_ = v[ k ].prediction_mode_ = (mbmode) uv_mode; u[ k ].has_nonzero_ = vp_bool( "u_nonzero", k ); v[ k ].has_nonzero_ = vp_bool( "v_nonzero", k ); }
  vectors( y, "y_mv", 16, Y ); vectors( u, "u_mv", 4, U ); vectors( v, "v_mv", 4, V );
  nonzero = vp_cases( vp_bool( "nonzero" ), 0, 1 );
  m.has_nonzero_ = nonzero;
  for ( unsigned k = 0; k < 16; k++ ) { dc[ k ] = vp_s16( "dc", k ); }
  return m;
}
static const Quantizer & any_quantizer()
{
  Quantizer & z = raw<Quantizer>();
  z.y_ac = vp_u16( "y_ac" ); z.y_dc = vp_u16( "y_dc" ); z.y2_ac = vp_u16( "y2_ac" ); z.y2_dc = vp_u16( "y2_dc" ); z.uv_ac = vp_u16( "uv_ac" ); z.uv_dc = vp_u16( "uv_dc" );
  return z;
}
static void finished()
{
  bool p = true, a = true;
  for ( unsigned k = 0; k < BLOCKS; k++ ) { p = p and predicted[ k ]; a = a and added[ k ] == nonzero; }
  ENSURES( p, "every block is predicted" );
  ENSURES( a, "every block gets its residue if the macroblock has coefficients" );
}
template <class M> static void intra()
{
  if ( not vp_symbolic() ) { return; }
  const Quantizer & z = any_quantizer();
  const M & m = any_macroblock<M>( z, 0 );
  out = &raw<VP8Raster::Macroblock>();
  m.reconstruct_intra( z, *out );
  finished();
  COVER( "reconstructed" );
}
PROOF( prove_intra_key ) { intra<KeyFrameMacroblock>(); }
PROOF( prove_intra_inter ) { intra<InterFrameMacroblock>(); }
PROOF( prove_inter )
{
  if ( not vp_symbolic() ) { return; }
  const Quantizer & z = any_quantizer();
  const unsigned r = vp_u8( "reference" );
  REQUIRES( r >= 1 and r <= 3 );
  pictures = &raw<VP8Raster>( 4 );
  const InterFrameMacroblock & m = any_macroblock<InterFrameMacroblock>( z, vp_cases( r, 1, 3 ) );
  out = &raw<VP8Raster::Macroblock>();
  m.reconstruct_inter( z, raw<References>(), *out );
  finished();
  COVER( "reconstructed" );
}
