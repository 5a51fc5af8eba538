// Dequantization factors and dequantization, against RFC 6386 sections 9.3, 9.6 and 14.1.
#include "vp.h"
#include "rfc_quant.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "frame.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: Macroblock<KeyFrameHeader, KeyFrameMacroblockHeader>::reconstruct_intra\(.*\) const => key_intra
//@ replace: Macroblock<InterFrameHeader, InterFrameMacroblockHeader>::reconstruct_intra\(.*\) const => inter_intra
//@ replace: Macroblock<InterFrameHeader, InterFrameMacroblockHeader>::reconstruct_inter\(.*\) const => inter_inter
//@ noop: VP8Raster::Macroblock::Macroblock\(unsigned int, unsigned int, VP8Raster&\)

template <class T> static T & raw() { T & t = *reinterpret_cast<T *>( operator new( sizeof( T ) ) ); return t; }

template <unsigned w> static void any( Flagged<Signed<w>> & x, const char * n )
{
  const uint8_t v = vp_u8( n );
  const int8_t m = v & ( ( 1 << w ) - 1 );
  x.initialized_ = vp_bool( n, 1 );
  x.object_.i_ = ( v & 128 ) ? -m : m;
}
static void any( QuantIndices & q )
{
  q.y_ac_qi.i_ = vp_u8( "y_ac_qi" ) & 127;
  any( q.y_dc, "y_dc" ); any( q.y2_dc, "y2_dc" ); any( q.y2_ac, "y2_ac" ); any( q.uv_dc, "uv_dc" ); any( q.uv_ac, "uv_ac" );
}
static int val( const Flagged<Signed<4>> & x ) { return x.initialized_ ? (int) x.object_.i_ : 0; }
static int q( const int i ) { return i < 0 ? 0 : i > 127 ? 127 : i; }

static void check( const Quantizer & z, const int base, const QuantIndices & x )
{
  ENSURES( z.y_dc == rfc_dc_qlookup[ q( base + val( x.y_dc ) ) ], "luma DC factor" );
  ENSURES( z.y_ac == rfc_ac_qlookup[ q( base ) ], "luma AC factor" );
  ENSURES( z.y2_dc == 2 * rfc_dc_qlookup[ q( base + val( x.y2_dc ) ) ], "second-order luma DC factor" );
  const int y2_ac = rfc_ac_qlookup[ q( base + val( x.y2_ac ) ) ] * 155 / 100;
  ENSURES( z.y2_ac == ( y2_ac < 8 ? 8 : y2_ac ), "second-order luma AC factor" );
  const int uv_dc = rfc_dc_qlookup[ q( base + val( x.uv_dc ) ) ];
  ENSURES( z.uv_dc == ( uv_dc > 132 ? 132 : uv_dc ), "chroma DC factor" );
  ENSURES( z.uv_ac == rfc_ac_qlookup[ q( base + val( x.uv_ac ) ) ], "chroma AC factor" );
}

PROOF( prove_frame_quantizer )
{
  QuantIndices & x = raw<QuantIndices>();
  any( x );
  const Quantizer z( x );
  check( z, x.y_ac_qi.i_, x );
  COVER( "frame quantizer" );
}

static void any( Segmentation & s )
{
  s.absolute_segment_adjustments = vp_bool( "absolute" );
  for ( unsigned i = 0; i < 4; i++ ) { s.segment_quantizer_adjustments.at( i ) = vp_u8( "segment_quantizer", i ); }
}
static int segment_index( const Segmentation & s, const unsigned i, const int base )
{
  return q( s.segment_quantizer_adjustments.at( i ) + ( s.absolute_segment_adjustments ? 0 : base ) );
}

template <class F> static void segments()
{
  F & f = raw<F>();
  any( f.header_.quant_indices );
  Optional<Segmentation> & s = raw<Optional<Segmentation>>();
  s.initialized_ = true;
  any( s.object_ );
  const auto r = f.calculate_segment_quantizers( s );
  for ( unsigned i = 0; i < 4; i++ ) {
    check( r.at( i ), segment_index( s.object_, i, f.header_.quant_indices.y_ac_qi.i_ ), f.header_.quant_indices );
  }
  COVER( "segment quantizers" );
}
PROOF( prove_segments_key ) { segments<KeyFrame>(); }
PROOF( prove_segments_inter ) { segments<InterFrame>(); }

// ------------------------------------------------------------ dequantization
PROOF( prove_dequantize )
{
  DCTCoefficients & c = raw<DCTCoefficients>();
  for ( unsigned i = 0; i < 16; i++ ) { c.coefficients_.storage_[ i ] = vp_s16( "coefficient", i ); }
  const uint16_t dc = vp_u16( "dc" ), ac = vp_u16( "ac" );
  const DCTCoefficients r = c.dequantize( { dc, ac } );
  for ( unsigned i = 0; i < 16; i++ ) {
    ENSURES( r.at( i ) == (int16_t) ( (uint16_t) c.at( i ) * (uint16_t) ( i ? ac : dc ) ), "coefficient times its factor" );
  }
  COVER( "dequantized" );
}
template <class B> static void block( const unsigned which )
{
  B & b = raw<B>();
  for ( unsigned i = 0; i < 16; i++ ) { b.coefficients_.coefficients_.storage_[ i ] = vp_s16( "coefficient", i ); }
  b.coded_ = true;
  Quantizer z;
  z.y_ac = vp_u16( "y_ac" ); z.y_dc = vp_u16( "y_dc" ); z.y2_ac = vp_u16( "y2_ac" ); z.y2_dc = vp_u16( "y2_dc" ); z.uv_ac = vp_u16( "uv_ac" ); z.uv_dc = vp_u16( "uv_dc" );
  const uint16_t dc = which == 0 ? z.y_dc : which == 1 ? z.y2_dc : z.uv_dc;
  const uint16_t ac = which == 0 ? z.y_ac : which == 1 ? z.y2_ac : z.uv_ac;
  const DCTCoefficients r = b.dequantize( z );
  for ( unsigned i = 0; i < 16; i++ ) {
    ENSURES( r.at( i ) == (int16_t) ( (uint16_t) b.coefficients_.at( i ) * (uint16_t) ( i ? ac : dc ) ), "block uses the factors of its plane" );
  }
  COVER( "block dequantized" );
}
PROOF( prove_dequantize_y ) { block<YBlock>( 0 ); }
PROOF( prove_dequantize_y2 ) { block<Y2Block>( 1 ); }
PROOF( prove_dequantize_uv ) { block<UVBlock>( 2 ); }

// ------------------------------------------------------------ which quantizer a macroblock gets
static Quantizer got[ 2 ];
static unsigned calls, kind[ 2 ];
static const void * who[ 2 ];
static void record( const void * self, const Quantizer & z, const unsigned k ) { if ( calls < 2 ) { who[ calls ] = self; got[ calls ] = z; kind[ calls ] = k; } calls++; }
extern "C" void key_intra( const KeyFrameMacroblock * self, const Quantizer & z, VP8Raster::Macroblock & ) { record( self, z, 0 ); }
extern "C" void inter_intra( const InterFrameMacroblock * self, const Quantizer & z, VP8Raster::Macroblock & ) { record( self, z, 0 ); }
extern "C" void inter_inter( const InterFrameMacroblock * self, const Quantizer & z, const References &, VP8Raster::Macroblock & ) { record( self, z, 1 ); }

// two macroblocks side by side
template <class T> static TwoD<T> & row_of_two( T * elements )
{
  TwoDStorage<T> & st = raw<TwoDStorage<T>>();
  st.width_ = 2; st.height_ = 1;
  T ** v = reinterpret_cast<T **>( &st.storage_ );
  v[ 0 ] = elements; v[ 1 ] = v[ 2 ] = elements + 2;
  TwoD<T> & t = raw<TwoD<T>>();
  void ** sp = reinterpret_cast<void **>( &t.storage_ );
  sp[ 0 ] = &st; sp[ 1 ] = nullptr;
  return t;
}
static void inter( KeyFrameMacroblock &, bool ) {}
static void inter( InterFrameMacroblock & m, const bool b ) { m.header_.is_inter_mb.i_ = b; }

template <class F, class M> static void use()
{
  if ( not vp_symbolic() ) { return; } // relies on stand-ins for the reconstruction functions
  F & f = raw<F>();
  any( f.header_.quant_indices );
  M * const mbs = reinterpret_cast<M *>( operator new( 2 * sizeof( M ) ) );
  f.macroblock_headers_.initialized_ = true;
  memcpy( &f.macroblock_headers_.object_, &row_of_two<M>( mbs ), sizeof( TwoD<M> ) );
  bool is_inter[ 2 ];
  for ( unsigned i = 0; i < 2; i++ ) {
    mbs[ i ].segment_id_ = vp_u8( "segment", i ) & 3;
    is_inter[ i ] = vp_bool( "inter", i );
    inter( mbs[ i ], is_inter[ i ] );
  }
  Optional<Segmentation> & s = raw<Optional<Segmentation>>();
  any( s.object_ );
  s.initialized_ = vp_cases( vp_bool( "segmentation" ), 0, 1 );
  calls = 0;
  f.decode( s, raw<References>(), raw<VP8Raster>() );
  ENSURES( calls == 2, "every macroblock is reconstructed once" );
  for ( unsigned i = 0; i < 2; i++ ) {
    const int base = f.header_.quant_indices.y_ac_qi.i_;
    ENSURES( who[ i ] == mbs + i, "macroblocks are reconstructed in order" );
    check( got[ i ], s.initialized_ ? segment_index( s.object_, mbs[ i ].segment_id_, base ) : base, f.header_.quant_indices );
  }
  COVER( "frame decoded" );
}
PROOF( bounded_decode_key ) { use<KeyFrame, KeyFrameMacroblock>(); }
PROOF( bounded_decode_inter ) { use<InterFrame, InterFrameMacroblock>(); }
