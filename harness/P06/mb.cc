// Coefficients of a macroblock: which blocks are coded, in which order, and what is remembered about them (RFC 6386, 13).
#include <cstring>
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
#include "serializer.cc"
#include "encoder.hh"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc src/encoder/encoder.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;
//@ replace: Block<\(BlockType\)1, mbmode>::parse_tokens\(.*\) => parse_y2
//@ replace: Block<\(BlockType\)0, bmode>::parse_tokens\(.*\) => parse_y
//@ replace: Block<\(BlockType\)2, mbmode>::parse_tokens\(.*\) => parse_uv
//@ replace: Block<\(BlockType\)1, mbmode>::serialize_tokens\(.*\) const => put_y2
//@ replace: Block<\(BlockType\)0, bmode>::serialize_tokens\(.*\) const => put_y
//@ replace: Block<\(BlockType\)2, mbmode>::serialize_tokens\(.*\) const => put_uv

/* second-order block, sixteen of luma, four of each chroma plane */
enum { BLOCKS = 25 };
static YBlock * y;
static UVBlock * u, * v;
static Y2Block * y2;
static unsigned calls, from;
static bool right_place, found[ BLOCKS ];
static const void * coder, * tables;
static const void * block( const unsigned k ) { return k == 0 ? (const void *) y2 : k < 17 ? (const void *) ( y + k - 1 ) : k < 21 ? (const void *) ( u + k - 17 ) : (const void *) ( v + k - 21 ); }
static unsigned next( const void * b, const void * c, const void * t )
{
  const unsigned k = from + calls++;
  ENSURES( k < BLOCKS and b == block( k < BLOCKS ? k : 0 ), "blocks are coded in the order of the format: second order, luma, U, V" );
  ENSURES( c == coder and t == tables, "all by the same coder with the same tables" );
  return k < BLOCKS ? k : 0;
}
extern "C" void parse_y2( Y2Block * b, BoolDecoder & d, const ProbabilityTables & t ) { b->has_nonzero_ = found[ next( b, &d, &t ) ]; }
extern "C" void parse_y( YBlock * b, BoolDecoder & d, const ProbabilityTables & t ) { b->has_nonzero_ = found[ next( b, &d, &t ) ]; }
extern "C" void parse_uv( UVBlock * b, BoolDecoder & d, const ProbabilityTables & t ) { b->has_nonzero_ = found[ next( b, &d, &t ) ]; }
extern "C" void put_y2( const Y2Block * b, BoolEncoder & e, const ProbabilityTables & t ) { next( b, &e, &t ); }
extern "C" void put_y( const YBlock * b, BoolEncoder & e, const ProbabilityTables & t ) { next( b, &e, &t ); }
extern "C" void put_uv( const UVBlock * b, BoolEncoder & e, const ProbabilityTables & t ) { next( b, &e, &t ); }

static bool coded, skip;
template <class B> static B * blocks( const char * const name, const unsigned n )
{
  B * const b = &raw<B>( n );
  for ( unsigned k = 0; k < n; k++ ) { for ( unsigned i = 0; i < 16; i++ ) { b[ k ].coefficients_.coefficients_.storage_[ i ] = vp_s16( name, k * 16 + i ); } b[ k ].has_nonzero_ = false; }
  return b;
}
template <class M> static M & any_macroblock()
{
  M & m = raw<M>();
  y = blocks<YBlock>( "y", 16 ); u = blocks<UVBlock>( "u", 4 ); v = blocks<UVBlock>( "v", 4 ); y2 = blocks<Y2Block>( "y2", 1 );
  BIND_REFERENCE( m, Y2_, *y2 );
  m.Y_.master_ = &storage_over( y, 4, 4, 16 ); m.Y_.column_ = m.Y_.row_ = 0;
  m.U_.master_ = &storage_over( u, 2, 2, 4 ); m.U_.column_ = m.U_.row_ = 0;
  m.V_.master_ = &storage_over( v, 2, 2, 4 ); m.V_.column_ = m.V_.row_ = 0;
  coded = vp_cases( vp_bool( "coded" ), 0, 1 );
  y2->coded_ = coded;
  m.has_nonzero_ = false;
  m.mb_skip_coeff_.initialized_ = vp_bool( "may_skip" );
  m.mb_skip_coeff_.object_.i_ = vp_bool( "skip" );
  skip = m.mb_skip_coeff_.initialized_ and m.mb_skip_coeff_.object_.i_;
  for ( unsigned k = 0; k < BLOCKS; k++ ) { found[ k ] = vp_bool( "found", k ); }
  calls = 0; from = coded ? 0 : 1;
  return m;
}
template <class M> static void parse()
{
  if ( not vp_symbolic() ) { return; }
  M & m = any_macroblock<M>();
  BoolDecoder & d = raw<BoolDecoder>();
  const ProbabilityTables & t = raw<ProbabilityTables>();
  coder = &d; tables = &t;
  m.parse_tokens( d, t );
  bool some = false, kept = true;
  for ( unsigned k = from; k < BLOCKS; k++ ) { some = some or found[ k ]; }
  for ( unsigned k = 0; k < 16; k++ ) { kept = kept and y[ k ].has_nonzero_ == ( found[ 1 + k ] and not skip ); }
  for ( unsigned k = 0; k < 4; k++ ) { kept = kept and u[ k ].has_nonzero_ == ( found[ 17 + k ] and not skip ) and v[ k ].has_nonzero_ == ( found[ 21 + k ] and not skip ); }
  ENSURES( calls == ( skip ? 0 : BLOCKS - from ), "every block is read, unless the macroblock is skipped" );
  ENSURES( m.has_nonzero_ == ( some and not skip ), "a macroblock has coefficients exactly when one of its blocks has" );
  ENSURES( kept, "what each block found stays with it, for its neighbours' contexts" );
  ENSURES( y2->coded_ == coded and m.mb_skip_coeff_.initialized_ == vp_bool( "may_skip" ) and m.mb_skip_coeff_.object_.i_ == vp_bool( "skip" ), "nothing else changes" );
  COVER( "parsed" );
}
PROOF( prove_parse_macroblock_key ) { parse<KeyFrameMacroblock>(); }
PROOF( prove_parse_macroblock_inter ) { parse<InterFrameMacroblock>(); }
template <class M> static void put()
{
  if ( not vp_symbolic() ) { return; }
  const M & m = any_macroblock<M>();
  BoolEncoder & e = raw<BoolEncoder>();
  const ProbabilityTables & t = raw<ProbabilityTables>();
  coder = &e; tables = &t;
  m.serialize_tokens( e, t );
  ENSURES( calls == ( skip ? 0 : BLOCKS - from ), "every block is written, unless the macroblock is skipped" );
  COVER( "written" );
}
PROOF( prove_serialize_macroblock_key ) { put<KeyFrameMacroblock>(); }
PROOF( prove_serialize_macroblock_inter ) { put<InterFrameMacroblock>(); }

/* what the encoder says about a macroblock it has just filled */
template <class B> static bool nonzero( const char * const name, const unsigned k )
{
  bool some = false;
  for ( unsigned i = 0; i < 16; i++ ) { some = some or vp_s16( name, k * 16 + i ) != 0; }
  return some;
}
template <class M> static void flags()
{
  M & m = any_macroblock<M>();
  m.calculate_has_nonzero();
  bool some = false, each = true;
  for ( unsigned k = 0; k < 16; k++ ) { const bool n = nonzero<YBlock>( "y", k ); some = some or n; each = each and y[ k ].has_nonzero_ == n; }
  for ( unsigned k = 0; k < 4; k++ ) { const bool n = nonzero<UVBlock>( "u", k ), o = nonzero<UVBlock>( "v", k ); some = some or n or o; each = each and u[ k ].has_nonzero_ == n and v[ k ].has_nonzero_ == o; }
  if ( coded ) { const bool n = nonzero<Y2Block>( "y2", 0 ); some = some or n; each = each and y2->has_nonzero_ == n; }
  ENSURES( each, "a block is marked exactly when it has a coefficient" );
  ENSURES( m.has_nonzero_ == some, "a macroblock is marked exactly when a block it codes has a coefficient" );
  ENSURES( m.mb_skip_coeff_.initialized_ and m.mb_skip_coeff_.object_.i_ == not some, "and is skipped exactly when not" );
  COVER( "marked" );
}
PROOF( prove_flags_key ) { flags<KeyFrameMacroblock>(); }
PROOF( prove_flags_inter ) { flags<InterFrameMacroblock>(); }
