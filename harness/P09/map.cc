// Macroblock::update_segmentation: a macroblock writes its coded segment number into the persistent map, and uses what the map says.
#include "vp.h"
#include "raw.h"
#include "decoder_sources.h"
#include "macroblock.cc"
//@ sources: src/decoder/vp8_prob_data.cc src/decoder/modemv_data.cc
//@ flags: -I/repo/src/decoder -I/repo/src/encoder
//@ drop: src/decoder/prediction.cc => ^template class VP8Raster::Block<\d+>;

template <class M> static void one()
{
  M & m = raw<M>();
  const uint32_t w = vp_u16( "width" ), h = vp_u16( "height" ), c = vp_u16( "column" ), r = vp_u16( "row" );
  REQUIRES( w > 0 and h > 0 and w < 16384 and h < 16384 and c < w and r < h );
  const_cast<unsigned &>( m.context_.column ) = c;
  const_cast<unsigned &>( m.context_.row ) = r;
  m.segment_id_update_.initialized_ = vp_bool( "coded" );
  const unsigned id = vp_u8( "segment" ) & 3;
  *reinterpret_cast<uint32_t *>( &m.segment_id_update_.object_ ) = id;
  const uint32_t n = w * h, at = r * w + c, other = vp_u32( "other" );
  REQUIRES( other < n and at < n );
  uint8_t * const bytes = vp_bytes( "map", n );
  SegmentationMap & map = twod_at( raw<SegmentationMap>(), storage_over( bytes, w, h, n ) );
  const uint8_t was = bytes[ at ], other_was = bytes[ other ];
  m.update_segmentation( map );
  const uint8_t now = m.segment_id_update_.initialized_ ? id : was;
  ENSURES( bytes[ at ] == now, "the map takes the coded segment number, and keeps the old one otherwise" );
  ENSURES( m.segment_id() == now, "the macroblock belongs to the segment in the map" );
  ENSURES( other == at or bytes[ other ] == other_was, "no other macroblock's segment changes" );
  COVER( "map" );
}
PROOF( prove_map_key ) { one<KeyFrameMacroblock>(); }
PROOF( prove_map_inter ) { one<InterFrameMacroblock>(); }
