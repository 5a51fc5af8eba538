/* macroblock.cc includes prediction.cc, whose explicit specializations follow
   their first use (g++ accepts that, clang does not): declare them first. */
#ifndef DECODER_SOURCES_H
#define DECODER_SOURCES_H
#include "vp8_raster.hh"
#ifdef HAVE_SSE2
#define SPEC( N, D ) \
template <> void VP8Raster::Block<N>::sse_##D##_inter_predict( const uint8_t *, const unsigned int, const uint8_t *, const unsigned int, const unsigned int, const unsigned int );
SPEC( 4, horiz ) SPEC( 8, horiz ) SPEC( 16, horiz ) SPEC( 4, vert ) SPEC( 8, vert ) SPEC( 16, vert )
#undef SPEC
#endif
#endif
