/* Contract-harness interface.  In the verifier these calls are intrinsics:
   vp_nondet = arbitrary value (universally quantified), vp_assume = requires,
   vp_assert = ensures (one named obligation), vp_cover = vacuity check.
   In the native replay they read the counterexample (see replay.cc). */
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vp_nondet( const char * name, uint64_t index, uint32_t bits );
void vp_assume( bool c );
void vp_assert( bool c, const char * name );
void vp_cover( const char * name );
uint8_t * vp_bytes( const char * name, uint64_t size );
void vp_fill( void * p, uint64_t size, const char * name );
uint64_t vp_split( uint64_t x, uint64_t lo, uint64_t hi );
uint64_t vp_cases( uint64_t x, uint64_t lo, uint64_t hi );
uint64_t vp_uf( const char * name, uint64_t a, uint64_t b );
void vp_log( const char * name, uint64_t v );
int vp_symbolic( void );
/* ghost sequence of (bit, probability) pairs; native replays use the real coder */
void vp_trace_put( uint32_t which, bool bit, uint8_t prob );
bool vp_trace_get( uint32_t which, uint8_t prob );
/* the same sequence holding whole values, read back under the same tag (contracts of callees; verifier only) */
void vp_trace_put_word( uint32_t which, uint64_t value, uint64_t tag );
uint64_t vp_trace_get_word( uint32_t which, uint64_t tag );
/* a term that the values of the program may be equal to where paths meet; the verifier proves it before it uses it */
void vp_hint( uint64_t x );
/* ghost: what follows is section n of the sequence (n > 0, ascending) */
void vp_trace_mark( uint32_t which, uint32_t section );
void vp_trace_done( uint32_t which );
void vp_trace_rewind( uint32_t which );
void vp_trace_reset( uint32_t which );
void vp_kill( void );
}
static inline uint8_t  vp_u8 ( const char * n, uint64_t i = 0 ) { return vp_nondet( n, i, 8 ); }
static inline int8_t   vp_s8 ( const char * n, uint64_t i = 0 ) { return (int8_t) vp_nondet( n, i, 8 ); }
static inline uint16_t vp_u16( const char * n, uint64_t i = 0 ) { return vp_nondet( n, i, 16 ); }
static inline int16_t  vp_s16( const char * n, uint64_t i = 0 ) { return (int16_t) vp_nondet( n, i, 16 ); }
static inline uint32_t vp_u32( const char * n, uint64_t i = 0 ) { return vp_nondet( n, i, 32 ); }
static inline int32_t  vp_s32( const char * n, uint64_t i = 0 ) { return (int32_t) vp_nondet( n, i, 32 ); }
static inline uint64_t vp_u64( const char * n, uint64_t i = 0 ) { return vp_nondet( n, i, 64 ); }
static inline bool     vp_bool( const char * n, uint64_t i = 0 ) { return vp_nondet( n, i, 1 ); }
#define REQUIRES( c ) vp_assume( (c) )
#define ENSURES( c, name ) vp_assert( (c), name )
#define PROOF( f ) extern "C" void f( void )
#define ENSURES_NATIVE( c, name ) do { if ( not vp_symbolic() ) { vp_assert( (c), name ); } } while ( 0 )
#define COVER( name ) vp_cover( name )
#endif
