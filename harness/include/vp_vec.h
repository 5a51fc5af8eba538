/* build standard containers over verifier-chosen storage of arbitrary size */
#ifndef VP_VEC_H
#define VP_VEC_H
#include "vp.h"
#include <vector>
#include <string>
#include <new>
static inline void vp_vector( std::vector<uint8_t> & v, uint8_t * p, uint64_t size, uint64_t capacity )
{
  v._M_impl._M_start = p;
  v._M_impl._M_finish = p + size;
  v._M_impl._M_end_of_storage = p + capacity;
}
/* growth policy of std::vector<uint8_t>: the standard fixes no capacity, so the
   verifier takes one that is never exhausted (use with
   `replace: std::vector<unsigned char, std::allocator<unsigned char> >::_M_check_len.* => vp_grow`) */
extern "C" uint64_t vp_grow( const void *, uint64_t, const char * ) { return 1ull << 40; }
static inline void vp_string( std::string & v, uint8_t * p, uint64_t size )
{
  if ( vp_symbolic() ) {
    v._M_dataplus._M_p = reinterpret_cast<char *>( p );
    v._M_string_length = size;
    v._M_allocated_capacity = size < 16 ? 16 : size;
  } else { v.assign( reinterpret_cast<char *>( p ), size ); }
}
template <class T> static inline T & vp_leak( T && x ) { return *new T( std::move( x ) ); }
#endif
