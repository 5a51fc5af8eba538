/* Objects whose fields the harness chooses one by one (uninitialised memory is arbitrary). */
#ifndef RAW_H
#define RAW_H
#include "2d.hh"
template <class T> static T & raw( const unsigned n = 1 ) { return *reinterpret_cast<T *>( operator new( n * sizeof( T ) ) ); }
/* TwoDStorage over given elements */
template <class T> static TwoDStorage<T> & storage_over( T * elements, const unsigned width, const unsigned height, const uint64_t n )
{
  TwoDStorage<T> & st = raw<TwoDStorage<T>>();
  st.width_ = width; st.height_ = height;
  T ** v = reinterpret_cast<T **>( &st.storage_ );
  v[ 0 ] = elements; v[ 1 ] = v[ 2 ] = elements + n;
  return st;
}
template <class T> static TwoD<T> & twod_at( TwoD<T> & t, TwoDStorage<T> & st )
{
  void ** sp = reinterpret_cast<void **>( &t.storage_ );
  sp[ 0 ] = &st; sp[ 1 ] = nullptr;
  return t;
}
/* where an object keeps a reference member: fill an image with its own offsets and read the reference */
#define BIND_REFERENCE( object, member, target ) do { \
  typedef typename std::remove_reference<decltype( object )>::type O_; \
  uint64_t * w_ = reinterpret_cast<uint64_t *>( operator new( sizeof( O_ ) ) ); \
  for ( unsigned i_ = 0; i_ < sizeof( O_ ) / 8; i_++ ) { w_[ i_ ] = 8 * i_; } \
  const uint64_t at_ = reinterpret_cast<uint64_t>( &reinterpret_cast<O_ *>( w_ )->member ); \
  *reinterpret_cast<const void **>( reinterpret_cast<uint8_t *>( &object ) + at_ ) = &target; } while ( 0 )
#endif
