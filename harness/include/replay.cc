/* Native replay runtime: the same harness, compiled natively against the real
   code, reads the values of a counterexample from $VP_REPLAY. */
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <sstream>
#include <random>
#include <ctime>
#include <csignal>
#include <csetjmp>
#include <unistd.h>
#include <sys/wait.h>
/* after an unconfirmed counterexample: search near it, and at random, for an input that fails */
static bool searching = false;
static jmp_buf again;
static unsigned attempts = 0;
static std::mt19937_64 * rng;
static unsigned keep = 0; /* of 256 */
static uint64_t draw( const uint32_t bits )
{
  const uint64_t r = ( *rng )(), x = ( *rng )();
  switch ( r % 8 ) {
  case 0: return 0;
  case 1: return ~0ull;
  case 2: return x % 4;
  case 3: return ~( x % 4 );
  case 4: return 1ull << ( x % bits );
  case 5: return x & 0x0f0f0f0f0f0f0f0full & ( *rng )();
  default: return x;
  }
}
static std::map<std::string, uint64_t> & vals() { static std::map<std::string, uint64_t> v; return v; }
static std::map<std::string, std::map<uint64_t, uint8_t>> & arrs() { static std::map<std::string, std::map<uint64_t, uint8_t>> v; return v; }
static std::set<std::string> & drawn() { static std::set<std::string> v; return v; }
static bool loaded = false;
static void load()
{
  if ( loaded ) return;
  loaded = true;
  const char * f = getenv( "VP_REPLAY" );
  if ( not f ) return;
  std::ifstream in( f );
  std::string line;
  while ( std::getline( in, line ) ) {
    std::istringstream s( line );
    std::string kind, name; uint64_t a, b;
    s >> kind >> name;
    if ( kind == "v" ) { s >> a; vals()[ name ] = a; }
    else if ( kind == "a" ) { s >> a >> b; arrs()[ name ][ a ] = b; }
  }
}
static std::string key( const char * n, uint64_t i )
{
  std::string k( n );
  if ( i ) k += "#" + std::to_string( i );
  for ( auto & c : k ) if ( c == ' ' ) c = '_';
  return k;
}
extern "C" {
uint64_t vp_nondet( const char * name, uint64_t index, uint32_t bits )
{
  load();
  const std::string k = key( name, index );
  auto it = vals().find( k );
  if ( searching and drawn().insert( k ).second and not ( it != vals().end() and ( *rng )() % 256 < keep ) ) {
    vals()[ k ] = draw( bits );
    it = vals().find( k );
  }
  uint64_t v = it == vals().end() ? 0 : it->second;
  return bits == 64 ? v : v & ( ( 1ull << bits ) - 1 );
}
void vp_assume( bool c ) { if ( not c ) { if ( searching ) { if ( ++attempts > 300 ) { _Exit( 77 ); } longjmp( again, 1 ); } printf( "VP-ASSUMPTION-NOT-MET\n" ); fflush( stdout ); _Exit( 77 ); } }
void vp_assert( bool c, const char * name )
{
  if ( not c ) { printf( "VP-FAILED %s\n", name ); if ( searching ) { for ( auto & kv : vals() ) { printf( "v %s %llu\n", kv.first.c_str(), (unsigned long long) kv.second ); } } fflush( stdout ); _Exit( 10 ); }
}
void vp_cover( const char * ) {}
uint8_t * vp_bytes( const char * name, uint64_t size )
{
  load();
  if ( size > ( 1ull << 28 ) ) { printf( "VP-TOO-BIG\n" ); fflush( stdout ); _Exit( 78 ); }
  uint8_t * p = (uint8_t *) malloc( size ? size : 1 );
  memset( p, 0, size );
  for ( auto & kv : arrs()[ name ] ) if ( kv.first < size ) p[ kv.first ] = kv.second;
  if ( searching ) { for ( uint64_t i = 0; i < size and i < 65536; i++ ) { if ( ( *rng )() % 256 >= keep ) { p[ i ] = draw( 8 ); } } }
  return p;
}
void vp_fill( void * p, uint64_t size, const char * name )
{
  load();
  for ( uint64_t i = 0; i < size; i++ ) {
    auto it = vals().find( std::string( name ) + "#" + std::to_string( i ) );
    ( (uint8_t *) p )[ i ] = it == vals().end() ? 0 : it->second;
    if ( searching and ( *rng )() % 256 >= keep ) { ( (uint8_t *) p )[ i ] = draw( 8 ); }
  }
}
uint64_t vp_split( uint64_t x, uint64_t, uint64_t ) { return x; }
uint64_t vp_cases( uint64_t x, uint64_t, uint64_t ) { return x; }
uint64_t vp_uf( const char *, uint64_t a, uint64_t b ) { return a * 0x9e3779b97f4a7c15ull + b; }
void vp_log( const char * n, uint64_t v ) { printf( "LOG %s %llu\n", n, (unsigned long long) v ); }
int vp_symbolic( void ) { return 0; }
void vp_trace_put( uint32_t, bool, uint8_t ) {}
void vp_trace_put_word( uint32_t, uint64_t, uint64_t ) {}
uint64_t vp_trace_get_word( uint32_t, uint64_t ) { return 0; }
bool vp_trace_get( uint32_t, uint8_t ) { return false; }
void vp_hint( uint64_t ) {}
void vp_trace_mark( uint32_t, uint32_t ) {}
void vp_trace_done( uint32_t ) {}
void vp_trace_rewind( uint32_t ) {}
void vp_trace_reset( uint32_t ) {}
void vp_kill( void ) { _Exit( 77 ); }
}
extern "C" void VP_ENTRY( void );
int main()
{
  const char * secs = getenv( "VP_SEARCH" );
  if ( not secs ) {
    VP_ENTRY();
    printf( "VP-OK\n" );
    return 0;
  }
  load();
  const time_t end = time( nullptr ) + atoi( secs );
  unsigned long trials = 0, met = 0;
  for ( ; time( nullptr ) < end; trials++ ) {
    fflush( stdout );
    const pid_t child = fork();
    if ( child == 0 ) {
      alarm( 5 );
      searching = true;
      rng = new std::mt19937_64( trials + 1 );
      static const unsigned keeps[] = { 250, 0, 200, 128 };
      keep = keeps[ trials % 4 ];
      static const auto base = vals();
      setjmp( again );
      vals() = base; drawn().clear();
      VP_ENTRY();
      _Exit( 0 );
    }
    int status = 0;
    waitpid( child, &status, 0 );
    if ( WIFEXITED( status ) and WEXITSTATUS( status ) == 0 ) { met++; continue; }
    if ( WIFEXITED( status ) and ( WEXITSTATUS( status ) == 77 or WEXITSTATUS( status ) == 78 or WEXITSTATUS( status ) == 99 ) ) { continue; }
    if ( WIFSIGNALED( status ) and ( WTERMSIG( status ) == SIGALRM or WTERMSIG( status ) == SIGKILL ) ) { continue; }
    printf( "VP-FOUND by search, seed %lu, status %d\n", trials + 1, status );
    return 10;
  }
  printf( "VP-NOT-FOUND in %lu trials, %lu of them meeting the preconditions\n", trials, met );
  return 0;
}
