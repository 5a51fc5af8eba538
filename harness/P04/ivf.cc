// The IVF file format: 32-byte header, then frames of a 12-byte header and the bytes of the frame.
#include <cstring>
#include <sys/mman.h>
#include <fcntl.h>
#include "vp.h"
#include "vp_vec.h"
#include "raw.h"
#include "ivf.hh"
#include "ivf_writer.hh"
#include "mmap_region.hh"
//@ sources: src/util/ivf.cc src/util/ivf_writer.cc src/util/file.cc src/util/mmap_region.cc
//@ replace: File::File\(std::.*basic_string<char.*> const&\) => file_open
//@ replace: ?std::vector<std::pair<unsigned long, unsigned int>.*>::reserve\(unsigned long\) => index_reserve
//@ replace: MMap_Region::MMap_Region\(unsigned long, int, int, int, long\) => region_map
//@ replace: MMap_Region::~MMap_Region\(\) => region_unmap
//@ replace: FileDescriptor::write\(Chunk const&\) => fd_write
//@ replace: ?FileDescriptor::size\(\) const => fd_size
//@ replace: FileDescriptor::~FileDescriptor\(\) => fd_close
//@ trusted: the operating system (open, mmap, fstat, write): a mapped file has the bytes of the file, a write appends, a shared mapping is the file

static uint64_t le( const uint8_t * p, const unsigned n )
{
  uint64_t v = 0;
  for ( unsigned i = 0; i < n; i++ ) { v |= uint64_t( p[ i ] ) << ( 8 * i ); }
  return v;
}
static uint8_t byte_of( const uint64_t v, const unsigned i ) { return v >> ( 8 * i ); }

// ------------------------------------------------------------ the file
static uint8_t * content;
static uint64_t length;
extern "C" void file_open( File * f, const std::string & )
{
  new ( &f->fd_ ) FileDescriptor( -1 );
  f->size_ = length;
  f->mmap_region_.addr_ = nullptr; f->mmap_region_.length_ = length;
  new ( &f->chunk_ ) Chunk( content, length );
}
static bool reserved;
extern "C" void index_reserve( const void *, const uint64_t n )
{
  reserved = true;
  ENSURES( n <= length / 12, "memory is only set aside for frames the file has room for" );
}
static std::string & file_name()
{
  if ( vp_symbolic() ) { return vp_leak( std::string( "file" ) ); }
  static int fd = -1;
  if ( fd >= 0 ) { close( fd ); }
  fd = memfd_create( "ivf", 0 );
  if ( write( fd, content, length ) != (ssize_t) length ) { abort(); }
  return vp_leak( "/proc/self/fd/" + std::to_string( fd ) );
}
enum Answer { READ, INVALID, UNSUPPORTED, OTHER };
static IVF * file;
static Answer read_file()
{
  try {
    file = new IVF( file_name() );
  } catch ( const Invalid & ) { return INVALID;
  } catch ( const Unsupported & ) { return UNSUPPORTED;
  } catch ( const std::exception & ) { return OTHER; }
  return READ;
}
/* natively: a file that is likely enough to be one */
static void plausible( const uint64_t frames )
{
  if ( vp_symbolic() ) { return; }
  static const uint8_t start[ 8 ] = { 'D', 'K', 'I', 'F', 0, 0, 32, 0 };
  if ( vp_u8( "plausible" ) % 8 ) { for ( unsigned i = 0; i < 8 and i < length; i++ ) { content[ i ] = start[ i ]; } }
  for ( unsigned i = 0; i < 4 and 24 + i < length; i++ ) { content[ 24 + i ] = byte_of( frames, i ); }
  uint64_t at = 32;
  for ( unsigned i = 0; i < frames and i < 4 and at + 12 < length; i++ ) {
    if ( vp_u8( "plausible_length", i + 1 ) % 4 ) { content[ at ] &= 31; content[ at + 1 ] = content[ at + 2 ] = content[ at + 3 ] = 0; }
    at += 12 + le( content + at, 4 );
  }
}

PROOF( prove_header )
{
  /* a file without frames, or of anything less than a header */
  length = vp_u64( "length" );
  if ( not vp_symbolic() ) { length %= 64; }
  REQUIRES( length > 0 and length < ( 1ull << 40 ) );
  content = vp_bytes( "content", length );
  plausible( 0 );
  if ( length >= 32 ) { REQUIRES( le( content + 24, 4 ) == 0 ); }
  const Answer a = read_file();
  if ( length < 32 ) { ENSURES( a == INVALID, "a file shorter than its header is refused" ); COVER( "short" ); return; }
  const bool magic = content[ 0 ] == 'D' and content[ 1 ] == 'K' and content[ 2 ] == 'I' and content[ 3 ] == 'F';
  const bool supported = le( content + 4, 2 ) == 0 and le( content + 6, 2 ) == 32;
  if ( not magic ) { ENSURES( a == INVALID, "a file without the signature is refused" ); COVER( "no signature" ); return; }
  if ( not supported ) { ENSURES( a == UNSUPPORTED, "an unknown version or header length is refused" ); COVER( "version" ); return; }
  ENSURES( a == READ, "every well-formed file is read" );
  if ( a != READ ) { return; }
  COVER( "read" );
  const std::string & f = file->fourcc();
  ENSURES( f.size() == 4 and not memcmp( f.data(), content + 8, 4 ), "the fourcc" );
  ENSURES( file->width() == le( content + 12, 2 ) and file->height() == le( content + 14, 2 ), "the dimensions" );
  ENSURES( file->frame_rate() == le( content + 16, 4 ) and file->time_scale() == le( content + 20, 4 ), "the frame rate and time scale" );
  ENSURES( file->frame_count() == le( content + 24, 4 ), "the frame count" );
  ENSURES( file->expected_decoder_minihash() == le( content + 28, 4 ), "the hash of the expected decoder" );
  ENSURES( file->size() == length, "the size of the file" );
}

static void frames( const unsigned n )
{
  length = vp_u64( "length" );
  if ( not vp_symbolic() ) { length = 32 + length % 150; }
  REQUIRES( length >= 32 and length < ( 1ull << 40 ) );
  content = vp_bytes( "content", length );
  plausible( n );
  REQUIRES( le( content, 4 ) == le( reinterpret_cast<const uint8_t *>( "DKIF" ), 4 ) and le( content + 4, 4 ) == 32u << 16 );
  REQUIRES( le( content + 24, 4 ) == n );
  const Answer a = read_file();
  uint64_t at[ 4 ], len[ 4 ], position = 32;
  bool whole = true;
  for ( unsigned i = 0; i < n and whole; i++ ) {
    if ( length < position + 12 ) { whole = false; break; }
    at[ i ] = position + 12; len[ i ] = le( content + position, 4 );
    position = at[ i ] + len[ i ];
  }
  if ( not whole ) { ENSURES( a == INVALID, "a file that ends before its last frame's header is refused" ); COVER( "truncated" ); return; }
  ENSURES( a == READ, "a file with all its frame headers is read" );
  if ( a != READ ) { return; }
  COVER( "read" );
  ENSURES( file->frame_count() == n, "the frame count" );
  for ( unsigned i = 0; i < n; i++ ) {
    bool got = true;
    try {
      const Chunk c = file->frame( i );
      ENSURES( at[ i ] + len[ i ] <= length, "a frame is only handed out when the file has all of it" );
      ENSURES( c.size() == len[ i ], "a frame has the length in its header" );
      if ( vp_symbolic() ) { ENSURES( c.buffer() == content + at[ i ], "a frame is the bytes that follow its header" ); }
      else { ENSURES( not memcmp( c.buffer(), content + at[ i ], len[ i ] ), "a frame is the bytes that follow its header" ); }
    } catch ( const std::out_of_range & ) { got = false; }
    if ( at[ i ] + len[ i ] <= length ) { ENSURES( got, "every whole frame can be had" ); }
  }
  bool beyond = false;
  const uint32_t no = vp_u32( "beyond" );
  if ( no >= n ) {
    try { file->frame( no ); } catch ( const std::out_of_range & ) { beyond = true; }
    ENSURES( beyond, "there is no frame past the last" );
  }
}
PROOF( bounded_frames_1 ) { frames( 1 ); }
PROOF( bounded_frames_2 ) { frames( 2 ); }

/* any frame count in a file that has room for two frame headers */
PROOF( bounded_frame_count )
{
  length = vp_u64( "length" );
  if ( not vp_symbolic() ) { length = 32 + length % 36; }
  REQUIRES( length >= 32 and length < 32 + 36 );
  content = vp_bytes( "content", length );
  plausible( 0 );
  for ( unsigned i = 0; i < 4; i++ ) { if ( not vp_symbolic() ) { content[ 24 + i ] = vp_u8( "count", i ); } }
  REQUIRES( le( content, 4 ) == le( reinterpret_cast<const uint8_t *>( "DKIF" ), 4 ) and le( content + 4, 4 ) == 32u << 16 );
  REQUIRES( le( content + 24, 4 ) > 2 );
  const Answer a = read_file();
  ENSURES( a == INVALID, "a frame count the file has no room for is refused as a truncated file" );
  COVER( "refused" );
}

/* frame() over any index whatever */
PROOF( prove_frame )
{
  if ( not vp_symbolic() ) { return; }
  length = vp_u64( "length" );
  REQUIRES( length >= 32 and length < ( 1ull << 40 ) );
  content = vp_bytes( "content", length );
  IVF & f = raw<IVF>();
  file_open( &f.file_, "" );
  const uint64_t n = vp_u32( "frames" );
  typedef std::pair<uint64_t, uint32_t> Entry;
  Entry * const index = reinterpret_cast<Entry *>( vp_bytes( "index", n * sizeof( Entry ) ) );
  f.frame_index_._M_impl._M_start = index;
  f.frame_index_._M_impl._M_finish = f.frame_index_._M_impl._M_end_of_storage = index + n;
  const uint32_t i = vp_u32( "i" );
  try {
    const Chunk c = f.frame( i );
    ENSURES( i < n and index[ i ].first <= length and index[ i ].second <= length - index[ i ].first, "only frames of the file are handed out" );
    ENSURES( c.buffer() == content + index[ i ].first and c.size() == index[ i ].second, "the frame of that number" );
    COVER( "frame" );
  } catch ( const std::out_of_range & ) {
    COVER( "refused" );
    if ( i < n ) { ENSURES( index[ i ].first > length or index[ i ].second > length - index[ i ].first, "every frame of the file can be had" ); }
  }
}

// ------------------------------------------------------------ writing: an arbitrary byte of the file is watched
static uint64_t end_of_file, watched;
static uint8_t seen;
static uint8_t header[ 32 ];
static bool whole; /* the whole file is kept, in content */
extern "C" void region_map( MMap_Region * m, const uint64_t n, int, int, int, long )
{
  ENSURES( n <= 32 and n <= end_of_file, "only the file's header is mapped" );
  m->addr_ = whole ? content : header; m->length_ = n;
}
extern "C" void region_unmap( MMap_Region * ) {}
extern "C" void fd_close( FileDescriptor * ) {}
extern "C" void fd_write( FileDescriptor *, const Chunk & c )
{
  if ( whole ) { for ( uint64_t i = 0; i < c.size(); i++ ) { content[ end_of_file + i ] = c.buffer()[ i ]; } }
  else if ( end_of_file < 32 ) { for ( uint64_t i = 0; i < c.size() and end_of_file + i < 32; i++ ) { header[ end_of_file + i ] = c.buffer()[ i ]; } }
  if ( watched >= end_of_file and watched - end_of_file < c.size() ) { seen = c.buffer()[ watched - end_of_file ]; }
  end_of_file += c.size();
}
extern "C" uint64_t fd_size( const FileDescriptor * ) { return end_of_file; }

PROOF( prove_new_file )
{
  if ( not vp_symbolic() ) { return; }
  end_of_file = 0; watched = ~0ull;
  uint8_t fourcc[ 4 ]; vp_fill( fourcc, 4, "fourcc" );
  const uint16_t w = vp_u16( "width" ), h = vp_u16( "height" );
  const uint32_t rate = vp_u32( "rate" ), scale = vp_u32( "scale" );
  std::string & s = vp_leak( std::string() ); vp_string( s, fourcc, 4 );
  IVFWriter & o = *new IVFWriter( FileDescriptor( 3 ), s, w, h, rate, scale );
  ENSURES( end_of_file == 32, "a new file is its header" );
  ENSURES( not memcmp( header, "DKIF", 4 ) and le( header + 4, 2 ) == 0 and le( header + 6, 2 ) == 32, "signature, version and header length" );
  ENSURES( not memcmp( header + 8, fourcc, 4 ), "the fourcc" );
  ENSURES( le( header + 12, 2 ) == w and le( header + 14, 2 ) == h, "the dimensions" );
  ENSURES( le( header + 16, 4 ) == rate and le( header + 20, 4 ) == scale, "the frame rate and time scale" );
  ENSURES( le( header + 24, 4 ) == 0, "no frames yet" );
  ENSURES( le( header + 28, 4 ) == 0, "no expected decoder yet" );
  ENSURES( o.file_size_ == 32 and o.frame_count_ == 0 and o.width() == w and o.height() == h, "the writer knows its file" );
  COVER( "new" );
}
PROOF( prove_fourcc )
{
  if ( not vp_symbolic() ) { return; }
  end_of_file = 0; watched = ~0ull;
  const uint64_t n = vp_u64( "size" );
  REQUIRES( n != 4 and n < ( 1ull << 40 ) );
  std::string & s = vp_leak( std::string() ); vp_string( s, vp_bytes( "fourcc", n ), n );
  bool refused = false;
  try { new IVFWriter( FileDescriptor( 3 ), s, 16, 16, 1, 1 ); } catch ( const internal_error & ) { refused = true; }
  ENSURES( refused and end_of_file == 0, "a fourcc that is not four bytes is refused, and nothing written" );
  COVER( "refused" );
}
/* any file that has been written to so far */
static IVFWriter & any_writer()
{
  IVFWriter & o = raw<IVFWriter>();
  end_of_file = vp_u64( "end_of_file" );
  REQUIRES( end_of_file >= 32 and end_of_file < ( 1ull << 62 ) );
  o.file_size_ = end_of_file; o.frame_count_ = vp_u32( "frames" );
  vp_fill( header, 32, "header" );
  REQUIRES( le( header + 24, 4 ) == o.frame_count_ and o.frame_count_ < ~0u );
  return o;
}
PROOF( prove_append )
{
  if ( not vp_symbolic() ) { return; }
  IVFWriter & o = any_writer();
  const uint64_t before = end_of_file; const uint32_t count = o.frame_count_;
  uint8_t was[ 32 ]; memcpy( was, header, 32 );
  const uint64_t n = vp_u32( "size" );
  uint8_t * const frame = vp_bytes( "frame", n );
  const uint64_t at = vp_u64( "watched" );
  watched = before + at;
  REQUIRES( at < 12 + n );
  const uint64_t offset = o.append_frame( Chunk( frame, n ) );
  ENSURES( offset == before + 12, "the offset of the frame's bytes is returned" );
  ENSURES( end_of_file == before + 12 + n, "the file grows by a frame header and the frame" );
  ENSURES( seen == ( at < 4 ? byte_of( n, at ) : at < 12 ? 0 : frame[ at - 12 ] ), "the length, an empty time stamp, and the bytes of the frame" );
  ENSURES( le( header + 24, 4 ) == count + 1u, "the header counts the frame" );
  bool ok = true;
  for ( unsigned i = 0; i < 32; i++ ) { if ( i < 24 or i >= 28 ) { ok &= header[ i ] == was[ i ]; } }
  ENSURES( ok, "the rest of the header stays" );
  ENSURES( o.file_size_ == end_of_file and o.frame_count_ == count + 1u, "the writer knows its file" );
  COVER( "appended" );
}
PROOF( prove_expected_decoder )
{
  if ( not vp_symbolic() ) { return; }
  IVFWriter & o = any_writer();
  watched = ~0ull;
  const uint64_t before = end_of_file; const uint32_t count = o.frame_count_;
  uint8_t was[ 32 ]; memcpy( was, header, 32 );
  const uint32_t hash = vp_u32( "hash" );
  o.set_expected_decoder_entry_hash( hash );
  ENSURES( le( header + 28, 4 ) == hash, "the header holds the hash" );
  ENSURES( not memcmp( header, was, 28 ) and end_of_file == before and o.file_size_ == before and o.frame_count_ == count, "nothing else changes" );
  COVER( "set" );
}

// ------------------------------------------------------------ files written are the files read
PROOF( bounded_round_trip )
{
  const uint16_t w = vp_u16( "width" ), h = vp_u16( "height" );
  const uint32_t rate = vp_u32( "rate" ), scale = vp_u32( "scale" ), hash = vp_u32( "hash" );
  const unsigned any_n = vp_u8( "frames" );
  REQUIRES( any_n <= 2 );
  const unsigned n = vp_cases( any_n, 0, 2 );
  uint8_t * frame[ 4 ]; unsigned size[ 4 ]; size_t offset[ 4 ];
  std::string & name = vp_leak( std::string( "file" ) ), & vp80 = vp_leak( std::string( "VP80" ) );
  int fd = -1;
  whole = true; end_of_file = 0; watched = ~0ull;
  if ( vp_symbolic() ) { content = vp_bytes( "content", 256 ); }
  else { fd = memfd_create( "ivf", 0 ); name = "/proc/self/fd/" + std::to_string( fd ); }
  IVFWriter & o = vp_symbolic() ? *new IVFWriter( FileDescriptor( 3 ), vp80, w, h, rate, scale ) : *new IVFWriter( name, vp80, w, h, rate, scale );
  for ( unsigned i = 0; i < n; i++ ) {
    const unsigned any_size = vp_u8( "size", i + 1 );
    REQUIRES( any_size <= 3 );
    size[ i ] = vp_cases( any_size, 0, 3 );
    frame[ i ] = vp_bytes( i ? "second" : "first", 256 );
    offset[ i ] = o.append_frame( Chunk( frame[ i ], size[ i ] ) );
  }
  o.set_expected_decoder_entry_hash( hash );
  length = end_of_file;
  const IVF & f = *new IVF( name );
  ENSURES( f.fourcc() == "VP80" and f.width() == w and f.height() == h and f.frame_rate() == rate and f.time_scale() == scale
           and f.frame_count() == n and f.expected_decoder_minihash() == hash, "the header read is the one written" );
  for ( unsigned i = 0; i < n; i++ ) {
    const Chunk c = f.frame( i );
    bool ok = c.size() == size[ i ] and f.file_( offset[ i ], size[ i ] ).buffer() == c.buffer();
    for ( unsigned k = 0; k < size[ i ]; k++ ) { ok = ok and c.buffer()[ k ] == frame[ i ][ k ]; }
    ENSURES( ok, "the frames read are those written" );
  }
  if ( fd >= 0 ) { delete &o; delete &f; close( fd ); }
  COVER( "round trip" );
}
