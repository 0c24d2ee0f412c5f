// Messages of more than 2^32 bytes: the pattern of spec/LongStates.tla, mapped over and over.
//   longmsg <algorithm> <mode> <top>
// mode: chunks  many update calls, observed at 2^29 and 2^32 (top >= 4: and 5 * 2^31) bytes
//       single  one update call from 0 to beyond 2^32
//       pre     a few bytes, then one update call to beyond 2^32
//       range, sized, sized32, view, words, wordsbe   one hash_append operation over more than 2^32 bytes
#define NO_MAIN
#include "driver.cpp"
#include <boost/hash2/hash_append.hpp>
#include <fcntl.h>
#if __cplusplus >= 201703L
#include <string_view>
#endif

static std::size_t const period = std::size_t( 1 ) << 21;
static u8* map_pattern( std::uint64_t total )
{
    char name[] = "/tmp/longmsgXXXXXX";
    int fd = mkstemp( name );
    if( fd < 0 ) { std::perror( "mkstemp" ); std::exit( 3 ); }
    unlink( name );
    if( ftruncate( fd, period ) ) { std::perror( "ftruncate" ); std::exit( 3 ); }
    std::uint64_t n = ( total + period - 1 ) / period * period;
    u8* base = static_cast<u8*>( mmap( 0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if( base == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
    u8* w = static_cast<u8*>( mmap( 0, period, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    if( w == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
    std::uint64_t x = 20261119;
    for( std::size_t i = 0; i < period; ++i ) { x = x * 6364136223846793005ull + 1442695040888963407ull; w[ i ] = static_cast<u8>( x >> 56 ); }
    munmap( w, period );
    for( std::uint64_t i = 0; i < n; i += period )
        if( mmap( base + i, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
    close( fd );
    return base;
}

static std::string ev;
static void add( std::string const& e ) { if( !ev.empty() ) ev += ","; ev += e; }
static void e_new( int o, std::string const& a ) { add( "{\"op\":\"new\",\"o\":" + std::to_string( o ) + ",\"a\":\"" + a + "\",\"k\":\"d\",\"s\":[]}" ); }
static void e_upd( int o, u8 const* p, std::size_t n ) { add( "{\"op\":\"upd\",\"o\":" + std::to_string( o ) + ",\"b\":" + arr( bytes( p, p + n ) ) + "}" ); }
static void e_long( int o, int pre, int j ) { add( "{\"op\":\"long\",\"o\":" + std::to_string( o ) + ",\"pre\":" + std::to_string( pre ) + ",\"j\":" + std::to_string( j ) + "}" ); }
static void e_res( int o, bytes const& r ) { add( "{\"op\":\"res\",\"o\":" + std::to_string( o ) + ",\"r\":[" + arr( r ) + "]}" ); }
static void e_copy( int o, int p ) { add( "{\"op\":\"copy\",\"o\":" + std::to_string( o ) + ",\"p\":" + std::to_string( p ) + "}" ); }

// everything about the state: results of copies, with and without more input
static void observe( Obj& h, u8 const* next )
{
    std::unique_ptr<Obj> a( h.clone() ), b( h.clone() );
    e_copy( 0, 1 ); e_copy( 0, 2 );
    e_res( 1, a->res() ); e_res( 1, a->res() );
    b->updc( next, 61 ); e_upd( 2, next, 61 );
    e_res( 2, b->res() );
    b->updc( next, 5 ); e_upd( 2, next, 5 );
    e_res( 2, b->res() );
}

template<class H> struct Fl32 { using size_type = std::uint32_t; static constexpr auto byte_order = endian::native; };
template<class H> static void appended( std::string const& alg, std::string const& mode, u8* base, std::uint64_t L )
{
    typedef std::uint64_t u64;
    H h; std::size_t tail = 12; u64 N = L + tail;
    e_new( 0, alg );
    u8 size[ 8 ]; u64 cnt = N; std::size_t sz = 0;
    if( mode == "range" ) hash_append_range( h, default_flavor(), static_cast<u8 const*>( base ), static_cast<u8 const*>( base ) + N );
    else if( mode == "mrange" ) hash_append_range( h, default_flavor(), base, base + N );
    else if( mode == "chars" ) hash_append_range( h, big_endian_flavor(), reinterpret_cast<char const*>( base ), reinterpret_cast<char const*>( base ) + N );
    else if( mode == "sized" ) { hash_append_sized_range( h, default_flavor(), static_cast<u8 const*>( base ), static_cast<u8 const*>( base ) + N ); sz = 8; }
    else if( mode == "sized32" ) { hash_append_sized_range( h, Fl32<H>(), static_cast<u8 const*>( base ), static_cast<u8 const*>( base ) + N ); sz = 4; }
#if __cplusplus >= 201703L
    else if( mode == "view" ) { std::string_view v( reinterpret_cast<char const*>( base ), N ); hash_append( h, default_flavor(), v ); sz = 8; }
#endif
    else if( mode == "words" ) { std::uint32_t const* p = reinterpret_cast<std::uint32_t const*>( base ); hash_append_sized_range( h, little_endian_flavor(), p, p + N / 4 ); cnt = N / 4; sz = 8; }
    else { std::fprintf( stderr, "unknown mode\n" ); std::exit( 3 ); }
    for( int i = 0; i < 8; ++i ) size[ i ] = static_cast<u8>( cnt >> ( 8 * i ) );
    e_long( 0, 0, 3 ); e_upd( 0, base + L, tail );
    if( sz ) e_upd( 0, size, sz );
    e_res( 0, to_bytes( h.result() ) );
}

int main( int, char** argv )
{
    std::string alg = argv[ 1 ], mode = argv[ 2 ]; int top = std::atoi( argv[ 3 ] );
    std::uint64_t const at[] = { 0, 2304, std::uint64_t( 1 ) << 29, std::uint64_t( 1 ) << 32, std::uint64_t( 5 ) << 31 };
    u8* base = map_pattern( ( mode == "chunks"? at[ 1 ]: at[ 3 ] ) + 2 * period );
    if( mode == "chunks" )
    {
        std::unique_ptr<Obj> h( algs().at( alg ).d() );
        e_new( 0, alg );
        static std::size_t const ks[] = { 1 << 20, ( 1 << 20 ) + 13, 77, 1 << 19, 3, 1 << 18, ( 1 << 20 ) - 1 };
        std::uint64_t pos = 0;
        for( int j = 1; j <= top; ++j )
        {
            for( int i = 0; pos < at[ j ]; ++i )
            {
                std::uint64_t k = ks[ i % 7 ];
                if( k > at[ j ] - pos ) k = at[ j ] - pos;
                u8* p = base + pos % period;
                if( i & 1 ) h->updc( p, k ); else h->upd( p, k );
                pos += k;
            }
            e_long( 0, 0, j );
            observe( *h, base + pos % period );
        }
    }
    else if( mode == "single" || mode == "pre" )
    {
        std::unique_ptr<Obj> h( algs().at( alg ).d() );
        e_new( 0, alg );
        std::size_t pre = mode == "pre"? 5: 0, tail = 11;
        if( pre ) { h->upd( base, pre ); e_upd( 0, base, pre ); }
        std::uint64_t n = at[ 3 ] - pre + tail;
        if( pre ) h->upd( base + pre, n ); else h->updc( base, n );
        e_long( 0, static_cast<int>( pre ), 3 );
        e_upd( 0, base + at[ 3 ], tail );
        observe( *h, base + at[ 3 ] + tail );
    }
    else if( alg == "xxhash_64" ) appended<xxhash_64>( alg, mode, base, at[ 3 ] );
    else if( alg == "siphash_64" ) appended<siphash_64>( alg, mode, base, at[ 3 ] );
    else if( alg == "md5_128" ) appended<md5_128>( alg, mode, base, at[ 3 ] );
    else return 3;
    std::printf( "{\"id\":\"long.%s.%s\",\"ev\":[%s]}\n", alg.c_str(), mode.c_str(), ev.c_str() );
    return 0;
}
