// Messages of more than 2^32 bytes, in many updates, without an operating system: the pattern of spec/LongStates.tla.
//   longrun --seed S          one record for every algorithm in ALGS, observed at 2304, 2^29 and 2^32 bytes
#define BOOST_NO_IOSTREAM
#include "cx.hpp"
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <cstdio>
#include <cstring>
#include <string>
using namespace boost::hash2;
typedef unsigned char u8;
typedef std::uint64_t u64;
static std::size_t const period = std::size_t( 1 ) << 21;
static u8 pattern[ ( std::size_t( 1 ) << 21 ) * 2 ];

static std::string ev;
static std::string dec( u64 n ) { std::string s; do s.insert( s.begin(), static_cast<char>( '0' + n % 10 ) ); while( n /= 10 ); return s; }
static void add( std::string const& e ) { if( !ev.empty() ) ev += ","; ev += e; }
static std::string arr( u8 const* p, std::size_t n ) { std::string s = "["; for( std::size_t i = 0; i < n; ++i ) { if( i ) s += ","; s += dec( p[ i ] ); } return s + "]"; }
template<std::size_t N> std::string val( digest<N> const& d ) { return arr( d.data(), N ); }
static std::string num_( u64 v, int n ) { u8 b[ 8 ]; for( int i = 0; i < 8; ++i ) b[ i ] = static_cast<u8>( v >> 8 * i ); return arr( b, n ); }
static std::string val( std::uint32_t v ) { return num_( v, 4 ); }
static std::string val( std::uint64_t v ) { return num_( v, 8 ); }
template<std::size_t N> std::string val( std::array<u8, N> const& v ) { return arr( v.data(), N ); }
static void e_upd( int o, u8 const* p, std::size_t n ) { add( "{\"op\":\"upd\",\"o\":" + dec( o ) + ",\"b\":" + arr( p, n ) + "}" ); }
template<class H> void e_res( int o, H& h ) { add( "{\"op\":\"res\",\"o\":" + dec( o ) + ",\"r\":[" + val( h.result() ) + "]}" ); }

template<class H> void observe( H const& h, u8 const* next )
{
    H a( h ), b( h );
    add( "{\"op\":\"copy\",\"o\":0,\"p\":1}" ); add( "{\"op\":\"copy\",\"o\":0,\"p\":2}" );
    e_res( 1, a ); e_res( 1, a );
    b.update( next, 61 ); e_upd( 2, next, 61 ); e_res( 2, b );
    b.update( static_cast<void const*>( next ), 5 ); e_upd( 2, next, 5 ); e_res( 2, b );
}
template<class H> void longrun( char const* name )
{
    static std::uint32_t const ks[] = { 1 << 20, ( 1 << 20 ) + 13, 77, 1 << 19, 3, 1 << 18, ( 1 << 20 ) - 1 };
    u64 const at[] = { 0, 2304, u64( 1 ) << 29, u64( 1 ) << 32 };
    ev.clear();
    H h;
    add( std::string( "{\"op\":\"new\",\"o\":0,\"a\":\"" ) + name + "\",\"k\":\"d\",\"s\":[]}" );
    u64 pos = 0;
    for( int j = 1; j <= TOP; ++j )
    {
        for( int i = 0; pos < at[ j ]; ++i )
        {
            u64 k = ks[ i % 7 ];
            if( k > at[ j ] - pos ) k = at[ j ] - pos;
            u8* p = pattern + static_cast<std::size_t>( pos % period );
            if( i & 1 ) h.update( static_cast<void const*>( p ), static_cast<std::size_t>( k ) ); else h.update( p, static_cast<std::size_t>( k ) );
            pos += k;
        }
        add( "{\"op\":\"long\",\"o\":0,\"pre\":0,\"j\":" + dec( static_cast<u64>( j ) ) + "}" );
        observe( h, pattern + static_cast<std::size_t>( pos % period ) );
    }
    std::printf( "{\"id\":\"long.%s.%d\",\"ev\":[%s]}\n", name, TOP, ev.c_str() );
}
int main( int, char** )
{
    u64 x = 20261119;
    for( std::size_t i = 0; i < period; ++i ) { x = x * 6364136223846793005ull + 1442695040888963407ull; pattern[ i ] = pattern[ i + period ] = static_cast<u8>( x >> 56 ); }
#define L(a) longrun<a>( #a );
    ALGS
    return 0;
}
