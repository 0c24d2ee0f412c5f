// Behaviours as constant expressions (vlib/cgen.py writes them), with a recorder usable in them.
#ifndef VERIF_CX_HPP
#define VERIF_CX_HPP
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#ifdef RUN_ONLY
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#endif
#include <boost/core/detail/string_view.hpp>
#include <boost/describe.hpp>
#include <array>
#include <tuple>
#include <utility>
#include <string>
#include <vector>
#include <set>
#include <limits>
#include <cstdio>
#include <cstdint>
#include <type_traits>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#if __cplusplus >= 202002L
#include <span>
#endif
namespace h2 = boost::hash2;
typedef unsigned char u8;
typedef std::uint64_t u64;

// CT: what has to be a constant.  RUN_ONLY builds compute everything at run time.
#ifdef RUN_ONLY
# define CT static
# define CF inline
#else
# define CT static constexpr
# define CF constexpr
#endif

// a conforming hash algorithm that keeps the message
struct rec64
{
    typedef u64 result_type;
    u8 b[ 1400 ] = {};
    std::size_t n = 0;
    CF rec64() {}
    CF explicit rec64( u64 ) {}
    CF rec64( u8 const*, std::size_t ) {}
    CF void update( u8 const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) b[ n++ ] = p[ i ]; }
    void update( void const* p, std::size_t k ) { update( static_cast<u8 const*>( p ), k ); }
    CF u64 result()
    {
        u64 h = 0xCBF29CE484222325ull;
        for( std::size_t i = 0; i < n; ++i ) h = ( h ^ b[ i ] ) * 0x100000001B3ull;
        h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
        return h;
    }
};

// what a behaviour shows: K byte strings
template<int K, int W> struct Out { u8 b[ K ][ W ]; int n[ K ]; };
template<int K, int W, class R> CF typename std::enable_if<std::is_integral<R>::value>::type put( Out<K, W>& o, int k, R r )
{
    typename std::make_unsigned<R>::type u = static_cast<typename std::make_unsigned<R>::type>( r );
    for( unsigned i = 0; i < sizeof(R); ++i ) o.b[ k ][ i ] = static_cast<u8>( u >> ( 8 * i ) );
    o.n[ k ] = sizeof(R);
}
template<int K, int W, class R> CF typename std::enable_if<!std::is_integral<R>::value>::type put( Out<K, W>& o, int k, R const& r )
{
    int j = 0;
    for( u8 x: r ) o.b[ k ][ j++ ] = x;
    o.n[ k ] = j;
}
// the part of the message from position at
template<int K, int W> CF void putmsg( Out<K, W>& o, int k, rec64 const& h, std::size_t at )
{
    int j = 0;
    for( ; at < h.n; ++at ) o.b[ k ][ j++ ] = h.b[ at ];
    o.n[ k ] = j;
}
template<int K, int W, class C> CF void putchars( Out<K, W>& o, int k, C const* p, int n )
{
    for( int i = 0; i < n; ++i ) o.b[ k ][ i ] = static_cast<u8>( p[ i ] );
    o.n[ k ] = n;
}
// everything the accessors of a digest show, one after the other
template<int K, int W, std::size_t N> CF void see( Out<K, W>& o, int k, h2::digest<N>& m )
{
    h2::digest<N> const& c = m;
    int j = 0;
    for( auto i = m.begin(); i != m.end(); ++i ) o.b[ k ][ j++ ] = *i;
    for( auto i = c.begin(); i != c.end(); ++i ) o.b[ k ][ j++ ] = *i;
    for( std::size_t i = 0; i < m.size(); ++i ) o.b[ k ][ j++ ] = m.data()[ i ];
    for( std::size_t i = 0; i < c.size(); ++i ) o.b[ k ][ j++ ] = c.data()[ i ];
    for( std::size_t i = 0; i < N; ++i ) o.b[ k ][ j++ ] = m[ i ];
    for( std::size_t i = 0; i < N; ++i ) o.b[ k ][ j++ ] = c[ i ];
    for( std::size_t i = 0; i < N; ++i ) o.b[ k ][ j++ ] = i == N - 1? m.back(): i == 0? m.front(): m[ i ];
    for( std::size_t i = 0; i < N; ++i ) o.b[ k ][ j++ ] = i == 0? c.front(): i == N - 1? c.back(): c[ i ];
    o.n[ k ] = c.max_size() == N? j: -1;
}

template<class T> struct Fwd
{
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef T const& reference; typedef std::ptrdiff_t difference_type; typedef T const* pointer;
    T const* p = nullptr;
    CF Fwd() {}
    CF explicit Fwd( T const* q ): p( q ) {}
    CF T const& operator*() const { return *p; }
    CF Fwd& operator++() { ++p; return *this; }
    CF Fwd operator++( int ) { Fwd t( *this ); ++p; return t; }
    friend CF bool operator==( Fwd const& a, Fwd const& b ) { return a.p == b.p; }
    friend CF bool operator!=( Fwd const& a, Fwd const& b ) { return a.p != b.p; }
};
struct f_u32_big { typedef std::uint32_t size_type; static constexpr auto byte_order = h2::endian::big; };
struct f_u16_native { typedef std::uint16_t size_type; static constexpr auto byte_order = h2::endian::native; };

inline std::string js( u8 const* p, int n )
{
    std::string s = "[";
    for( int i = 0; i < n; ++i ) { if( i ) s += ","; s += std::to_string( p[ i ] ); }
    return s + "]";
}
template<class O> std::string one( O const& a, int k ) { return js( a.b[ k ], a.n[ k ] ); }
template<class O> std::string both( O const& a, int k ) { return "[" + one( a, k ) + "]"; }
template<class O> std::string flag( O const& a, int k ) { return a.b[ k ][ 0 ]? "true": "false"; }
template<class O> std::string off( O const& a, int k ) { return std::to_string( a.b[ k ][ 0 ] == 255? -1: a.b[ k ][ 0 ] ); }
template<class O> std::string shown( O const& a, int k, int n )
{
    std::set<std::string> s;
    if( a.n[ k ] != 8 * n ) s.insert( "[]" );
    for( int i = 0; i < 8; ++i ) s.insert( js( a.b[ k ] + i * n, n ) );
    std::string r = "[";
    for( auto i = s.begin(); i != s.end(); ++i ) { if( i != s.begin() ) r += ","; r += *i; }
    return r + "]";
}
template<class O> O at_run_time( O (*f)() ) { O (*volatile g)() = f; return g(); }
// what the constant shows; and what the same computation gives at run time, if that is anything else
template<class O> void run( char const* id, O const& constant, O (*f)(), std::string (*rec)( O const& ) )
{
    std::string a = rec( constant ), b = rec( at_run_time( f ) );
    std::printf( "{\"id\":\"%s\",\"ev\":[%s]}\n", id, a.c_str() );
    if( a != b ) std::printf( "{\"id\":\"%s.runtime\",\"ev\":[%s]}\n", id, b.c_str() );
}
#endif
