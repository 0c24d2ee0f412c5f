// Values of many C++ types, a description of each type and value that does not come from the
// library, and recorders of what hash_append feeds.
#ifndef VERIF_APPEND_HPP
#define VERIF_APPEND_HPP
#include <array>
#include <vector>
#include <list>
#include <deque>
#include <forward_list>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <string>
#include <tuple>
#include <utility>
#include <memory>
#include <new>
#include <limits>
#include <algorithm>
#include <iterator>
#include <type_traits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#if __cplusplus >= 202002L
#include <span>
#endif

#ifdef SLOW_PATH
// the code path of constant expressions, taken at run time
# define __builtin_is_constant_evaluated() true
#endif
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/array.hpp>
#include <boost/describe.hpp>
#include <boost/hash2/get_integral_result.hpp>
namespace h2 = boost::hash2;
typedef unsigned char u8;
typedef std::uint64_t u64;

// ---------------------------------------------------------------- randomness

struct Rng
{
    u64 s;
    explicit Rng( u64 x ): s( x * 0x9E3779B97F4A7C15ull + 0x1234567 ) {}
    u64 operator()() { u64 z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
    std::size_t below( std::size_t n ) { return static_cast<std::size_t>( (*this)() % n ); }
};

// values from small domains, so that equal and nearly equal ones occur
static bool g_small = false, g_nan = false;

// ---------------------------------------------------------------- JSON

inline std::string num( long long x ) { char t[32]; std::snprintf( t, sizeof t, "%lld", x ); return t; }
inline std::string limbs( u64 v )
{
    return num( v & 0xffff ) + "," + num( v >> 16 & 0xffff ) + "," + num( v >> 32 & 0xffff ) + "," + num( v >> 48 );
}
inline std::string jint( bool neg, u64 m ) { return std::string( neg? "[1,": "[0," ) + limbs( m ) + "]"; }
template<class It> std::string jbytes( It f, It l )
{
    std::string s = "[";
    bool first = true;
    for( ; f != l; ++f ) { if( !first ) s += ","; first = false; s += num( static_cast<u8>( *f ) ); }
    return s + "]";
}
inline std::string jbytes( std::string const& m ) { return jbytes( m.begin(), m.end() ); }

// ---------------------------------------------------------------- traits: Tr<T>

template<class T, class E = void> struct Tr;

// fill: give v (already constructed) the value r decides; h decides only the history by which it gets there
template<class T> void fill( T& v, Rng& r, Rng& h ) { Tr<T>::fill( v, r, h ); }
template<class T> std::string jtype() { return Tr<T>::type(); }
template<class T> std::string jval( T const& v ) { return Tr<T>::val( v ); }

// what the traits are documented to say about T: whether T is trivially equality comparable by default
template<class T> struct Tr<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static std::string type() { return "{\"k\":\"int\",\"n\":" + num( sizeof(T) ) + "}"; }
    static void fill( T& v, Rng& r, Rng& )
    {
        if( std::is_same<T, bool>::value ) { v = r() & 1; return; }
        if( g_small ) { static u64 const few[] = { 0, 1, ~0ull, 256, 'a' }; v = static_cast<T>( few[ r.below( r.below( 3 )? 2: 5 ) ] ); return; }
        static u64 const special[] = { 0, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x0102030405060708ull, 0x01020304u, 0xff00ff00u };
        u64 x = r() % 3? r(): special[ r.below( sizeof(special) / sizeof(special[0]) ) ];
        if( r() % 8 == 0 ) x = static_cast<u64>( 0 ) - ( r() % 300 );
        v = static_cast<T>( x );
    }
    static std::string val( T v )
    {
        // the magnitude, without overflow
        if( v < T() ) return jint( true, static_cast<u64>( -( static_cast<long long>( v ) + 1 ) ) + 1 );
        return jint( false, static_cast<u64>( v ) );
    }
};
template<class T> struct Tr<T, typename std::enable_if<std::is_enum<T>::value>::type>
{
    typedef typename std::underlying_type<T>::type U;
    static std::string type() { return "{\"k\":\"enum\",\"e\":" + jtype<U>() + "}"; }
    static void fill( T& v, Rng& r, Rng& h ) { U u = U(); Tr<U>::fill( u, r, h ); v = static_cast<T>( u ); }
    static std::string val( T v ) { return jval( static_cast<U>( v ) ); }
};
template<class T> struct Tr<T, typename std::enable_if<std::is_pointer<T>::value>::type>
{
    static std::string type() { return "{\"k\":\"ptr\",\"nul\":false}"; }
    static void fill( T& v, Rng& r, Rng& )
    {
        u64 x = r() % 4? r() & 0x00007ffffffffff0ull: 0;
        if( g_small ) x = 16 * ( r() & 1 );
        v = reinterpret_cast<T>( static_cast<std::uintptr_t>( x ) );
    }
    static std::string val( T v ) { return jint( false, reinterpret_cast<std::uintptr_t>( v ) ); }
};
template<> struct Tr<std::nullptr_t, void>
{
    static std::string type() { return "{\"k\":\"ptr\",\"nul\":true}"; }
    static void fill( std::nullptr_t& v, Rng&, Rng& ) { v = nullptr; }
    static std::string val( std::nullptr_t ) { return jint( false, 0 ); }
};
template<class T> struct Tr<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static std::string type() { return "{\"k\":\"flt\",\"n\":" + num( sizeof(T) ) + "}"; }
    static void fill( T& v, Rng& r, Rng& h )
    {
        typedef std::numeric_limits<T> L;
        if( g_small ) { T const few[] = { h() & 1? T( 0 ): -T( 0 ), T( 1 ), T( -1 ), L::infinity() }; v = few[ r.below( r.below( 3 )? 2: 4 ) ]; return; }
        if( g_nan && r.below( 6 ) == 0 )                             // a quiet NaN of random payload and sign
        {
            typedef typename std::conditional<sizeof(T) == 4, std::uint32_t, u64>::type U;
            U b = static_cast<U>( ~U( 0 ) << ( L::digits - 2 ) ) | static_cast<U>( r() );
            b &= r() & 1? ~U( 0 ): static_cast<U>( ~( U( 1 ) << ( sizeof(U) * 8 - 1 ) ) );
            std::memcpy( &v, &b, sizeof v ); return;
        }
        switch( r.below( 10 ) )
        {
        case 0: v = h() & 1? T( 0 ): -T( 0 ); return;            // equal values, different representations
        case 1: v = r() & 1? L::infinity(): -L::infinity(); return;
        case 2: v = ( r() & 1? 1: -1 ) * L::denorm_min() * static_cast<T>( 1 + r.below( 1000 ) ); return;
        case 3: v = r() & 1? L::min(): L::max(); if( r() & 1 ) v = -v; return;
        case 4: v = static_cast<T>( static_cast<int>( r.below( 2001 ) ) - 1000 ); if( v == 0 ) v = h() & 1? T( 0 ): -T( 0 ); return;
        default:
            {
                T m = static_cast<T>( r() >> 11 ) / static_cast<T>( 1ull << 53 ) + T( 0.5 );
                int e = static_cast<int>( r.below( static_cast<std::size_t>( L::max_exponent - L::min_exponent ) ) ) + L::min_exponent;
                v = std::ldexp( m, e ); if( r() & 1 ) v = -v;
                if( !( std::fabs( v ) <= L::max() ) ) v = T( 1.5 );
                if( v == 0 ) v = h() & 1? T( 0 ): -T( 0 );
            }
        }
    }
    static std::string val( T v )
    {
        int s = std::signbit( v )? 1: 0;
        std::string p = "{\"s\":" + num( s ) + ",\"c\":";
        if( v == 0 ) return p + "\"zero\"}";
        if( v != v )
        {
            typename std::conditional<sizeof(T) == 4, std::uint32_t, u64>::type b;
            std::memcpy( &b, &v, sizeof v );
            return p + "\"nan\",\"m\":[" + limbs( static_cast<u64>( b ) & ( ( 1ull << ( std::numeric_limits<T>::digits - 1 ) ) - 1 ) ) + "]}";
        }
        T a = std::fabs( v );
        if( a > std::numeric_limits<T>::max() ) return p + "\"inf\"}";
        int e = 0;
        T m = std::frexp( a, &e );                                  // a == m * 2^e, 0.5 <= m < 1
        u64 q = static_cast<u64>( std::ldexp( m, std::numeric_limits<T>::digits ) );
        return p + "\"fin\",\"e\":" + num( e - 1 ) + ",\"m\":[" + limbs( q ) + "]}";
    }
};

// C arrays
template<class T, std::size_t N> struct Tr<T[N], void>
{
    static std::string type() { return "{\"k\":\"arr\",\"e\":" + jtype<T>() + "}"; }
    static void fill( T (&v)[N], Rng& r, Rng& h ) { for( std::size_t i = 0; i < N; ++i ) Tr<T>::fill( v[i], r, h ); }
    static std::string val( T const (&v)[N] ) { std::string s = "["; for( std::size_t i = 0; i < N; ++i ) { if( i ) s += ","; s += Tr<T>::val( v[i] ); } return s + "]"; }
};

template<class It> std::string jseq( It f, It l )
{
    typedef typename std::iterator_traits<It>::value_type V;
    std::string s = "[";
    bool first = true;
    for( ; f != l; ++f ) { if( !first ) s += ","; first = false; V const& x = *f; s += Tr<V>::val( x ); }
    return s + "]";
}
template<class T> std::vector<T> some( Rng& r, Rng& h, std::size_t max = 4 )
{
    std::size_t n = r.below( g_small? 3: max + 1 );
    std::vector<T> v;
    for( std::size_t i = 0; i < n; ++i ) { T x = T(); Tr<T>::fill( x, r, h ); v.push_back( x ); }
    return v;
}

// constant size
template<class A, class T> struct TrConst
{
    static std::string type() { return "{\"k\":\"sarr\",\"e\":" + jtype<T>() + "}"; }
    static void fill( A& v, Rng& r, Rng& h ) { for( auto i = v.begin(); i != v.end(); ++i ) Tr<T>::fill( *i, r, h ); }
    static std::string val( A const& v ) { return jseq( v.begin(), v.end() ); }
};
template<class T, std::size_t N> struct Tr<std::array<T, N>, void>: TrConst<std::array<T, N>, T> {};
template<class T, std::size_t N> struct Tr<boost::array<T, N>, void>: TrConst<boost::array<T, N>, T> {};
template<std::size_t N> struct Tr<h2::digest<N>, void>: TrConst<h2::digest<N>, u8> {};

// ordered ranges
template<class C, class T> struct TrSeq
{
    static std::string type() { return "{\"k\":\"seq\",\"e\":" + jtype<T>() + "}"; }
    static void fill( C& c, Rng& r, Rng& h ) { std::vector<T> v = some<T>( r, h ); assign( c, v, h, 0 ); }
    // different ways to the same contents
    template<class D> static auto assign( D& c, std::vector<T> const& v, Rng& h, int ) -> decltype( c.insert( c.end(), v.front() ), c.pop_back(), void() )
    {
        switch( h.below( 4 ) )
        {
        case 0: c = D( v.begin(), v.end() ); break;
        case 1: c.clear(); for( auto const& x: v ) c.push_back( x ); break;
        case 2: c.clear(); for( auto i = v.rbegin(); i != v.rend(); ++i ) c.insert( c.begin(), *i ); break;
        case 3: c = D( 7, T() ); for( auto const& x: v ) c.push_back( x ); for( int i = 0; i < 7; ++i ) c.erase( c.begin() ); break;
        }
    }
    template<class D> static void assign( D& c, std::vector<T> const& v, Rng&, long ) { c = D( v.begin(), v.end() ); }
    static std::string val( C const& v ) { return jseq( v.begin(), v.end() ); }
};
template<class T> struct Tr<std::vector<T>, void>: TrSeq<std::vector<T>, T> {};
template<class T> struct Tr<std::list<T>, void>: TrSeq<std::list<T>, T> {};
template<class T> struct Tr<std::deque<T>, void>: TrSeq<std::deque<T>, T> {};
template<class T> struct Tr<std::forward_list<T>, void>: TrSeq<std::forward_list<T>, T> {};
template<class T> struct Tr<std::basic_string<T>, void>: TrSeq<std::basic_string<T>, T> {};
// ordered associative containers: element order is the order of the keys
template<class C, class T> struct TrAssoc
{
    static std::string type() { return "{\"k\":\"seq\",\"e\":" + jtype<T>() + "}"; }
    static void fill( C& c, Rng& r, Rng& h ) { std::vector<T> v = some<T>( r, h ); insert_all( c, v, h ); }
    template<class V> static void insert_all( C& c, V const& v, Rng& ) { c.clear(); for( auto const& x: v ) c.insert( x ); }
    static std::string val( C const& v ) { return jseq( v.begin(), v.end() ); }
};
template<class T> struct Tr<std::set<T>, void>: TrAssoc<std::set<T>, T> {};
template<class T> struct Tr<std::multiset<T>, void>: TrAssoc<std::multiset<T>, T> {};
template<class K, class V> struct TrMapBase
{
    template<class C> static void fill( C& c, Rng& r, Rng& h )
    {
        std::vector<std::pair<K, V> > v = some<std::pair<K, V> >( r, h );
        c.clear();
        for( auto const& x: v ) c.insert( typename C::value_type( x.first, x.second ) );
    }
    template<class C> static std::string val( C const& c )
    {
        std::string s = "[";
        for( auto i = c.begin(); i != c.end(); ++i ) { if( i != c.begin() ) s += ","; s += "[" + Tr<K>::val( i->first ) + "," + Tr<V>::val( i->second ) + "]"; }
        return s + "]";
    }
    static std::string elem() { return "{\"k\":\"tup\",\"es\":[" + jtype<K>() + "," + jtype<V>() + "]}"; }
};
template<class K, class V> struct Tr<std::map<K, V>, void>: TrMapBase<K, V> { static std::string type() { return "{\"k\":\"seq\",\"e\":" + TrMapBase<K, V>::elem() + "}"; } };
template<class K, class V> struct Tr<std::multimap<K, V>, void>: TrMapBase<K, V> { static std::string type() { return "{\"k\":\"seq\",\"e\":" + TrMapBase<K, V>::elem() + "}"; } };

// unordered containers: any order of insertion, any sequence of rehashes and erasures
template<class C, class X> void unordered_fill( C& c, std::vector<X> v, Rng& h, X extra )
{
    c.clear();
    // for maps only the first of several entries with a key counts; keep the order among equal keys by
    // shuffling only when the container is a multi-container or the entries are distinct
    C probe;
    std::vector<X> w;
    for( auto const& x: v ) { std::size_t n = probe.size(); probe.insert( x ); if( probe.size() != n ) w.push_back( x ); }
    for( std::size_t i = w.size(); i > 1; --i ) { std::size_t j = h.below( i ); if( j != i - 1 ) { std::vector<X> t; for( std::size_t k = 0; k < w.size(); ++k ) t.push_back( k == j? w[i-1]: k == i - 1? w[j]: w[k] ); w.swap( t ); } }
    if( h() & 1 ) c.max_load_factor( 0.3f + static_cast<float>( h.below( 40 ) ) );
    if( h() & 1 ) c.reserve( h.below( 200 ) );
    bool e = ( h() & 1 ) != 0;
    if( e && probe.size() != ( probe.insert( extra ), probe.size() ) ) {}
    // insert an element that is not wanted and take it out again
    C has( w.begin(), w.end() );
    bool free_extra = true;
    { std::size_t n = has.size(); has.insert( extra ); free_extra = has.size() != n; }
    typename C::iterator xi = c.end();
    if( e && free_extra ) c.insert( extra );
    for( auto const& x: w ) { c.insert( x ); if( h.below( 4 ) == 0 ) c.rehash( h.below( 64 ) ); }
    if( e && free_extra )
    {
        // multi-containers: an equal element may be wanted too; remove exactly one entry equal to the extra
        for( xi = c.begin(); xi != c.end(); ++xi ) if( Tr<X>::val( X( *xi ) ) == Tr<X>::val( extra ) ) { c.erase( xi ); break; }
    }
    if( h.below( 3 ) == 0 ) c.rehash( 1 + h.below( 300 ) );
    if( h.below( 3 ) == 0 ) { C d( c ); c.swap( d ); }
    if( h.below( 3 ) == 0 ) { C d( std::move( c ) ); c = std::move( d ); }
}
template<class C, class T> struct TrUno
{
    static std::string type() { return "{\"k\":\"uno\",\"e\":" + jtype<T>() + "}"; }
    static void fill( C& c, Rng& r, Rng& h )
    {
        std::vector<T> v = some<T>( r, h, 5 );
        if( !v.empty() && r.below( 3 ) == 0 ) v.push_back( v[ r.below( v.size() ) ] );
        T x = T(); Tr<T>::fill( x, r, h );
        unordered_fill( c, v, h, x );
    }
    static std::string val( C const& v ) { return jseq( v.begin(), v.end() ); }
};
template<class T> struct Tr<std::unordered_set<T>, void>: TrUno<std::unordered_set<T>, T> {};
template<class T> struct Tr<std::unordered_multiset<T>, void>: TrUno<std::unordered_multiset<T>, T> {};
// every element in one bucket, or in a few
struct BadHash { template<class T> std::size_t operator()( T const& ) const { return 42; } };
template<class T> struct Tr<std::unordered_set<T, BadHash>, void>: TrUno<std::unordered_set<T, BadHash>, T> {};
template<class C, class K, class V> struct TrUnoMap: TrMapBase<K, V>
{
    static std::string type() { return "{\"k\":\"uno\",\"e\":" + TrMapBase<K, V>::elem() + "}"; }
    static void fill( C& c, Rng& r, Rng& h )
    {
        std::vector<std::pair<K, V> > v = some<std::pair<K, V> >( r, h, 5 );
        typedef std::pair<K const, V> P;
        std::vector<std::pair<K, V> > w( v );
        if( !w.empty() && r.below( 3 ) == 0 ) w.push_back( w[ r.below( w.size() ) ] );
        std::pair<K, V> x = std::pair<K, V>(); Tr<std::pair<K, V> >::fill( x, r, h );
        unordered_fill( c, w, h, x );
    }
};
template<class K, class V> struct Tr<std::unordered_map<K, V>, void>: TrUnoMap<std::unordered_map<K, V>, K, V> {};
template<class K, class V> struct Tr<std::unordered_multimap<K, V>, void>: TrUnoMap<std::unordered_multimap<K, V>, K, V> {};

// tuples
template<class A, class B> struct Tr<std::pair<A, B>, void>
{
    static std::string type() { return "{\"k\":\"tup\",\"es\":[" + jtype<A>() + "," + jtype<B>() + "]}"; }
    static void fill( std::pair<A, B>& v, Rng& r, Rng& h ) { Tr<A>::fill( v.first, r, h ); Tr<B>::fill( v.second, r, h ); }
    static std::string val( std::pair<A, B> const& v ) { return "[" + Tr<A>::val( v.first ) + "," + Tr<B>::val( v.second ) + "]"; }
};
template<std::size_t I, std::size_t N> struct TupleOps
{
    template<class T> static std::string type()
    {
        typedef typename std::tuple_element<I, T>::type E;
        return ( I? ",": "" ) + jtype<E>() + TupleOps<I + 1, N>::template type<T>();
    }
    template<class T> static void fill( T& v, Rng& r, Rng& h )
    {
        Tr<typename std::tuple_element<I, T>::type>::fill( std::get<I>( v ), r, h );
        TupleOps<I + 1, N>::fill( v, r, h );
    }
    template<class T> static std::string val( T const& v )
    {
        return ( I? ",": "" ) + Tr<typename std::tuple_element<I, T>::type>::val( std::get<I>( v ) ) + TupleOps<I + 1, N>::val( v );
    }
};
template<std::size_t N> struct TupleOps<N, N>
{
    template<class T> static std::string type() { return ""; }
    template<class T> static void fill( T&, Rng&, Rng& ) {}
    template<class T> static std::string val( T const& ) { return ""; }
};
template<class... T> struct Tr<std::tuple<T...>, void>
{
    typedef std::tuple<T...> U;
    static std::string type() { return "{\"k\":\"tup\",\"es\":[" + TupleOps<0, sizeof...(T)>::template type<U>() + "]}"; }
    static void fill( U& v, Rng& r, Rng& h ) { TupleOps<0, sizeof...(T)>::fill( v, r, h ); }
    static std::string val( U const& v ) { return "[" + TupleOps<0, sizeof...(T)>::val( v ) + "]"; }
};

// described classes: the descriptions are written out here, not taken from Boost.Describe
#define JT(...) jtype<__VA_ARGS__>()

// ---------------------------------------------------------------- recorders

inline u64 fnv( std::string const& m )
{
    u64 h = 0xcbf29ce484222325ull;
    for( std::size_t i = 0; i < m.size(); ++i ) { h ^= static_cast<u8>( m[i] ); h *= 0x100000001b3ull; }
    return h;
}

// what the recorders return: spread over all bits, so that sums of elements tell them apart
inline u64 spread( u64 h ) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

// the minimum the documentation asks for, and nothing else
class RecMin
{
    std::string m_;
public:
    typedef u64 result_type;
    RecMin() {}
    explicit RecMin( std::uint64_t ) {}
    RecMin( unsigned char const*, std::size_t ) {}
    RecMin( RecMin const& r ): m_( r.m_ ) {}
    RecMin& operator=( RecMin const& r ) { m_ = r.m_; return *this; }
    void update( void const* p, std::size_t n ) { m_.append( static_cast<char const*>( p ), n ); }
    result_type result() { u64 r = spread( fnv( m_ ) ); m_.push_back( '\xff' ); return r; }
    static char const* name() { return "rec64"; }
    static std::string const& seen( RecMin const& h ) { return h.m_; }
};

template<class R, class E = void> struct ToR;
template<class R> struct ToR<R, typename std::enable_if<std::is_integral<R>::value>::type>
{
    static R go( u64 x ) { return static_cast<R>( x ); }
    static char const* name() { return sizeof(R) == 8? "rec64": sizeof(R) == 4? "rec32": sizeof(R) == 2? "rec16": "rec8"; }
};
template<class R> struct ToR<R, typename std::enable_if<!std::is_integral<R>::value>::type>
{
    static R go( u64 x ) { R r = R(); for( std::size_t i = 0; i < r.size(); ++i ) r[i] = static_cast<u8>( i < 8? x >> ( 8 * i ): 0xEE ); return r; }
    static char const* name() { return "recarr"; }
};
// both update overloads (as for compile-time hashing), a block_size, another size and alignment, any result type
template<class R> struct alignas( 64 ) Rec
{
    std::string m;
    typedef R result_type;
    static constexpr int block_size = 64;
    u64 pad[ 5 ];
    Rec() {}
    explicit Rec( std::uint64_t ) {}
    Rec( unsigned char const*, std::size_t ) {}
    void update( void const* p, std::size_t n ) { m.append( static_cast<char const*>( p ), n ); }
    void update( unsigned char const* p, std::size_t n ) { m.append( reinterpret_cast<char const*>( p ), n ); }
    R result() { u64 r = spread( fnv( m ) ); m.push_back( '\xff' ); return ToR<R>::go( r ); }
    static char const* name() { return ToR<R>::name(); }
    static std::string const& seen( Rec const& h ) { return h.m; }
};

// ---------------------------------------------------------------- flavors

struct f_u32_native { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::native; };
struct f_u32_big { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::big; };
struct f_u32_little { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::little; };
// a flavor with a state of its own: what nested appends receive has to be this very flavor
struct f_tagged
{
    using size_type = std::uint64_t; static constexpr auto byte_order = h2::endian::big;
    int tag;
    explicit f_tagged( int t ): tag( t ) {}
};
inline int tag_of( f_tagged const& f ) { return f.tag; }
template<class F> int tag_of( F const& ) { return 0; }

inline std::string jflavor( h2::endian e, bool native, std::size_t sz )
{
    return std::string( "{\"bo\":\"" ) + ( native? "native": e == h2::endian::big? "big": "little" ) + "\",\"sz\":" + num( static_cast<long long>( sz ) ) + "}";
}
#endif
