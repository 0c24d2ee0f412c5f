// get_integral_result: sweeps over result values, for every integral target type.
#define BOOST_NO_IOSTREAM
#include "append_run.hpp"
#include <climits>
#include <thread>
#ifndef STEP
#define STEP 1
#endif
#ifndef WIDE
#define WIDE 0
#endif

template<class R> typename std::enable_if<std::is_integral<R>::value, std::string>::type rbytes( R r )
{ std::string s; for( std::size_t i = 0; i < sizeof(R); ++i ) s.push_back( static_cast<char>( static_cast<u64>( r ) >> ( 8 * i ) ) ); return jbytes( s ); }
template<class R> typename std::enable_if<!std::is_integral<R>::value, std::string>::type rbytes( R const& r ) { return jbytes( r.begin(), r.end() ); }

template<class T> void target( std::set<std::string>& s, T x ) { s.insert( rbytes( static_cast<typename std::make_unsigned<T>::type>( x ) ) ); }
// the value for every target type of n bytes: one byte string
template<class R> std::string targets( R const& r, int n )
{
    std::set<std::string> s;
#define T(x) target<x>( s, h2::get_integral_result<x>( r ) );
    switch( n )
    {
    case 1: T(char) T(signed char) T(unsigned char) break;
    case 2: T(short) T(unsigned short) T(char16_t) break;
    case 4: T(int) T(unsigned) T(char32_t) T(wchar_t)
#if ULONG_MAX == 0xFFFFFFFF
        T(long) T(unsigned long)
#endif
        break;
    default: T(long long) T(unsigned long long)
#if ULONG_MAX != 0xFFFFFFFF
        T(long) T(unsigned long)
#endif
        break;
    }
#undef T
    return s.size() == 1? *s.begin(): "[]";
}
template<class R> void batches( std::string const& name, std::vector<R> const& rs, bool arr )
{
    std::size_t const step = 2048;
    for( int n = 1; n <= 8; n *= 2 )
    for( std::size_t b = 0; b < rs.size(); b += step )
    {
        std::string id = name + " to " + num( n ) + "." + num( static_cast<long long>( b ) );
        if( !wanted( id ) ) continue;
        std::string r, t;
        for( std::size_t i = b; i < rs.size() && i < b + step; ++i ) { if( i != b ) { r += ","; t += ","; } r += rbytes( rs[i] ); t += targets( rs[i], n ); }
        Record rec( id );
        rec.event( "{\"op\":\"proj\",\"n\":" + num( n ) + ",\"arr\":" + jbool( arr ) + ",\"rs\":[" + r + "],\"ts\":[" + t + "]}" );
        rec.print();
    }
}
template<class R> void every( char const* name )
{
    std::vector<R> v;
    for( long x = 0; x < ( sizeof(R) == 1? 256: 65536 ); x += sizeof(R) == 1? 1: STEP ) v.push_back( static_cast<R>( x ) );
    batches( name, v, false );
}
template<class R> void dense( char const* name )
{
    std::vector<R> v;
    Rng g( seed_of( name ) );
    unsigned const n = sizeof(R) * 8;
    for( unsigned i = 0; i < n; i += STEP == 1? 1: 3 )
    {
        R a = static_cast<R>( R( 1 ) << i );
        v.push_back( a ); v.push_back( static_cast<R>( ~a ) ); v.push_back( static_cast<R>( a - 1 ) ); v.push_back( static_cast<R>( 0 - a ) );
        for( unsigned j = 0; j < i; j += ( STEP == 1? 1: 5 ) + static_cast<unsigned>( g.below( 4 ) ) ) v.push_back( static_cast<R>( a | R( 1 ) << j ) );
    }
    for( unsigned i = 0; i < 256; ++i ) v.push_back( static_cast<R>( i ) );
    for( int i = 0; i < g_count; ++i ) v.push_back( static_cast<R>( g() ) );
    batches( name, v, false );
}
template<class A> void arrays( std::string const& name, std::size_t n )
{
    std::vector<A> v;
    Rng g( seed_of( name ) );
    for( unsigned i = 0; i < n * 8; i += STEP == 1? 1: 5 ) { A a = A(); a[ i / 8 ] = static_cast<u8>( 1u << i % 8 ); v.push_back( a ); for( auto& x: a ) x = static_cast<u8>( ~x ); v.push_back( a ); }
    for( int i = 0; i < g_count / 8; ++i ) { A a = A(); for( auto& x: a ) x = static_cast<u8>( g() ); v.push_back( a ); }
    batches( name, v, true );
}
// how many of all results of R give each value of T
template<class R, class T> void uniform( char const* name )
{
    if( !wanted( name ) ) return;
    typedef typename std::make_unsigned<T>::type U;
    std::size_t const vals = std::size_t( 1 ) << 8 * sizeof(T);
    u64 const total = u64( 1 ) << 8 * sizeof(R);
    unsigned const nt = sizeof(R) > 2? 8: 1;
    std::vector<std::vector<std::uint32_t> > h( nt, std::vector<std::uint32_t>( vals ) );
    std::vector<std::thread> ts;
    for( unsigned k = 0; k < nt; ++k ) ts.emplace_back( [&, k]{
        auto& c = h[k];
        for( u64 x = total / nt * k; x < total / nt * ( k + 1 ); ++x ) ++c[ static_cast<U>( h2::get_integral_result<T>( static_cast<R>( x ) ) ) ];
    } );
    for( auto& t: ts ) t.join();
    u64 mn = ~0ull, mx = 0, used = 0;
    for( std::size_t i = 0; i < vals; ++i ) { u64 s = 0; for( auto& c: h ) s += c[i]; mn = std::min( mn, s ); mx = std::max( mx, s ); used += s != 0; }
    Record rec( name );
    rec.event( "{\"op\":\"uniform\",\"from\":" + num( sizeof(R) ) + ",\"to\":" + num( sizeof(T) ) + ",\"min\":" + num( static_cast<long long>( mn ) ) + ",\"max\":" + num( static_cast<long long>( mx ) ) + ",\"values\":" + num( static_cast<long long>( used ) ) + "}" );
    rec.print();
}
template<class R> void facts( char const* name )
{
    std::string id = std::string( "facts " ) + name;
    if( !wanted( id ) ) return;
    Record rec( id );
    R r = R();
    (void)r;
#define FACT(w, is, doc) rec.event( std::string( "{\"op\":\"fact\",\"what\":\"" w "\",\"is\":" ) + num( is ) + ",\"doc\":" + num( doc ) + "}" );
    FACT( "noexcept", noexcept( h2::get_integral_result<int>( r ) ) && noexcept( h2::get_integral_result<u8>( r ) ), 1 )
    FACT( "type", ( std::is_same<decltype( h2::get_integral_result<short>( r ) ), short>::value && std::is_same<decltype( h2::get_integral_result<u64>( r ) ), u64>::value ), 1 )
    rec.print();
}

int main( int argc, char** argv )
{
    start( argc, argv );
    every<unsigned char>( "u8" ); every<unsigned short>( "u16" );
    dense<unsigned>( "u32" ); dense<unsigned long>( "ulong" ); dense<unsigned long long>( "ullong" );
#define A(n) arrays<std::array<u8, n> >( "array" #n, n ); arrays<h2::digest<n> >( "digest" #n, n );
    A(8) A(9) A(16) A(20) A(28) A(32) A(48) A(64)
    uniform<unsigned char, signed char>( "uniform 1 1" ); if( STEP == 1 ) { uniform<unsigned short, unsigned char>( "uniform 2 1" ); uniform<unsigned short, short>( "uniform 2 2" ); }
#if WIDE
    uniform<unsigned, signed char>( "uniform 4 1" ); uniform<unsigned, unsigned short>( "uniform 4 2" );
#endif
    facts<unsigned char>( "u8" ); facts<unsigned short>( "u16" ); facts<unsigned>( "u32" ); facts<u64>( "u64" ); facts<h2::digest<16> >( "digest" ); facts<std::array<u8, 8> >( "array" );
}
