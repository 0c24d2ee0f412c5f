// Exhaustive and dense sweeps over scalar types: many values per record.
#include "append_run.hpp"

template<class T, class F> std::string stream_of( F const& f, T const& v )
{
    std::set<std::string> s;
    { RecMin h; h2::hash_append( h, f, v ); s.insert( RecMin::seen( h ) ); }
    { Rec<u64> h; T a[1] = { v }; h2::hash_append_range( h, f, a, a + 1 ); s.insert( h.m ); }
    return s.size() == 1? jbytes( *s.begin() ): "[]";
}
template<class T, class F> void batch( Record& rec, F const& f, bool native, std::vector<T> const& v )
{
    std::string vs, ms;
    for( std::size_t i = 0; i < v.size(); ++i )
    {
        if( i ) { vs += ","; ms += ","; }
        T x = v[i];
        vs += jval( x ); ms += stream_of( f, x );
    }
    rec.event( "{\"op\":\"scalars\",\"f\":" + jflavor_of<F>( native ) + ",\"t\":" + jtype<T>() + ",\"vs\":[" + vs + "],\"ms\":[" + ms + "]}" );
}
template<class T> void batches( std::string const& name, std::vector<T> const& v )
{
    std::size_t const step = 2048;
    for( std::size_t b = 0; b < v.size(); b += step )
    {
        std::string id = name + "." + num( static_cast<long long>( b ) );
        if( !wanted( id ) ) continue;
        std::vector<T> w( v.begin() + static_cast<std::ptrdiff_t>( b ), v.begin() + static_cast<std::ptrdiff_t>( b + step < v.size()? b + step: v.size() ) );
        Record rec( id );
        batch( rec, h2::default_flavor(), true, w );
        batch( rec, h2::big_endian_flavor(), false, w );
        if( b == 0 ) { batch( rec, h2::little_endian_flavor(), false, w ); batch( rec, f_u32_big(), false, w ); }
        rec.print();
    }
}
// every value of a type of at most 16 bits
template<class T> void every( char const* name )
{
    std::vector<T> v;
    for( long x = 0; x < ( sizeof(T) == 1? 256: 65536 ); ++x ) v.push_back( static_cast<T>( x ) );
    batches( name, v );
}
// every one- and two-bit pattern, their complements and neighbours; random values
template<class T, class U> void dense( char const* name )
{
    std::vector<T> v;
    Rng g( seed_of( name ) );
    unsigned const n = sizeof(U) * 8;
    for( unsigned i = 0; i < n; ++i )
    {
        U a = static_cast<U>( U( 1 ) << i );
        v.push_back( static_cast<T>( a ) ); v.push_back( static_cast<T>( static_cast<U>( ~a ) ) );
        v.push_back( static_cast<T>( static_cast<U>( a - 1 ) ) ); v.push_back( static_cast<T>( static_cast<U>( 0 - a ) ) );
        U b = static_cast<U>( a | U( 1 ) << g.below( n ) );
        v.push_back( static_cast<T>( b ) );
    }
    for( unsigned i = 0; i < sizeof(U); ++i ) v.push_back( static_cast<T>( static_cast<U>( U( 0xA5 ) << 8 * i ) ) );
    for( int i = 0; i < g_count; ++i ) v.push_back( static_cast<T>( static_cast<U>( g() ) ) );
    batches( name, v );
}
// every exponent, with the extreme and random significands, both signs
template<class T, class U> void floats( char const* name )
{
    std::vector<T> v;
    Rng g( seed_of( name ) );
    unsigned const w = sizeof(T) == 4? 8: 11, p = sizeof(T) * 8 - 1 - w;
    for( U e = 0; e < ( U( 1 ) << w ); ++e )
    {
        U const ones = ( U( 1 ) << p ) - 1;
        U m[] = { 0, 1, ones, static_cast<U>( g() ) & ones, U( 1 ) << g.below( p ) };
        for( U x: m )
        {
            if( e == ( U( 1 ) << w ) - 1 && x != 0 ) x |= U( 1 ) << ( p - 1 );       // NaN, a quiet one
            U bits = ( e << p ) | x;
            if( g() & 1 || x == 0 ) { U b = bits; T f; std::memcpy( &f, &b, sizeof f ); v.push_back( f ); }
            if( g() & 1 || x == 0 ) { U b = bits | U( 1 ) << ( sizeof(U) * 8 - 1 ); T f; std::memcpy( &f, &b, sizeof f ); v.push_back( f ); }
        }
    }
    batches( name, v );
}
int main( int argc, char** argv )
{
    start( argc, argv );
    using namespace ut;
    { std::vector<bool> b; Record rec( "bool" ); if( wanted( "bool" ) ) { std::string vs, ms; rec.event( "{\"op\":\"scalars\",\"f\":" + jflavor_of<h2::default_flavor>( true ) + ",\"t\":" + jtype<bool>() + ",\"vs\":[" + jval( false ) + "," + jval( true ) + "],\"ms\":[" + stream_of( h2::default_flavor(), false ) + "," + stream_of( h2::default_flavor(), true ) + "]}" ); rec.print(); } }
    every<char>( "char" ); every<signed char>( "schar" ); every<unsigned char>( "uchar" ); every<e_u8>( "e_u8" ); every<e_i8>( "e_i8" );
    every<short>( "short" ); every<unsigned short>( "ushort" ); every<e_i16>( "e_i16" ); every<char16_t>( "char16" );
    dense<int, std::uint32_t>( "int" ); dense<unsigned, std::uint32_t>( "unsigned" ); dense<char32_t, std::uint32_t>( "char32" ); dense<wchar_t, std::uint32_t>( "wchar" ); dense<e_u32, std::uint32_t>( "e_u32" );
    dense<long, u64>( "long" ); dense<unsigned long, u64>( "ulong" ); dense<long long, u64>( "llong" ); dense<unsigned long long, u64>( "ullong" ); dense<e_u64, u64>( "e_u64" );
    {
        std::vector<char const*> v; Rng g( seed_of( "ptr" ) );
        for( int i = 0; i < 64; ++i ) v.push_back( reinterpret_cast<char const*>( static_cast<std::uintptr_t>( 1 ) << i ) );
        for( int i = 0; i < g_count; ++i ) v.push_back( reinterpret_cast<char const*>( static_cast<std::uintptr_t>( g() ) ) );
        batches( "pointer", v );
    }
    floats<float, std::uint32_t>( "float" ); floats<double, u64>( "double" );
}
