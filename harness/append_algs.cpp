// Every algorithm of the library behind hash_append: the results of histories of appends, updates and copies.
#include "append_run.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )

template<class R> typename std::enable_if<std::is_integral<R>::value, std::string>::type rbytes( R r )
{ std::string s; for( std::size_t i = 0; i < sizeof(R); ++i ) s.push_back( static_cast<char>( r >> ( 8 * i ) ) ); return jbytes( s ); }
template<class R> typename std::enable_if<!std::is_integral<R>::value, std::string>::type rbytes( R const& r ) { return jbytes( r.begin(), r.end() ); }

template<class H> void res( Record& rec, int o, H& h )
{
    typename H::result_type r = h.result();
    rec.event( "{\"op\":\"res\",\"o\":" + num( o ) + ",\"r\":[" + rbytes( r ) + "]}" );
}
template<class T, class H, class F> void app( Record& rec, int o, H& h, F const& f, bool native, u64 s )
{
    Placed<T> x( s, 2, static_cast<int>( s % 5 ) );
    rec.event( ev_app( o, jflavor_of<F>( native ), jtype<T>(), jval( x.b->v ), Streams() ) );
    h2::hash_append( h, f, x.b->v );
}
template<class H, class F> void some_app( Record& rec, int o, H& h, F const& f, bool native, u64 s )
{
    using namespace ut;
    switch( s % 14 )
    {
    case 0: app<int>( rec, o, h, f, native, s ); break;
    case 1: app<std::string>( rec, o, h, f, native, s ); break;
    case 2: app<std::vector<unsigned short> >( rec, o, h, f, native, s ); break;
    case 3: app<std::unordered_set<int> >( rec, o, h, f, native, s ); break;
    case 4: app<double>( rec, o, h, f, native, s ); break;
    case 5: app<std::pair<char, long> >( rec, o, h, f, native, s ); break;
    case 6: app<std::unordered_map<short, std::string> >( rec, o, h, f, native, s ); break;
    case 7: app<std::list<bool> >( rec, o, h, f, native, s ); break;
    case 8: app<U1>( rec, o, h, f, native, s ); break;
    case 9: app<std::tuple<> >( rec, o, h, f, native, s ); break;
    case 10: app<U3>( rec, o, h, f, native, s ); break;
    case 11: app<std::array<short, 3> >( rec, o, h, f, native, s ); break;
    case 12: app<u8[4]>( rec, o, h, f, native, s ); break;
    default: app<std::unordered_multiset<u8> >( rec, o, h, f, native, s ); break;
    }
}
template<class H> void history( char const* name, int i )
{
    std::string id = std::string( "alg " ) + name + "." + num( i );
    if( !wanted( id ) ) return;
    Record rec( id );
    Rng g( seed_of( id ) );
    auto make = [&]( int o ) -> H
    {
        std::string e = "{\"op\":\"new\",\"o\":" + num( o ) + ",\"a\":\"" + name + "\",\"k\":\"";
        switch( i < 3? i: static_cast<int>( g.below( 3 ) ) )
        {
        case 0: rec.event( e + "d\",\"s\":[]}" ); return H();
        case 1: { std::uint64_t s = g(); rec.event( e + "i\",\"s\":[" + limbs( s ) + "]}" ); return H( s ); }
        default:
            {
                std::string b( g.below( 20 ), 0 ); for( auto& c: b ) c = static_cast<char>( g() );
                if( std::string( name ).substr( 0, 6 ) == "murmur" ) b.resize( std::min<std::size_t>( b.size(), 4 ) );
                rec.event( e + "b\",\"s\":" + jbytes( b ) + "}" ); return H( reinterpret_cast<unsigned char const*>( b.data() ), b.size() );
            }
        }
    };
    H h = make( 0 );
    for( int k = 0; k < 3; ++k )
    {
        if( g.below( 3 ) == 0 ) { std::string b( g.below( 30 ), 'u' ); rec.event( ev_upd( 0, b ) ); h.update( b.data(), b.size() ); }
        u64 s = g();
        switch( s >> 60 & 3 )
        {
        case 0: some_app( rec, 0, h, h2::default_flavor(), true, s ); break;
        case 1: some_app( rec, 0, h, h2::big_endian_flavor(), false, s ); break;
        case 2: some_app( rec, 0, h, h2::little_endian_flavor(), false, s ); break;
        default: some_app( rec, 0, h, f_u32_big(), false, s ); break;
        }
        if( k == 1 )
        {
            H c( h ); rec.event( "{\"op\":\"copy\",\"o\":0,\"p\":1}" );
            app<short>( rec, 1, c, h2::big_endian_flavor(), false, g() ); res( rec, 1, c );
            if( g() & 1 ) { c = h; rec.event( "{\"op\":\"copy\",\"o\":0,\"p\":1}" ); app<std::string>( rec, 1, c, h2::default_flavor(), true, g() ); res( rec, 1, c ); }
        }
        if( k == 1 && g() % 3 == 0 ) res( rec, 0, h );
    }
    res( rec, 0, h );
    rec.print();
}
// long ranges, their elements given by a formula
template<class C, class H, class F> void app_long( Record& rec, H& h, F const& f, bool native, std::size_t n, unsigned a, unsigned m )
{
    std::vector<typename C::value_type> v;
    for( std::size_t i = 0; i < n; ++i ) v.push_back( static_cast<typename C::value_type>( ( static_cast<u64>( a ) * i + 3 ) % m ) );
    C c( v.begin(), v.end() );
    h2::hash_append( h, f, c );
    rec.event( "{\"op\":\"bulk\",\"o\":0,\"f\":" + jflavor_of<F>( native ) + ",\"t\":" + jtype<C>() + ",\"g\":{\"n\":" + num( static_cast<long long>( n ) ) + ",\"a\":" + num( a ) + ",\"b\":3,\"m\":" + num( m ) + "}}" );
}
template<class H> void long_history( char const* name )
{
    for( int i = 0; i < 2; ++i )
    {
        std::string id = std::string( "long " ) + name + "." + num( i );
        if( !wanted( id ) ) continue;
        Record rec( id );
        Rng g( seed_of( id ) );
        rec.event( std::string( "{\"op\":\"new\",\"o\":0,\"a\":\"" ) + name + "\",\"k\":\"d\",\"s\":[]}" );
        H h;
        std::size_t n = 256 + g.below( 300 );
        unsigned a = static_cast<unsigned>( 1 + g.below( 5000 ) );
        if( i == 0 )
        {
            app_long<std::vector<u8> >( rec, h, h2::default_flavor(), true, n, a, 256 );
            app_long<std::list<short> >( rec, h, h2::big_endian_flavor(), false, 257, a, 30000 );
        }
        else
        {
            app_long<std::string>( rec, h, f_u32_big(), false, n, a, 128 );
            app_long<std::vector<int> >( rec, h, h2::little_endian_flavor(), false, 260, a, 100000 );
        }
        res( rec, 0, h );
        rec.print();
    }
}
// the uniform interface
template<class H, std::size_t Size, int Block> void interface( char const* name )
{
    typedef unsigned char const* UP;
    std::string id = std::string( "interface " ) + name;
    if( !wanted( id ) ) return;
    Record rec( id );
#define FACT(w, is, doc) rec.event( std::string( "{\"op\":\"fact\",\"what\":\"" w "\",\"is\":" ) + num( is ) + ",\"doc\":" + num( doc ) + "}" );
    FACT( "default constructible", ( std::is_default_constructible<H>::value ), 1 )
    FACT( "from u64", ( std::is_constructible<H, std::uint64_t>::value ), 1 )
    FACT( "explicit", ( std::is_convertible<std::uint64_t, H>::value ), 0 )
    FACT( "from bytes", ( std::is_constructible<H, UP, std::size_t>::value ), 1 )
    FACT( "copy constructible", ( std::is_copy_constructible<H>::value ), 1 )
    FACT( "copy assignable", ( std::is_copy_assignable<H>::value ), 1 )
    FACT( "result size", static_cast<long long>( sizeof(typename H::result_type) ), Size )
    FACT( "result() returns result_type", ( std::is_same<decltype( std::declval<H&>().result() ), typename H::result_type>::value ), 1 )
    FACT( "update is void", ( std::is_same<decltype( std::declval<H&>().update( static_cast<void const*>( 0 ), std::size_t() ) ), void>::value ), 1 )
    FACT( "update(unsigned char const*) is void", ( std::is_same<decltype( std::declval<H&>().update( UP(), std::size_t() ) ), void>::value ), 1 )
    rec.print();
}
template<class H, class E = void> struct BlockOf { static constexpr int v = 0; };
template<class H> struct BlockOf<H, typename std::enable_if<( H::block_size > 0 )>::type> { static constexpr int v = H::block_size; };

template<class H, std::size_t Size, int Block> void all( char const* name, int n )
{
    interface<H, Size, Block>( name );
    std::string id = std::string( "block " ) + name;
    if( Block && wanted( id ) ) { Record rec( id ); int b = BlockOf<H>::v; FACT( "block_size", b, Block ) rec.print(); }
    for( int i = 0; i < n; ++i ) history<H>( name, i );
    long_history<H>( name );
}

int main( int argc, char** argv )
{
    start( argc, argv );
    using namespace h2;
#define A(x, s, b) all<x, s, b>( #x, g_count );
#if P(0)
    A(fnv1a_32, 4, 0) A(fnv1a_64, 8, 0) A(xxhash_32, 4, 0) A(xxhash_64, 8, 0) A(siphash_32, 4, 0) A(siphash_64, 8, 0)
#endif
#if P(1)
    A(md5_128, 16, 64) A(sha1_160, 20, 64) A(ripemd_160, 20, 64) A(ripemd_128, 16, 64) A(sha2_256, 32, 64)
#endif
#if P(2)
    A(sha2_224, 28, 64) A(sha2_512, 64, 128) A(sha2_384, 48, 128) A(sha2_512_224, 28, 128) A(sha2_512_256, 32, 128)
#endif
#if P(3)
    A(hmac_md5_128, 16, 64) A(hmac_sha1_160, 20, 64) A(hmac_ripemd_160, 20, 64) A(hmac_ripemd_128, 16, 64) A(hmac_sha2_256, 32, 64)
#endif
#if P(4)
    A(hmac_sha2_224, 28, 64) A(hmac_sha2_512, 64, 128) A(hmac_sha2_384, 48, 128) A(hmac_sha2_512_224, 28, 128) A(hmac_sha2_512_256, 32, 128)
#endif
#if P(5)
    A(murmur3_32, 4, 0) A(murmur3_128, 16, 0) A(spooky2_128, 16, 0)
#endif
    return 0;
}
