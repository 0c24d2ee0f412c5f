// Unordered ranges under every permutation and container history, with the library's algorithms and recorders.
#include "append_run.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <boost/unordered_set.hpp>
#include <boost/unordered_map.hpp>
#if __cplusplus >= 201703L
#include <boost/unordered/unordered_flat_set.hpp>
#include <boost/unordered/unordered_node_map.hpp>
#endif
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )
#define SLIM ( PART >= 6 )

template<class R> typename std::enable_if<std::is_integral<R>::value, std::string>::type rbytes( R r )
{ std::string s; for( std::size_t i = 0; i < sizeof(R); ++i ) s.push_back( static_cast<char>( r >> ( 8 * i ) ) ); return jbytes( s ); }
template<class R> typename std::enable_if<!std::is_integral<R>::value, std::string>::type rbytes( R const& r ) { return jbytes( r.begin(), r.end() ); }

// distinct outcomes: results, and for recorders the bytes received
template<class H> struct Outcome
{
    std::set<std::string> s;
    static H start( std::string const& prefix ) { H h; if( !prefix.empty() ) h.update( prefix.data(), prefix.size() ); return h; }
    Streams m;
    void put( H h, std::size_t n ) { note( h, n, 0 ); s.insert( rbytes( h.result() ) ); }
    template<class G> auto note( G const& h, std::size_t n, int ) -> decltype( G::seen( h ), void() ) { m.s.insert( G::seen( h ).substr( n ) ); }
    template<class G> void note( G const&, std::size_t, long ) {}
    std::string results() const { std::string r = "["; for( auto i = s.begin(); i != s.end(); ++i ) { if( i != s.begin() ) r += ","; r += *i; } return r + "]"; }
};
template<class X> std::string js( X const& x ) { return jval( x ); }
template<class K, class V> std::string js( std::pair<K const, V> const& x ) { return jval( std::pair<K, V>( x ) ); }

template<class H, class F, class C> void cont( Outcome<H>& out, F const& f, std::string const& prefix, C const& c )
{ H h = Outcome<H>::start( prefix ); h2::hash_append( h, f, c ); out.put( h, prefix.size() ); }

// sets and multisets of X with the given elements
template<class C, class H, class F, class X> void histories( Outcome<H>& out, F const& f, std::string const& prefix, std::vector<X> const& v, Rng& g, X extra )
{
    for( int k = 0; k < 6; ++k )
    {
        std::vector<X> w;
        for( auto const& x: v ) w.insert( w.begin() + static_cast<std::ptrdiff_t>( g.below( w.size() + 1 ) ), x );
        C c;
        if( k == 1 ) c.rehash( 300 );
        bool wanted_extra = std::find( v.begin(), v.end(), extra ) != v.end();
        if( k >= 2 && !wanted_extra ) c.insert( extra );
        for( auto const& x: w ) { c.insert( x ); if( k == 3 ) c.rehash( 1 + g.below( 50 ) ); }
        if( k >= 2 && !wanted_extra ) c.erase( c.find( extra ) );
        if( k == 4 ) { C d( c ); d.rehash( 1000 ); cont( out, f, prefix, d ); }
        if( k == 5 ) { C d; d.insert( extra ); d = c; C e( std::move( d ) ); cont( out, f, prefix, e ); }
        cont( out, f, prefix, c );
    }
}
template<class H, class F, class X> void permutations( Outcome<H>& out, F const& f, std::string const& prefix, std::vector<X> const& v )
{
    std::vector<std::size_t> ix( v.size() );
    for( std::size_t i = 0; i < ix.size(); ++i ) ix[i] = i;
    do
    {
        std::vector<X> w; std::list<X> l;
        for( auto i: ix ) { w.push_back( v[i] ); l.push_back( v[i] ); }
        { H h = Outcome<H>::start( prefix ); h2::hash_append_unordered_range( h, f, w.begin(), w.end() ); out.put( h, prefix.size() ); }
        if( ix.size() < 4 ) { H h = Outcome<H>::start( prefix ); h2::hash_append_unordered_range( h, f, l.begin(), l.end() ); out.put( h, prefix.size() ); }
    }
    while( std::next_permutation( ix.begin(), ix.end() ) );
}
template<class H, class F, class X> void one_set( char const* alg, char const* tn, int i, F const& f, bool native, bool multi )
{
    std::string id = std::string( "uno " ) + alg + " " + tn + "." + num( i );
    if( !wanted( id ) ) return;
    Rng g( seed_of( id ) ), h( g() );
    std::string prefix( i % 3 == 0? 0: g.below( 70 ), 0 ); for( auto& c: prefix ) c = static_cast<char>( g() );
    std::vector<X> v;
    std::size_t n = i == 0? 0: i == 1? 1: 2 + g.below( 4 );
    X extra = X();
    for( std::size_t k = 0; k < n; ++k )
    {
        X x = X(); fill( x, g, h );
        if( !v.empty() && g.below( 3 ) == 0 ) x = v[ g.below( v.size() ) ];
        if( !multi && std::find( v.begin(), v.end(), x ) != v.end() ) continue;
        v.push_back( x );
    }
    fill( extra, g, h );
    Outcome<H> out;
    permutations( out, f, prefix, v );
    if( multi )
    {
        histories<std::unordered_multiset<X> >( out, f, prefix, v, g, extra );
        histories<std::unordered_multiset<X, BadHash> >( out, f, prefix, v, g, extra );
#if !SLIM
        histories<boost::unordered_multiset<X> >( out, f, prefix, v, g, extra );
#endif
    }
    else
    {
        histories<std::unordered_set<X> >( out, f, prefix, v, g, extra );
#if !SLIM
        histories<std::unordered_set<X, BadHash> >( out, f, prefix, v, g, extra );
        histories<boost::unordered_set<X> >( out, f, prefix, v, g, extra );
#endif
#if !SLIM && __cplusplus >= 201703L
        histories<boost::unordered_flat_set<X> >( out, f, prefix, v, g, extra );
#endif
    }
    Record rec( id );
    rec.event( ev_new( 0, alg ) );
    if( !prefix.empty() ) rec.event( ev_upd( 0, prefix ) );
    rec.event( ev_app( 0, jflavor_of<F>( native ), "{\"k\":\"uno\",\"e\":" + jtype<X>() + "}", jseq( v.begin(), v.end() ), out.m ) );
    rec.event( "{\"op\":\"res\",\"o\":0,\"r\":" + out.results() + "}" );
    rec.print();
}
template<class H, class F, class K, class V> void one_map( char const* alg, char const* tn, int i, F const& f, bool native )
{
    std::string id = std::string( "map " ) + alg + " " + tn + "." + num( i );
    if( !wanted( id ) ) return;
    typedef std::pair<K, V> X;
    Rng g( seed_of( id ) ), h( g() );
    std::string prefix( i % 2? g.below( 70 ): 0, 'p' );
    std::map<K, V> m;
    for( std::size_t k = g.below( 6 ); k; --k ) { K a = K(); V b = V(); fill( a, g, h ); fill( b, g, h ); m.insert( std::make_pair( a, b ) ); }
    std::vector<X> v;
    for( auto const& x: m ) v.push_back( x );
    Outcome<H> out;
    permutations( out, f, prefix, v );
    for( int k = 0; k < 6; ++k )
    {
        std::vector<X> w;
        for( auto const& x: v ) w.insert( w.begin() + static_cast<std::ptrdiff_t>( g.below( w.size() + 1 ) ), x );
        std::unordered_map<K, V> a; std::unordered_multimap<K, V> b; boost::unordered_map<K, V> c;
        if( k & 1 ) { a.rehash( 99 ); b.max_load_factor( 50 ); }
        for( auto const& x: w ) { a[ x.first ] = V(); a[ x.first ] = x.second; b.insert( x ); c.emplace( x.first, x.second ); }
        cont( out, f, prefix, a ); cont( out, f, prefix, b ); cont( out, f, prefix, c );
#if __cplusplus >= 201703L
        { boost::unordered_node_map<K, V> d( w.begin(), w.end() ); cont( out, f, prefix, d ); }
#endif
    }
    Record rec( id );
    rec.event( ev_new( 0, alg ) );
    if( !prefix.empty() ) rec.event( ev_upd( 0, prefix ) );
    rec.event( ev_app( 0, jflavor_of<F>( native ), "{\"k\":\"uno\",\"e\":" + TrMapBase<K, V>::elem() + "}", jseq( v.begin(), v.end() ), out.m ) );
    rec.event( "{\"op\":\"res\",\"o\":0,\"r\":" + out.results() + "}" );
    rec.print();
}
// every multiset of up to four elements from a small domain: all different, also under different prefixes
template<class H, class X> void family( char const* alg, char const* what, std::vector<X> const& dom )
{
    std::string id = std::string( "family " ) + alg + " " + what;
    if( !wanted( id ) ) return;
    std::vector<std::vector<X> > all( 1 );
    for( std::size_t b = 0, n = 0; n < 4; ++n )
    {
        std::size_t e = all.size();
        for( std::size_t i = b; i < e; ++i ) for( auto const& x: dom ) if( all[i].empty() || !( x < all[i].back() ) ) { all.push_back( all[i] ); all.back().push_back( x ); }
        b = e;
    }
    std::string rs;
    h2::default_flavor f;
    if( std::string( alg ).substr( 0, 4 ) == "fnv1" )
    {
        // the sums of these element hashes collide (a listed finding): exactly the results specified
        Record rec( id );
        int o = 0;
        for( auto const& v: all )
        {
            H h; h2::hash_append_unordered_range( h, f, v.begin(), v.end() );
            rec.event( ev_new( o, alg ) );
            rec.event( ev_app( o, jflavor_of<h2::default_flavor>( true ), "{\"k\":\"uno\",\"e\":" + jtype<X>() + "}", jseq( v.begin(), v.end() ), Streams() ) );
            rec.event( "{\"op\":\"res\",\"o\":" + num( o++ ) + ",\"r\":[" + rbytes( h.result() ) + "]}" );
        }
        rec.print();
        return;
    }
    for( auto const& v: all )
    {
        H h; h2::hash_append_unordered_range( h, f, v.begin(), v.end() );
        rs += ( rs.empty()? "": "," ) + rbytes( h.result() );
    }
    Record rec( id );
    rec.event( "{\"op\":\"distinct\",\"rs\":[" + rs + "]}" );
    rec.print();
}
template<class H> void alg( char const* name, bool wide )
{
    h2::default_flavor d; h2::big_endian_flavor b; f_u32_little u;
    for( int i = 0; i < g_count; ++i )
    {
        switch( i % 5 )
        {
        case 0: one_set<H, h2::default_flavor, int>( name, "int", i, d, true, true ); one_set<H, h2::big_endian_flavor, std::string>( name, "string", i, b, false, false ); break;
        case 1: one_set<H, h2::big_endian_flavor, short>( name, "short", i, b, false, true ); one_map<H, h2::default_flavor, int, std::string>( name, "int,string", i, d, true ); break;
        case 2: one_set<H, h2::default_flavor, u8>( name, "u8", i, d, true, false ); one_set<H, f_u32_little, double>( name, "double", i, u, false, true ); break;
        case 3: one_map<H, f_u32_little, std::string, short>( name, "string,short", i, u, false ); one_set<H, h2::default_flavor, int>( name, "set int", i, d, true, false ); break;
        default: one_set<H, f_u32_little, std::string>( name, "strings", i, u, false, true ); one_map<H, h2::big_endian_flavor, u8, double>( name, "u8,double", i, b, false ); break;
        }
    }
    family<H, int>( name, "ints", std::vector<int>{ 0, 1, 2, 3, 4 } );
    family<H, std::string>( name, "strings", std::vector<std::string>{ "", std::string( 1, '\0' ), "a", "aa", "b" } );
    if( wide ) family<H, u64>( name, "u64", std::vector<u64>{ 0, 1, 0x100000000ull, 0x8000000000000000ull, ~0ull } );
}

int main( int argc, char** argv )
{
    start( argc, argv );
    using namespace h2;
#define A(x) alg<x>( #x, true );
#if P(0)
    A(fnv1a_32) A(fnv1a_64) A(xxhash_32) A(xxhash_64)
#endif
#if P(1)
    A(siphash_32) A(siphash_64) alg<Rec<u64> >( "rec64", true ); alg<Rec<std::array<u8, 8> > >( "recarr", true );
#endif
#if P(2)
    A(md5_128) A(sha1_160) A(ripemd_160) A(ripemd_128)
#endif
#if P(3)
    A(sha2_256) A(sha2_224) A(sha2_512) A(sha2_384)
#endif
#if P(4)
    A(sha2_512_224) A(sha2_512_256) A(murmur3_32) A(murmur3_128)
#endif
#if P(5)
    A(spooky2_128) alg<Rec<std::uint32_t> >( "rec32", true );
#endif
#if P(6)
    A(hmac_md5_128) A(hmac_sha1_160) A(hmac_ripemd_160) A(hmac_ripemd_128)
#endif
#if P(7)
    A(hmac_sha2_256) A(hmac_sha2_224) A(hmac_sha2_512) A(hmac_sha2_384) A(hmac_sha2_512_224) A(hmac_sha2_512_256)
#endif
    return 0;
}
