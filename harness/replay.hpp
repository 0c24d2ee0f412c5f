// Builds values from their description in the specification (JSON) and appends them.
#ifndef VERIF_REPLAY_HPP
#define VERIF_REPLAY_HPP
#include "append_run.hpp"
#include <fstream>

struct In
{
    std::string s; std::size_t i;
    explicit In( std::string const& x ): s( x ), i( 0 ) {}
    void ws() { while( i < s.size() && ( s[i] == ' ' || s[i] == '\t' ) ) ++i; }
    char peek() { ws(); return i < s.size()? s[i]: 0; }
    void eat( char c ) { if( peek() != c ) { std::fprintf( stderr, "expected %c at %zu of %s\n", c, i, s.c_str() ); std::exit( 3 ); } ++i; }
    bool maybe( char c ) { if( peek() == c ) { ++i; return true; } return false; }
    long long number() { ws(); char* e; long long v = std::strtoll( s.c_str() + i, &e, 10 ); i = static_cast<std::size_t>( e - s.c_str() ); return v; }
    std::string text() { eat( '"' ); std::size_t b = i; while( s[i] != '"' ) ++i; return s.substr( b, i++ - b ); }
    u64 magnitude() { u64 m = 0; for( int k = 0; k < 4; ++k ) { m |= static_cast<u64>( number() ) << 16 * k; maybe( ',' ); } return m; }
};
template<class T, class E = void> struct From;
template<class T> T from( In& in ) { return From<T>::get( in ); }
template<class T> struct From<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static T get( In& in ) { in.eat( '[' ); bool neg = in.number() != 0; in.eat( ',' ); u64 m = in.magnitude(); in.eat( ']' ); return static_cast<T>( neg? 0 - m: m ); }
};
template<class T> struct From<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T get( In& in )
    {
        std::string c; int s = 0, e = 0; u64 m = 0;
        in.eat( '{' );
        do
        {
            std::string k = in.text(); in.eat( ':' );
            if( k == "c" ) c = in.text(); else if( k == "s" ) s = static_cast<int>( in.number() ); else if( k == "e" ) e = static_cast<int>( in.number() );
            else { in.eat( '[' ); m = in.magnitude(); in.eat( ']' ); }
        }
        while( in.maybe( ',' ) );
        in.eat( '}' );
        T r = c == "zero"? T(): c == "inf"? std::numeric_limits<T>::infinity(): std::ldexp( static_cast<T>( m ), e - std::numeric_limits<T>::digits + 1 );
        return s? -r: r;
    }
};
template<class V> std::vector<V> list_of( In& in )
{
    std::vector<V> v;
    in.eat( '[' );
    if( in.maybe( ']' ) ) return v;
    do { v.push_back( from<V>( in ) ); } while( in.maybe( ',' ) );
    in.eat( ']' );
    return v;
}
template<class C> struct FromRange { static C get( In& in ) { auto v = list_of<typename C::value_type>( in ); return C( v.begin(), v.end() ); } };
template<class V> struct From<std::vector<V>, void>: FromRange<std::vector<V> > {};
template<class V> struct From<std::list<V>, void>: FromRange<std::list<V> > {};
template<class V> struct From<std::deque<V>, void>: FromRange<std::deque<V> > {};
template<class V> struct From<std::forward_list<V>, void>: FromRange<std::forward_list<V> > {};
template<class V, class H> struct From<std::unordered_multiset<V, H>, void>: FromRange<std::unordered_multiset<V, H> > {};
template<class V, std::size_t N> struct From<std::array<V, N>, void>
{
    static std::array<V, N> get( In& in ) { auto v = list_of<V>( in ); std::array<V, N> a = {}; for( std::size_t i = 0; i < N; ++i ) a[i] = v[i]; return a; }
};
template<std::size_t I, std::size_t N> struct Comp
{
    template<class T> static void get( In& in, T& t ) { if( I ) in.eat( ',' ); std::get<I>( t ) = from<typename std::tuple_element<I, T>::type>( in ); Comp<I + 1, N>::get( in, t ); }
};
template<std::size_t N> struct Comp<N, N> { template<class T> static void get( In&, T& ) {} };
template<class... T> struct From<std::tuple<T...>, void> { static std::tuple<T...> get( In& in ) { std::tuple<T...> t; in.eat( '[' ); Comp<0, sizeof...(T)>::get( in, t ); in.eat( ']' ); return t; } };
template<class A, class B> struct From<std::pair<A, B>, void> { static std::pair<A, B> get( In& in ) { std::pair<A, B> t; in.eat( '[' ); Comp<0, 2>::get( in, t ); in.eat( ']' ); return t; } };

template<class T, class F> std::string fed( F const& f, T const& v )
{
    std::set<std::string> s;
    { RecMin h; h2::hash_append( h, f, v ); s.insert( RecMin::seen( h ) ); }
    { Rec<h2::digest<16> > h; h2::hash_append( h, f, v ); s.insert( h.m ); }
    return s.size() == 1? jbytes( *s.begin() ): "[-1]";
}
// the values of one type, one per line, up to an empty line
template<class T> void replay( std::istream& is, std::string const& id, std::string const& type )
{
    std::string line, vs, ml, mb;
    while( std::getline( is, line ) && !line.empty() )
    {
        In in( line );
        T v = from<T>( in );
        vs += ( vs.empty()? "": "," ) + line;
        ml += ( ml.empty()? "": "," ) + fed( h2::little_endian_flavor(), v );
        mb += ( mb.empty()? "": "," ) + fed( f_u32_big(), v );
    }
    if( !wanted( id ) ) return;
    Record rec( id );
    rec.event( "{\"op\":\"inject\",\"f\":" + jflavor_of<h2::little_endian_flavor>( false ) + ",\"t\":" + type + ",\"vs\":[" + vs + "],\"ms\":[" + ml + "]}" );
    rec.event( "{\"op\":\"inject\",\"f\":" + jflavor_of<f_u32_big>( false ) + ",\"t\":" + type + ",\"vs\":[" + vs + "],\"ms\":[" + mb + "]}" );
    rec.print();
}
#endif
