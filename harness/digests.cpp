// Executes digest behaviours read from stdin; one record per behaviour.
//   T id N / ops, one per line: op object class / .
#include <boost/hash2/digest.hpp>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <csignal>
#include <unistd.h>
namespace h2 = boost::hash2;
typedef unsigned char u8;
typedef std::uint64_t u64;
struct Rng { u64 s; u64 operator()() { u64 z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); } std::size_t below( std::size_t n ) { return (*this)() % n; } };
static std::string num( long long x ) { return std::to_string( x ); }
template<class It> std::string jb( It f, It l ) { std::string s = "["; bool c = false; for( ; f != l; ++f ) { if( c ) s += ","; c = true; s += num( static_cast<u8>( *f ) ); } return s + "]"; }
static std::string jb( std::string const& s ) { return jb( s.begin(), s.end() ); }
static std::string g_id;
static void on_signal( int s ) { std::string r = "{\"id\":\"" + g_id + "\",\"ev\":[{\"op\":\"fault\",\"what\":\"signal " + num( s ) + "\"}]}\n"; ssize_t x = write( 1, r.data(), r.size() ); (void)x; _exit( 66 ); }

template<std::size_t N> struct Run
{
    typedef h2::digest<N> D;
    std::map<int, std::unique_ptr<D> > d;
    std::string ev;
    Rng g;
    void event( std::string const& e ) { if( !ev.empty() ) ev += ","; ev += e; }
    // everything the accessors show
    std::string see( int o )
    {
        D& m = *d[ o ]; D const& c = m;
        std::set<std::string> s;
        std::string x;
        x.assign( m.begin(), m.end() ); s.insert( x );
        x.assign( c.begin(), c.end() ); s.insert( x );
        x.assign( m.data(), m.data() + m.size() ); s.insert( x );
        x.assign( c.data(), c.data() + c.size() ); s.insert( x );
        x.clear(); for( std::size_t i = 0; i < N; ++i ) x.push_back( static_cast<char>( m[i] ) ); s.insert( x );
        x.clear(); for( std::size_t i = 0; i < N; ++i ) x.push_back( static_cast<char>( c[i] ) ); s.insert( x );
        x[ 0 ] = static_cast<char>( m.front() ); x[ N-1 ] = static_cast<char>( m.back() ); s.insert( x );
        x[ 0 ] = static_cast<char>( c.front() ); x[ N-1 ] = static_cast<char>( c.back() ); s.insert( x );
        std::string r = "\"see\":[";
        for( auto i = s.begin(); i != s.end(); ++i ) { if( i != s.begin() ) r += ","; r += jb( *i ); }
        return r + "],\"size\":" + num( c.size() == c.max_size()? static_cast<long long>( c.size() ): -1 ) + "}";
    }
    void seen( std::string const& head, int o ) { event( head + see( o ) ); }
    // placed in memory that is not zero
    void put( int o, D* p ) { d[ o ].reset( p ); }
    static void* dirty() { void* p = ::operator new( sizeof(D) ); std::memset( p, 0xA7, sizeof(D) ); return p; }

    void step( char op, int o, std::string const& c )
    {
        std::string os = ",\"o\":" + num( o );
        switch( op )
        {
        case 'N':
            if( c == "d" ) { put( o, g() & 1? new( dirty() ) D(): new( dirty() ) D{} ); seen( "{\"op\":\"new\",\"k\":\"default\",\"n\":" + num( N ) + os + ",", o ); }
            else
            {
                u8 v[ N ]; std::size_t k = g.below( 4 ); for( auto& x: v ) x = static_cast<u8>( k == 0? 0xff: k == 1? ( g() & 1? 0x80: 0x7f ): g() );
                if( c == "a" ) put( o, new( dirty() ) D( v ) ); else { D t = { v }; put( o, new( dirty() ) D( t ) ); }
                std::string b = jb( v, v + N ); std::memset( v, 0x33, N );
                seen( "{\"op\":\"new\",\"k\":\"array\",\"b\":" + b + os + ",", o );
            }
            break;
        case 'C':
            {
                int p = c[0] - '0';
                std::string h = "{\"op\":\"copy\"" + os + ",\"p\":" + num( p ) + ",";
                bool self = p == o;
                if( !d.count( p ) || ( c[1] == 'c' && !self ) ) put( p, new( dirty() ) D( *d[ o ] ) );
                else if( c[1] == 'm' ) *d[ p ] = static_cast<D&&>( *d[ o ] );
                else *d[ p ] = *d[ o ];
                seen( h, p );
                if( !self ) seen( "{\"op\":\"see\"" + os + ",", o );
            }
            break;
        case 'S':
            {
                std::size_t i = c == "first" || c == "front"? 0: c == "last" || c == "back"? N - 1: g.below( N );
                u8 b = static_cast<u8>( g() );
                D& x = *d[ o ];
                if( c == "front" ) x.front() = b; else if( c == "back" ) x.back() = b; else if( c == "data" ) x.data()[ i ] = b; else if( c == "iter" ) x.begin()[ i ] = b; else x[ i ] = b;
                seen( "{\"op\":\"set\"" + os + ",\"i\":" + num( i ) + ",\"b\":" + num( b ) + ",", o );
            }
            break;
        case 'F':
            { u8 b = static_cast<u8>( g() ); for( u8& x: *d[ o ] ) x = b; seen( "{\"op\":\"fill\"" + os + ",\"b\":" + num( b ) + ",", o ); }
            break;
        case 'E':
            {
                int p = std::atoi( c.c_str() );
                auto cmp = [&]( int a, int b ) { D const& x = *d[ a ]; D const& y = *d[ b ]; event( "{\"op\":\"eq\",\"o\":" + num( a ) + ",\"p\":" + num( b ) + ",\"eq\":" + ( x == y? "true": "false" ) + ",\"ne\":" + ( x != y? "true": "false" ) + "}" ); };
                cmp( o, p );
                // differing in one bit of one byte, then equal again
                put( 9, new D( *d[ o ] ) ); seen( "{\"op\":\"copy\"" + os + ",\"p\":9,", 9 ); cmp( o, 9 );
                std::size_t i = g.below( N ); u8 b = static_cast<u8>( (*d[ 9 ])[ i ] ^ 1u << g.below( 8 ) );
                (*d[ 9 ])[ i ] = b; seen( "{\"op\":\"set\",\"o\":9,\"i\":" + num( i ) + ",\"b\":" + num( b ) + ",", 9 ); cmp( o, 9 ); cmp( 9, o );
            }
            break;
        case 'T':
            {
                std::size_t n = c == "zero"? 0: c == "one"? 1: c == "less"? g.below( 2 * N ): c == "exact"? 2 * N: 2 * N + 1 + g.below( 9 );
                std::size_t lead = g.below( 5 ), tail = g.below( 5 );
                // the allocation ends with the buffer, for the sanitizer to see
                std::unique_ptr<char[]> buf( new char[ lead + n + tail ] );
                for( std::size_t i = 0; i < lead + n + tail; ++i ) buf[ i ] = static_cast<char>( g() );
                std::string pre( buf.get(), lead + n + tail );
                char* r = h2::to_chars( *d[ o ], buf.get() + lead, buf.get() + lead + n );
                event( "{\"op\":\"chars\"" + os + ",\"lead\":" + num( lead ) + ",\"n\":" + num( n ) + ",\"pre\":" + jb( pre ) + ",\"post\":" + jb( std::string( buf.get(), lead + n + tail ) ) + ",\"ret\":" + num( r? r - ( buf.get() + lead ): -1 ) + "}" );
            }
            break;
        case 'A': if( c == "exact" ) arr<2 * N + 1>( o ); else arr<2 * N + 7>( o ); break;
        case 'G': { std::string s = to_string( *d[ o ] ); event( "{\"op\":\"str\"" + os + ",\"s\":" + jb( s ) + "}" ); } break;
        case 'O':
            {
                std::ostringstream s;
                long w = c == "plain" || c == "flags"? 0: c == "narrow"? static_cast<long>( g.below( 2 * N + 1 ) ): static_cast<long>( 2 * N + 1 + g.below( 9 ) );
                char fill = c == "plain"? ' ': "*0 x"[ g.below( 4 ) ];
                s << std::setw( static_cast<int>( w ) ) << std::setfill( fill );
                if( c == "left" ) s << std::left;
                if( c == "internal" ) s << std::internal;
                if( c == "wide" && g() & 1 ) s << std::right;
                if( c == "flags" || g() & 1 ) s << std::uppercase << std::showbase << std::hex << std::showpos << std::boolalpha << std::setprecision( 1 );
                std::ios_base::fmtflags before = s.flags();
                std::ostream& ret = ( s << *d[ o ] );
                event( "{\"op\":\"out\"" + os + ",\"width\":" + num( w ) + ",\"fill\":" + num( static_cast<u8>( fill ) ) + ",\"adjust\":\"" + ( c == "left"? "left": "right" ) + "\",\"s\":" + jb( s.str() ) + ",\"after\":" + num( s.width() ) + ",\"good\":" + ( &ret == &s && s.good() && s.flags() == before && s.fill() == fill? "true": "false" ) + "}" );
                if( g() & 1 ) { std::stringstream t; t << "[" << *d[ o ] << "]"; std::string x = t.str(); event( "{\"op\":\"str\"" + os + ",\"s\":" + jb( x.substr( 1, x.size() - 2 ) ) + "}" ); }
            }
            break;
        default: std::exit( 3 );
        }
    }
    template<std::size_t M> void arr( int o )
    {
        struct Buf { char a[ M ]; };
        std::unique_ptr<Buf> b( new Buf );
        for( auto& x: b->a ) x = static_cast<char>( g() );
        std::string pre( b->a, M );
        h2::to_chars( *d[ o ], b->a );
        event( "{\"op\":\"arr\",\"o\":" + num( o ) + ",\"pre\":" + jb( pre ) + ",\"post\":" + jb( std::string( b->a, M ) ) + "}" );
    }
    void facts()
    {
#define FACT(w, is) event( std::string( "{\"op\":\"fact\",\"what\":\"" w "\",\"doc\":true,\"is\":" ) + ( ( is )? "true}": "false}" ) );
        FACT( "types", ( std::is_same<typename D::value_type, u8>::value && std::is_same<typename D::iterator, u8*>::value && std::is_same<typename D::const_iterator, u8 const*>::value && std::is_same<typename D::size_type, std::size_t>::value && std::is_same<typename D::difference_type, std::ptrdiff_t>::value && std::is_same<typename D::reference, u8&>::value && std::is_same<typename D::const_reference, u8 const&>::value ) )
        FACT( "sizeof", sizeof(D) == N )
        FACT( "trivially copyable", std::is_trivially_copyable<D>::value )
        FACT( "nothrow", ( std::is_nothrow_default_constructible<D>::value && std::is_nothrow_copy_constructible<D>::value && std::is_nothrow_copy_assignable<D>::value && std::is_nothrow_constructible<D, u8 const(&)[ N ]>::value ) )
        FACT( "noexcept", noexcept( std::declval<D&>().begin() ) && noexcept( std::declval<D const&>().end() ) && noexcept( std::declval<D const&>().data() ) && noexcept( std::declval<D const&>().size() ) && noexcept( std::declval<D const&>().back() ) && noexcept( std::declval<D const&>() == std::declval<D const&>() ) && noexcept( std::declval<D const&>() != std::declval<D const&>() ) && noexcept( h2::to_chars( std::declval<D const&>(), std::declval<char*>(), std::declval<char*>() ) ) )
        FACT( "const access", ( std::is_same<decltype( std::declval<D const&>()[ 0 ] ), u8 const&>::value && std::is_same<decltype( std::declval<D const&>().data() ), u8 const*>::value && std::is_same<decltype( std::declval<D&>()[ 0 ] ), u8&>::value && std::is_same<decltype( std::declval<D&>().back() ), u8&>::value ) )
    }
};
template<std::size_t N> void behaviour( std::string const& id, u64 seed, std::vector<std::string> const& ops )
{
    Run<N> r;
    r.g.s = seed;
    for( char c: id ) r.g.s = r.g.s * 31 + static_cast<u8>( c );
    r.facts();
    for( auto const& s: ops ) { std::istringstream is( s ); char op; int o; std::string c; is >> op >> o >> c; r.step( op, o, c ); }
    std::cout << "{\"id\":\"" << id << "\",\"ev\":[" << r.ev << "]}" << std::endl;
}
int main( int argc, char** argv )
{
    u64 seed = 1;
    for( int i = 1; i + 1 < argc; i += 2 ) if( std::string( argv[i] ) == "--seed" ) seed = std::strtoull( argv[i+1], 0, 10 );
#ifndef NO_SIGNALS
    int sig[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
    for( int s: sig ) std::signal( s, on_signal );
#endif
    std::string line;
    while( std::getline( std::cin, line ) )
    {
        std::istringstream is( line );
        char t; std::string id; int n;
        is >> t >> id >> n;
        std::vector<std::string> ops;
        while( std::getline( std::cin, line ) && line != "." ) ops.push_back( line );
        g_id = id;
        switch( n )
        {
#define D(k) case k: behaviour<k>( id, seed, ops ); break;
        D(1) D(2) D(3) D(4) D(5) D(7) D(8) D(16) D(20) D(28) D(32) D(48) D(64) D(100) D(129)
        default: return 3;
        }
    }
}
