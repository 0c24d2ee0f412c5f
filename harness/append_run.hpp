// Appending values under every flavor, storage pattern and recorder; one record per value.
#ifndef VERIF_APPEND_RUN_HPP
#define VERIF_APPEND_RUN_HPP
#include "append_types.hpp"
#include <iostream>
#include <csignal>
#include <unistd.h>

int g_tag = 0;
static u64 g_seed = 1;
static std::string g_only, g_cur;
static int g_count = 3, g_full = 1;

static u64 seed_of( std::string const& s ) { return fnv( s ) ^ g_seed * 0xD1B54A32D192ED03ull; }

struct Record
{
    std::string id, ev;
    explicit Record( std::string const& i ): id( i ) {}
    void event( std::string const& e ) { if( !ev.empty() ) ev += ","; ev += e; }
    void print() { std::cout << "{\"id\":\"" << id << "\",\"ev\":[" << ev << "]}" << std::endl; }
};
static bool wanted( std::string const& id ) { g_cur = id; return g_only.empty() || g_only == id; }
static void on_signal( int s )
{
    std::string r = "{\"id\":\"" + g_cur + "\",\"ev\":[{\"op\":\"fault\",\"what\":\"signal " + num( s ) + "\"}]}\n";
    ssize_t x = write( 1, r.data(), r.size() ); (void)x;
    _exit( 66 );
}
static void start( int argc, char** argv )
{
    for( int i = 1; i + 1 < argc; i += 2 )
    {
        std::string a = argv[i];
        if( a == "--seed" ) g_seed = std::strtoull( argv[i+1], 0, 10 );
        if( a == "--only" ) g_only = argv[i+1];
        if( a == "--count" ) g_count = std::atoi( argv[i+1] );
        if( a == "--nan" ) g_nan = true;
    }
#ifndef NO_SIGNALS
    int sig[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
    for( int s: sig ) std::signal( s, on_signal );
#endif
}

struct Streams
{
    std::set<std::string> s;
    std::string json() const { std::string r = "["; for( auto i = s.begin(); i != s.end(); ++i ) { if( i != s.begin() ) r += ","; r += jbytes( *i ); } return r + "]"; }
};

inline std::string ev_new( int o, std::string const& a ) { return "{\"op\":\"new\",\"o\":" + num( o ) + ",\"a\":\"" + a + "\",\"k\":\"d\",\"s\":[]}"; }
inline std::string ev_upd( int o, std::string const& b ) { return "{\"op\":\"upd\",\"o\":" + num( o ) + ",\"b\":" + jbytes( b ) + "}"; }
inline std::string ev_app( int o, std::string const& f, std::string const& t, std::string const& v, Streams const& m )
{ return "{\"op\":\"app\",\"o\":" + num( o ) + ",\"f\":" + f + ",\"t\":" + t + ",\"v\":" + v + ",\"m\":" + m.json() + "}"; }
inline std::string ev_call( int o, std::string const& f, std::string const& c, Streams const& m )
{ return "{\"op\":\"call\",\"o\":" + num( o ) + ",\"f\":" + f + ",\"c\":" + c + ",\"m\":" + m.json() + "}"; }

template<class F> std::string jflavor_of( bool native )
{ return jflavor( F::byte_order, native, sizeof( typename F::size_type ) ); }

// the same value in storage that held something else before
template<class T> struct Box { T v; };
template<class T> struct Placed
{
    u8* mem; Box<T>* b;
    Placed( u64 s, int pattern, int variant )
    {
        std::size_t al = alignof(Box<T>) < 16? 16: alignof(Box<T>);
        mem = static_cast<u8*>( ::operator new( sizeof(Box<T>) + 2 * al ) );
        u8* p = mem + ( al - reinterpret_cast<std::uintptr_t>( mem ) % al ) % al;
        Rng g( s + static_cast<u64>( pattern ) );
        for( std::size_t i = 0; i < sizeof(Box<T>); ++i ) p[i] = static_cast<u8>( pattern == 0? 0: pattern == 1? 0xff: g() );
        b = new( p ) Box<T>;
        Rng r( s ), h( s * 31 + static_cast<u64>( variant ) + 7 );
        fill( b->v, r, h );
    }
    ~Placed() { b->~Box<T>(); ::operator delete( mem ); }
    Placed( Placed const& ) = delete;
};

template<class H, class F, class T> void one( Streams& out, F const& f, std::string const& prefix, T const& v )
{
    H h;
    if( !prefix.empty() ) h.update( prefix.data(), prefix.size() );
    h2::hash_append( h, f, v );
    out.s.insert( H::seen( h ).substr( prefix.size() ) );
}

template<class T, class F> void under( Record& rec, int& o, F const& f, bool native, u64 s, std::string const& prefix, bool hashes )
{
    std::string fl = jflavor_of<F>( native );
    {
        Streams m;
        std::string v;
        for( int p = 0; p < 3; ++p )
        {
            Placed<T> x( s, p, p );
            if( p == 0 ) v = jval( x.b->v );
            one<RecMin>( m, f, prefix, x.b->v );
            if( hashes )
            {
                one<Rec<u64> >( m, f, prefix, x.b->v );
                one<Rec<std::array<u8, 8> > >( m, f, prefix, x.b->v );
                one<Rec<h2::digest<20> > >( m, f, prefix, x.b->v );
            }
        }
        rec.event( ev_new( o, "rec64" ) );
        if( !prefix.empty() ) rec.event( ev_upd( o, prefix ) );
        rec.event( ev_app( o++, fl, jtype<T>(), v, m ) );
    }
    if( hashes )
    {
#define NARROW(R) { Streams m; Placed<T> x( s, 2, 5 ); one<Rec<R> >( m, f, prefix, x.b->v ); rec.event( ev_new( o, ToR<R>::name() ) ); \
        if( !prefix.empty() ) rec.event( ev_upd( o, prefix ) ); rec.event( ev_app( o++, fl, jtype<T>(), jval( x.b->v ), m ) ); }
        NARROW( std::uint32_t ) NARROW( std::uint16_t ) NARROW( u8 )
#undef NARROW
    }
}

inline char const* jbool( bool b ) { return b? "true": "false"; }
template<class T> std::string traits_event()
{
    std::string s = "{\"op\":\"trait\",\"t\":" + jtype<T>() + ",\"size\":" + num( sizeof(T) ) + ",\"esize\":" + num( sizeof(typename std::remove_all_extents<T>::type) );
#define TRAIT(n, e) s += std::string( ",\"" n "\":" ) + jbool( e );
    TRAIT( "te", h2::is_trivially_equality_comparable<T>::value )
    TRAIT( "tec", h2::is_trivially_equality_comparable<T const>::value )
    TRAIT( "ei", h2::is_endian_independent<T>::value )
    TRAIT( "eic", h2::is_endian_independent<T const>::value )
    TRAIT( "nat", ( h2::is_contiguously_hashable<T, h2::endian::native>::value ) )
    TRAIT( "le", ( h2::is_contiguously_hashable<T, h2::endian::little>::value ) )
    TRAIT( "be", ( h2::is_contiguously_hashable<T, h2::endian::big>::value ) )
    TRAIT( "natc", ( h2::is_contiguously_hashable<T const, h2::endian::native>::value ) )
    TRAIT( "bec", ( h2::is_contiguously_hashable<T const, h2::endian::big>::value ) )
    TRAIT( "nata", ( h2::is_contiguously_hashable<T[3], h2::endian::native>::value ) )
    TRAIT( "bea", ( h2::is_contiguously_hashable<T[2][3], h2::endian::big>::value ) )
    TRAIT( "cs", h2::has_constant_size<T>::value )
    TRAIT( "csc", h2::has_constant_size<T const>::value )
#undef TRAIT
    return s + "}";
}

// MODE bits: 1 = every predefined flavor and three of our own (else: native and big), 2 = all hash classes
#ifndef MODE
#define MODE 1
#endif
#ifdef INJECT
// many values of the type, from small domains
template<class T, class F> void inject( Record& rec, std::string const& id, F const& f, bool native )
{
    std::string vs, ms;
    for( int i = 0; i < g_count; ++i )
    {
        Placed<T> x( seed_of( id ) + static_cast<u64>( i ) * 77, 2, i );
        if( i ) { vs += ","; ms += ","; }
        std::string p; Streams m;
        one<RecMin>( m, f, p, x.b->v );
        vs += jval( x.b->v ); ms += jbytes( *m.s.begin() );
    }
    rec.event( "{\"op\":\"inject\",\"f\":" + jflavor_of<F>( native ) + ",\"t\":" + jtype<T>() + ",\"vs\":[" + vs + "],\"ms\":[" + ms + "]}" );
}
template<class T> void entry( char const* name, int = 0 )
{
    std::string id = std::string( "inject " ) + name;
    if( !wanted( id ) ) return;
    g_small = true;
    Record rec( id );
    inject<T>( rec, id, h2::default_flavor(), true );
    inject<T>( rec, id, f_u32_big(), false );
    rec.print();
}
#else
template<class T> void entry( char const* name, int count = 0 )
{
    if( count == 0 ) count = g_count;
    if( wanted( std::string( name ) + ".traits" ) ) { Record r( g_cur ); r.event( traits_event<T>() ); r.print(); }
    for( int i = 0; i < count; ++i )
    {
        std::string id = std::string( name ) + "." + num( i );
        if( !wanted( id ) ) continue;
        u64 s = seed_of( id );
        Rng g( s ^ 99 );
        std::string prefix;
        for( std::size_t n = i == 0? 0: g.below( 12 ); n; --n ) prefix.push_back( static_cast<char>( g() ) );
        Record rec( id );
        int o = 0;
        bool const hs = ( MODE & 2 ) != 0;
        under<T>( rec, o, h2::default_flavor(), true, s, prefix, hs );
        under<T>( rec, o, h2::big_endian_flavor(), false, s, prefix, hs );
#if MODE & 1
        under<T>( rec, o, h2::little_endian_flavor(), false, s, prefix, false );
        under<T>( rec, o, f_u32_native(), true, s, prefix, false );
        under<T>( rec, o, f_u32_big(), false, s, prefix, false );
        g_tag = 17; under<T>( rec, o, f_tagged( 17 ), false, s, prefix, false ); g_tag = 0;
#endif
        rec.print();
    }
}
#endif
#define E(...) entry<__VA_ARGS__>( #__VA_ARGS__ );
#endif
