// Long ranges: values given by a formula (the specification expands it), and ranges of more than 2^32 elements or bytes
// whose extent a tallying hash algorithm measures.
#include "append_run.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <sys/mman.h>
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )

struct f_u16_native { using size_type = std::uint16_t; static constexpr auto byte_order = h2::endian::native; };
struct f_u8_big { using size_type = std::uint8_t; static constexpr auto byte_order = h2::endian::big; };

struct Formula
{
    std::size_t n; unsigned a, b, m;
    unsigned operator[]( std::size_t i ) const { return static_cast<unsigned>( ( static_cast<u64>( a ) * i + b ) % m ); }
    std::string json() const { return "{\"n\":" + num( static_cast<long long>( n ) ) + ",\"a\":" + num( a ) + ",\"b\":" + num( b ) + ",\"m\":" + num( m ) + "}"; }
};
template<class T> std::vector<T> elements( Formula const& g )
{
    std::vector<T> v( g.n );
    for( std::size_t i = 0; i < g.n; ++i ) v[ i ] = static_cast<T>( g[ i ] );
    return v;
}
template<class R> typename std::enable_if<std::is_integral<R>::value, std::string>::type rbytes( R r )
{ std::string s; for( std::size_t i = 0; i < sizeof(R); ++i ) s.push_back( static_cast<char>( r >> ( 8 * i ) ) ); return jbytes( s ); }
template<class R> typename std::enable_if<!std::is_integral<R>::value, std::string>::type rbytes( R const& r ) { return jbytes( r.begin(), r.end() ); }

// op: how the value was appended
template<class H, class F, class Op> void bulk( char const* alg, std::string const& name, F const& f, bool native, std::string const& what, Formula const& g, Op op )
{
    std::string id = "bulk " + name + "." + alg + "." + num( static_cast<long long>( g.n ) ) + "." + num( sizeof( typename F::size_type ) ) + ( native? "n": "b" );
    if( !wanted( id ) ) return;
    Record rec( id );
    H h;
    rec.event( ev_new( 0, alg ) );
    h.update( "pre", 3 ); rec.event( ev_upd( 0, "pre" ) );
    op( h, f );
    rec.event( "{\"op\":\"bulk\",\"o\":0,\"f\":" + jflavor_of<F>( native ) + "," + what + ",\"g\":" + g.json() + "}" );
    rec.event( "{\"op\":\"res\",\"o\":0,\"r\":[" + rbytes( h.result() ) + "]}" );
    rec.print();
}
template<class Op> void algs( std::string const& name, std::string const& what, Formula const& g, Op op, bool fast_only )
{
    bulk<h2::fnv1a_64>( "fnv1a_64", name, h2::default_flavor(), true, what, g, op );
    bulk<h2::xxhash_64>( "xxhash_64", name, h2::big_endian_flavor(), false, what, g, op );
    bulk<h2::siphash_32>( "siphash_32", name, f_u16_native(), true, what, g, op );
    bulk<h2::xxhash_32>( "xxhash_32", name, f_u32_big(), false, what, g, op );
    if( fast_only ) return;
    bulk<h2::md5_128>( "md5_128", name, h2::default_flavor(), true, what, g, op );
    bulk<h2::siphash_64>( "siphash_64", name, f_u8_big(), false, what, g, op );
    bulk<RecMin>( "rec64", name, h2::little_endian_flavor(), false, what, g, op );
    bulk<Rec<std::array<u8, 8> > >( "recarr", name, f_u32_native(), true, what, g, op );
}
template<class C> struct App
{
    C const& c;
    template<class H, class F> void operator()( H& h, F const& f ) const { h2::hash_append( h, f, c ); }
};
template<class It> struct Range { It f, l; template<class H, class F> void operator()( H& h, F const& fl ) const { h2::hash_append_range( h, fl, f, l ); } };
template<class It> struct Sized { It f, l; template<class H, class F> void operator()( H& h, F const& fl ) const { h2::hash_append_sized_range( h, fl, f, l ); } };
template<class It> struct Unordered { It f, l; template<class H, class F> void operator()( H& h, F const& fl ) const { h2::hash_append_unordered_range( h, fl, f, l ); } };

static Formula formula( std::string const& name, std::size_t n, unsigned m ) { Rng g( seed_of( name ) ); return Formula{ n, static_cast<unsigned>( 1 + g.below( 5000 ) ), static_cast<unsigned>( g.below( m ) ), m }; }

template<class C, class T> void values( char const* name, std::size_t n, unsigned m )
{
    Formula g = formula( name, n, m );
    std::vector<T> v = elements<T>( g );
    C c( v.begin(), v.end() );
    algs( name, "\"t\":" + jtype<C>(), g, App<C>{ c }, n > 4000 );
}
// ascending elements, for sorted containers
template<class C, class T> void ascending( char const* name, std::size_t n )
{
    Formula g{ n, 3, 1, 2000000 };
    std::vector<T> v = elements<T>( g );
    C c( v.begin(), v.end() );
    algs( name, "\"t\":" + jtype<C>(), g, App<C>{ c }, n > 4000 );
}
template<class T, std::size_t N> void arrays( char const* name, unsigned m )
{
    Formula g = formula( name, N, m );
    struct Holder { T c[ N ]; std::array<T, N> s; boost::array<T, N> b; };
    std::unique_ptr<Holder> p( new Holder );
    for( std::size_t i = 0; i < N; ++i ) p->c[ i ] = p->s[ i ] = p->b[ i ] = static_cast<T>( g[ i ] );
    typedef T CA[ N ];
    algs( std::string( "C array of " ) + name, "\"t\":" + jtype<CA>(), g, App<CA>{ p->c }, N > 4000 );
    algs( std::string( "array of " ) + name, "\"t\":" + jtype<std::array<T, N> >(), g, App<std::array<T, N> >{ p->s }, N > 4000 );
    algs( std::string( "boost array of " ) + name, "\"t\":" + jtype<boost::array<T, N> >(), g, App<boost::array<T, N> >{ p->b }, N > 4000 );
}
template<class C, class T> void calls( char const* name, std::size_t n, unsigned m )
{
    Formula g = formula( name, n, m );
    std::vector<T> v = elements<T>( g );
    C c( v.begin(), v.end() );
    typedef typename C::const_iterator It;
    std::string t = ",\"t\":" + jtype<T>();
    std::string s( name );
    algs( "range " + s, "\"c\":\"range\"" + t, g, Range<It>{ c.begin(), c.end() }, n > 4000 );
    algs( "sized " + s, "\"c\":\"sized\"" + t, g, Sized<It>{ c.begin(), c.end() }, n > 4000 );
    if( n <= 4000 ) algs( "unordered " + s, "\"c\":\"unordered\"" + t, g, Unordered<It>{ c.begin(), c.end() }, n > 400 );
}
template<class T> void pointers( char const* name, std::size_t n, unsigned m )
{
    Formula g = formula( name, n, m );
    std::vector<T> v = elements<T>( g );
    std::string t = ",\"t\":" + jtype<T>();
    std::string s( name );
    algs( "range ptr " + s, "\"c\":\"range\"" + t, g, Range<T const*>{ v.data(), v.data() + n }, n > 4000 );
    algs( "range nc " + s, "\"c\":\"range\"" + t, g, Range<T*>{ v.data(), v.data() + n }, n > 4000 );
    algs( "sized ptr " + s, "\"c\":\"sized\"" + t, g, Sized<T const*>{ v.data(), v.data() + n }, n > 4000 );
}

// ---------------------------------------------------------------- more than fits in memory

struct Tally
{
    typedef u64 result_type;
    u64 n; std::size_t k; u8 head[ 16 ], tail[ 16 ];
    Tally(): n( 0 ), k( 0 ) { std::memset( head, 0, 16 ); std::memset( tail, 0, 16 ); }
    explicit Tally( std::uint64_t ): Tally() {}
    Tally( unsigned char const*, std::size_t ): Tally() {}
    void update( void const* v, std::size_t m )
    {
        u8 const* p = static_cast<u8 const*>( v );
        if( n < 16 ) { std::size_t j = 16 - static_cast<std::size_t>( n ); std::memcpy( head + n, p, m < j? m: j ); }
        n += m;
        if( m == 1 ) { tail[ k & 15 ] = *p; ++k; return; }
        if( m > 16 ) { p += m - 16; m = 16; }
        for( std::size_t i = 0; i < m; ++i ) tail[ k++ & 15 ] = p[ i ];
    }
    result_type result() { return 1; }
    std::string last() const { std::string s; for( std::size_t i = 0; i < 16; ++i ) s.push_back( static_cast<char>( tail[ ( k + i ) & 15 ] ) ); return s; }
};
template<class T> struct View
{
    typedef T value_type; typedef T const* const_iterator; typedef T const* iterator; typedef std::size_t size_type; typedef T const& const_reference; typedef T const& reference; typedef std::ptrdiff_t difference_type;
    T const* p; std::size_t n;
    T const* begin() const { return p; }
    T const* end() const { return p + n; }
    T const* data() const { return p; }
    std::size_t size() const { return n; }
};
template<class T> struct NoData
{
    typedef T value_type; typedef T const* const_iterator; typedef T const* iterator; typedef std::size_t size_type;
    T const* p; std::size_t n;
    T const* begin() const { return p; }
    T const* end() const { return p + n; }
};
// a sequence nobody stores: n elements, the first and last 16 bytes as in memory
template<class T> struct Made
{
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef T const& reference; typedef std::ptrdiff_t difference_type; typedef T const* pointer;
    T const* base; u64 i, n;
    static T const zero;
    T const& operator*() const { return i * sizeof(T) < 16 || i + 16 >= n? base[ i ]: zero; }
    Made& operator++() { ++i; return *this; }
    Made operator++( int ) { Made t( *this ); ++i; return t; }
    friend bool operator==( Made const& a, Made const& b ) { return a.i == b.i; }
    friend bool operator!=( Made const& a, Made const& b ) { return a.i != b.i; }
};
template<class T> T const Made<T>::zero = T();

template<class T, class F, class Op> void huge_one( std::string const& kind, std::string const& name, F const& f, bool native, T const* p, u64 n, Op op )
{
    std::string id = "huge " + name + "." + num( sizeof(T) ) + "." + num( static_cast<long long>( n ) ) + "." + num( sizeof( typename F::size_type ) ) + ( native? "n": "b" );
    if( !wanted( id ) ) return;
    Record rec( id );
    Tally h;
    op( h, f );
    u8 const* b = reinterpret_cast<u8 const*>( p );
    u8 const* e = reinterpret_cast<u8 const*>( p + n );
    rec.event( "{\"op\":\"huge\",\"kind\":\"" + kind + "\",\"size\":" + num( sizeof(T) ) + ",\"n\":[" + limbs( n ) + "],\"f\":" + jflavor_of<F>( native ) + ",\"first\":" + jbytes( b, b + 16 ) + ",\"last\":" + jbytes( e - 16, e )
        + ",\"total\":[" + limbs( h.n ) + "],\"head\":" + jbytes( h.head, h.head + 16 ) + ",\"tail\":" + jbytes( h.last() ) + "}" );
    rec.print();
}
template<class T> void huge( u8* mem, std::size_t cap, u64 n )
{
    if( n * sizeof(T) > cap ) { std::fprintf( stderr, "capacity\n" ); std::exit( 3 ); }
    T* p = reinterpret_cast<T*>( mem + cap - n * sizeof(T) );
    p = reinterpret_cast<T*>( mem );
    u8* e = reinterpret_cast<u8*>( p + n );
    Rng g( seed_of( "huge" ) + n );
    for( int i = 0; i < 16; ++i ) { mem[ i ] = static_cast<u8>( g() ); e[ i - 16 ] = static_cast<u8>( g() ); }
#define HUGE_FLAVORS( kind, name, op ) \
    huge_one<T>( kind, name, h2::default_flavor(), true, p, n, op ); \
    huge_one<T>( kind, name, f_u32_native(), true, p, n, op ); \
    huge_one<T>( kind, name, h2::little_endian_flavor(), false, p, n, op );
    HUGE_FLAVORS( "range", "range", ( Range<T const*>{ p, p + n } ) )
    HUGE_FLAVORS( "range", "range nc", ( Range<T*>{ p, p + n } ) )
    HUGE_FLAVORS( "value", "sized", ( Sized<T const*>{ p, p + n } ) )
    View<T> v{ p, static_cast<std::size_t>( n ) };
    HUGE_FLAVORS( "value", "view", ( App<View<T> >{ v } ) )
    NoData<T> d{ p, static_cast<std::size_t>( n ) };
    HUGE_FLAVORS( "value", "nodata", ( App<NoData<T> >{ d } ) )
#if __cplusplus >= 202002L
    std::span<T const> s( p, n );
    HUGE_FLAVORS( "value", "span", ( App<std::span<T const> >{ s } ) )
    std::span<T> sn( p, n );
    HUGE_FLAVORS( "value", "span nc", ( App<std::span<T> >{ sn } ) )
#endif
    std::memset( mem, 0, 16 ); std::memset( e - 16, 0, 16 );
}
template<class T> void made( u8* mem, u64 n )
{
    T* p = reinterpret_cast<T*>( mem );
    u8* e = reinterpret_cast<u8*>( p + n );
    Rng g( seed_of( "made" ) + n );
    for( int i = 0; i < 16; ++i ) { mem[ i ] = static_cast<u8>( g() ); e[ i - 16 ] = static_cast<u8>( g() ); }
    typedef Made<T> It;
    huge_one<T>( "value", "made sized", h2::big_endian_flavor(), false, p, n, ( Sized<It>{ It{ p, 0, n }, It{ p, n, n } } ) );
    huge_one<T>( "range", "made range", f_u32_big(), false, p, n, ( Range<It>{ It{ p, 0, n }, It{ p, n, n } } ) );
    std::memset( mem, 0, 16 ); std::memset( e - 16, 0, 16 );
}

int main( int argc, char** argv )
{
    start( argc, argv );
#if P(0)
    for( std::size_t n: { 255, 256, 300 } )
    {
        values<std::vector<int>, int>( "vector int", n, 100000 );
        values<std::vector<u8>, u8>( "vector u8", n, 256 );
        values<std::string, char>( "string", n, 128 );
        values<std::u16string, char16_t>( "u16string", n, 60000 );
        values<std::list<short>, short>( "list short", n, 30000 );
        values<std::deque<unsigned char>, unsigned char>( "deque uchar", n, 256 );
        values<std::forward_list<long>, long>( "forward_list long", n, 100000 );
        values<std::vector<bool>, bool>( "vector bool", n, 2 );
        values<std::unordered_multiset<int>, int>( "unordered_multiset int", n, 100 );
        ascending<std::set<int>, int>( "set int", n );
        ascending<std::unordered_set<int>, int>( "unordered_set int", n );
    }
    values<std::unordered_multiset<int>, int>( "unordered_multiset int", 1100, 1000 );
    values<std::unordered_multiset<short>, short>( "unordered_multiset short", 5000, 30000 );
    ascending<std::unordered_set<int>, int>( "unordered_set int", 4100 );
    arrays<int, 300>( "int", 100000 );
    arrays<u8, 257>( "u8", 256 );
    arrays<char32_t, 70>( "char32", 100000 );
    calls<std::list<int>, int>( "list int", 300, 100000 );
    calls<std::vector<char>, char>( "vector char", 260, 128 );
    calls<std::deque<unsigned short>, unsigned short>( "deque ushort", 257, 60000 );
    calls<std::vector<bool>, bool>( "vbool", 320, 2 );
    pointers<int>( "int", 400, 100000 );
    pointers<u8>( "u8", 2100, 256 );
    pointers<unsigned long long>( "ull", 520, 100000 );
#endif
#if P(1)
    values<std::vector<int>, int>( "vector int", 66000, 400000 );
    values<std::vector<u8>, u8>( "vector u8", 70000, 256 );
    values<std::string, char>( "string", 65536, 128 );
    values<std::list<char>, char>( "list char", 65540, 128 );
    values<std::vector<bool>, bool>( "vector bool", 65539, 2 );
    arrays<u8, 65541>( "u8", 256 );
    arrays<short, 33000>( "short", 30000 );
    calls<std::deque<char>, char>( "deque char", 65537, 128 );
    pointers<short>( "short", 32769, 30000 );
    ascending<std::set<int>, int>( "set int", 65600 );
#endif
#if P(2)
    std::size_t const cap = ( std::size_t( 1 ) << 35 ) + 4096;
    void* m = mmap( 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( m == MAP_FAILED ) { std::fprintf( stderr, "mmap\n" ); return 3; }
    u8* mem = static_cast<u8*>( m );
    u64 const one = 1;
    for( u64 n: { ( one << 31 ) - 1, ( one << 31 ) + 3, ( one << 32 ) - 1, one << 32, ( one << 32 ) + 5, ( one << 34 ) + 1 } ) huge<u8>( mem, cap, n );
    huge<char>( mem, cap, ( one << 32 ) + 77 );
    for( u64 n: { ( one << 31 ) + 1, ( one << 32 ) + 9 } ) huge<char16_t>( mem, cap, n );
    for( u64 n: { ( one << 29 ) + 1, ( one << 30 ) + 1, ( one << 31 ), ( one << 32 ) + 2 } ) huge<int>( mem, cap, n );
    for( u64 n: { ( one << 29 ) + 7, ( one << 32 ) - 3 } ) huge<u64>( mem, cap, n );
#endif
#if P(3)
    std::size_t const cap = ( std::size_t( 1 ) << 34 ) + 4096;
    void* m = mmap( 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( m == MAP_FAILED ) { std::fprintf( stderr, "mmap\n" ); return 3; }
    u64 const one = 1;
    made<u8>( static_cast<u8*>( m ), ( one << 32 ) + 6 );
#endif
}
