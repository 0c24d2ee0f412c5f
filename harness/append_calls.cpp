// The same elements through every kind of iterator, container and storage.
#include "append_run.hpp"
#include <memory>
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )

// iterators over an array, of every category, with several reference types
template<class V, class Cat, class Ref> struct It
{
    typedef Cat iterator_category; typedef V value_type; typedef Ref reference; typedef std::ptrdiff_t difference_type; typedef V const* pointer;
    V const* p;
    It(): p() {}
    explicit It( V const* x ): p( x ) {}
    Ref operator*() const { return Ref( *p ); }
    pointer operator->() const { return p; }
    It& operator++() { ++p; return *this; }
    It operator++( int ) { It t( *this ); ++p; return t; }
    It& operator--() { --p; return *this; }
    It operator--( int ) { It t( *this ); --p; return t; }
    It& operator+=( difference_type n ) { p += n; return *this; }
    It& operator-=( difference_type n ) { p -= n; return *this; }
    Ref operator[]( difference_type n ) const { return Ref( p[n] ); }
    friend It operator+( It a, difference_type n ) { a.p += n; return a; }
    friend It operator+( difference_type n, It a ) { a.p += n; return a; }
    friend It operator-( It a, difference_type n ) { a.p -= n; return a; }
    friend difference_type operator-( It a, It b ) { return a.p - b.p; }
    friend bool operator==( It a, It b ) { return a.p == b.p; }
    friend bool operator!=( It a, It b ) { return a.p != b.p; }
    friend bool operator<( It a, It b ) { return a.p < b.p; }
    friend bool operator>( It a, It b ) { return b < a; }
    friend bool operator<=( It a, It b ) { return !( b < a ); }
    friend bool operator>=( It a, It b ) { return !( a < b ); }
};
// single pass: copies share the position, the value is gone after ++
template<class V> struct Once
{
    typedef std::input_iterator_tag iterator_category; typedef V value_type; typedef V const& reference; typedef std::ptrdiff_t difference_type; typedef V const* pointer;
    struct S { std::vector<V> v; std::size_t i; V cur; };
    std::shared_ptr<S> s;
    Once() {}
    explicit Once( std::vector<V> const& v ): s( new S{ v, 0, V() } ) { if( v.empty() ) s.reset(); else s->cur = v[0]; }
    reference operator*() const { if( !s ) std::abort(); return s->cur; }
    Once& operator++() { ++s->i; if( s->i == s->v.size() ) s.reset(); else s->cur = s->v[ s->i ]; return *this; }
    struct Post { V v; V operator*() const { return v; } };
    Post operator++( int ) { Post t = { s->cur }; ++*this; return t; }
    bool end() const { return !s || s->i >= s->v.size(); }
    friend bool operator==( Once const& a, Once const& b ) { return a.end() == b.end(); }
    friend bool operator!=( Once const& a, Once const& b ) { return !( a == b ); }
};
// something that converts to V and is not V
template<class V> struct Proxy { V v; explicit Proxy( V const& x ): v( x ) {} operator V() const { return v; } };

// ranges with these iterators
template<class I> struct Range
{
    typedef I const_iterator; typedef I iterator;
    I b, e;
    I begin() const { return b; }
    I end() const { return e; }
};
// contiguous range of the user's; sizes of several types
template<class V, class S> struct Contig
{
    V const* p; S n;
    V const* begin() const { return p; }
    V const* end() const { return p + n; }
    V const* data() const { return p; }
    S size() const { return n; }
};
template<class V> struct MutContig: Contig<V, std::size_t> { V* data() { std::abort(); } using Contig<V, std::size_t>::data; };

template<class V> struct Alloc
{
    typedef V value_type; int tag;
    explicit Alloc( int t = 3 ): tag( t ) {}
    template<class U> Alloc( Alloc<U> const& a ): tag( a.tag ) {}
    V* allocate( std::size_t n ) { return static_cast<V*>( ::operator new( n * sizeof(V) ) ); }
    void deallocate( V* p, std::size_t ) { ::operator delete( p ); }
    template<class U> bool operator==( Alloc<U> const& ) const { return true; }
    template<class U> bool operator!=( Alloc<U> const& ) const { return false; }
};

enum Op { RANGE, SIZED, UNO };
static char const* opname( int k ) { return k == RANGE? "range": k == SIZED? "sized": "unordered"; }

template<class F> struct Ctx { Streams& m; F const& f; std::string const& prefix; };
template<class H, class F, class I> void go_( Ctx<F> c, int op, I b, I e )
{
    H h;
    if( !c.prefix.empty() ) h.update( c.prefix.data(), c.prefix.size() );
    switch( op )
    {
    case RANGE: h2::hash_append_range( h, c.f, b, e ); break;
    case SIZED: h2::hash_append_sized_range( h, c.f, b, e ); break;
    default: h2::hash_append_unordered_range( h, c.f, b, e ); break;
    }
    c.m.s.insert( H::seen( h ).substr( c.prefix.size() ) );
}
template<class F, class I> void go( Ctx<F> c, int op, I b, I e ) { go_<RecMin>( c, op, b, e ); go_<Rec<u64> >( c, op, b, e ); }
template<class F, class T> void ap( Ctx<F> c, T const& v ) { one<RecMin>( c.m, c.f, c.prefix, v ); one<Rec<h2::digest<16> > >( c.m, c.f, c.prefix, v ); }

template<class V> struct Arr   // plain array storage, also for bool
{
    std::unique_ptr<V[]> p; std::size_t n;
    explicit Arr( std::vector<V> const& v ): p( new V[ v.size() + 1 ] ), n( v.size() ) { for( std::size_t i = 0; i < n; ++i ) p[i] = v[i]; }
    V* b() const { return p.get(); }
    V* e() const { return p.get() + n; }
};

template<class V, class F> void iterators( Ctx<F> c, int op, std::vector<V> const& v )
{
    typedef std::random_access_iterator_tag R; typedef std::bidirectional_iterator_tag B; typedef std::forward_iterator_tag W; typedef std::input_iterator_tag I;
    Arr<V> a( v );
    V const* cb = a.b(); V const* ce = a.e();
    go( c, op, a.b(), a.e() ); go( c, op, cb, ce );
    { std::vector<V> w( v ); go( c, op, w.begin(), w.end() ); go( c, op, v.begin(), v.end() ); }
    { std::list<V> l( v.begin(), v.end() ); go( c, op, l.begin(), l.end() ); go( c, op, l.cbegin(), l.cend() ); }
    { std::forward_list<V> l( v.begin(), v.end() ); go( c, op, l.begin(), l.end() ); }
    { std::deque<V> l( v.begin(), v.end() ); go( c, op, l.begin(), l.end() ); }
    { std::vector<V> w( v.rbegin(), v.rend() ); go( c, op, w.rbegin(), w.rend() ); go( c, op, w.crbegin(), w.crend() ); }
    { std::list<V> l( v.begin(), v.end() ); go( c, op, std::make_move_iterator( l.begin() ), std::make_move_iterator( l.end() ) ); }
    go( c, op, It<V, R, V const&>( cb ), It<V, R, V const&>( ce ) );
    go( c, op, It<V, R, V>( cb ), It<V, R, V>( ce ) );
    go( c, op, It<V, B, V const&>( cb ), It<V, B, V const&>( ce ) );
    go( c, op, It<V, W, V const&>( cb ), It<V, W, V const&>( ce ) );
    go( c, op, It<V, W, V>( cb ), It<V, W, V>( ce ) );
    go( c, op, It<V, I, V const&>( cb ), It<V, I, V const&>( ce ) );
    go( c, op, It<V, I, V>( cb ), It<V, I, V>( ce ) );
    go( c, op, It<V, I, Proxy<V> >( cb ), It<V, I, Proxy<V> >( ce ) );
    go( c, op, It<V, R, Proxy<V> >( cb ), It<V, R, Proxy<V> >( ce ) );
    go( c, op, It<V, B, Proxy<V> >( cb ), It<V, B, Proxy<V> >( ce ) );
    go_<RecMin>( c, op, Once<V>( v ), Once<V>() ); go_<Rec<u64> >( c, op, Once<V>( v ), Once<V>() );
}
template<class V, class F> void containers( Ctx<F> c, std::vector<V> const& v )
{
    typedef std::random_access_iterator_tag R; typedef std::bidirectional_iterator_tag B; typedef std::forward_iterator_tag W; typedef std::input_iterator_tag I;
    Arr<V> a( v );
    V const* cb = a.b(); V const* ce = a.e();
    ap( c, v );
    { std::vector<V> w( v ); w.reserve( 50 ); ap( c, w ); }
    { std::vector<V, Alloc<V> > w( v.begin(), v.end(), Alloc<V>() ); ap( c, w ); }
    ap( c, std::list<V>( v.begin(), v.end() ) );
    ap( c, std::deque<V>( v.begin(), v.end() ) );
    { std::deque<V> d; for( auto i = v.rbegin(); i != v.rend(); ++i ) d.push_front( *i ); ap( c, d ); }
    ap( c, std::forward_list<V>( v.begin(), v.end() ) );
    { Range<V const*> r = { cb, ce }; ap( c, r ); }
    { Range<typename std::vector<V>::const_iterator> r = { v.begin(), v.end() }; ap( c, r ); }
#define RNG(C, Ref) { typedef It<V, C, Ref> X; Range<X> r = { X( cb ), X( ce ) }; ap( c, r ); }
    RNG( R, V const& ) RNG( R, V ) RNG( B, V const& ) RNG( W, V const& ) RNG( I, V const& ) RNG( I, V ) RNG( I, Proxy<V> ) RNG( R, Proxy<V> )
    { Contig<V, std::size_t> r = { cb, v.size() }; ap( c, r ); }
    { Contig<V, int> r = { cb, static_cast<int>( v.size() ) }; ap( c, r ); }
    { Contig<V, unsigned short> r = { cb, static_cast<unsigned short>( v.size() ) }; ap( c, r ); }
    { MutContig<V> r; r.p = cb; r.n = v.size(); ap( c, r ); }
#if __cplusplus >= 202002L
    ap( c, std::span<V>( a.b(), a.n ) ); ap( c, std::span<V const>( cb, a.n ) );
#endif
}

static std::string jops( int op, std::string const& t, std::string const& v ) { return std::string( "{\"op\":\"" ) + opname( op ) + "\",\"t\":" + t + ",\"v\":" + v + "}"; }

template<class V, class F> void flavor_events( Record& rec, int& o, F const& f, bool native, std::vector<V> const& v, std::string const& prefix )
{
    std::string fl = jflavor_of<F>( native ), t = jtype<V>(), js = jseq( v.begin(), v.end() );
    for( int op = 0; op < 3; ++op )
    {
        Streams m; Ctx<F> c = { m, f, prefix };
        iterators<V>( c, op, v );
        rec.event( ev_new( o, "rec64" ) );
        if( !prefix.empty() ) rec.event( ev_upd( o, prefix ) );
        rec.event( ev_call( o++, fl, jops( op, t, js ), m ) );
    }
    Streams m; Ctx<F> c = { m, f, prefix };
    containers<V>( c, v );
    rec.event( ev_new( o, "rec64" ) );
    if( !prefix.empty() ) rec.event( ev_upd( o, prefix ) );
    rec.event( ev_app( o++, fl, "{\"k\":\"seq\",\"e\":" + t + "}", js, m ) );
}
template<class V> void elems( char const* name )
{
    for( int i = 0; i < g_count; ++i )
    {
        std::string id = std::string( "elems " ) + name + "." + num( i );
        if( !wanted( id ) ) continue;
        u64 s = seed_of( id );
        Rng r( s ), h( s + 1 );
        std::size_t const big = sizeof(V) == 1? 300: 20;
        std::size_t n = i == 0? 0: i == 1? 1: i == 2? 3: 2 + r.below( i % 4 == 0? big: 6 );
        std::vector<V> v;
        for( std::size_t j = 0; j < n; ++j ) { V x = V(); fill( x, r, h ); v.push_back( x ); }
        std::string prefix( r.below( 2 )? r.below( 9 ): 0, 'p' );
        Record rec( id );
        int o = 0;
        flavor_events( rec, o, h2::default_flavor(), true, v, prefix );
        flavor_events( rec, o, h2::big_endian_flavor(), false, v, prefix );
        if( i % 2 ) flavor_events( rec, o, f_u32_little(), false, v, prefix );
        if( i % 2 ) { g_tag = -5; flavor_events( rec, o, f_tagged( -5 ), false, v, prefix ); g_tag = 0; }
        rec.print();
    }
}
// hash_append_size of every integral type
template<class T, class F> void size_event( Record& rec, int& o, F const& f, bool native, T x )
{
    Streams m;
    { RecMin h; h2::hash_append_size( h, f, x ); m.s.insert( RecMin::seen( h ) ); }
    { Rec<u64> h; h2::hash_append_size( h, f, x ); m.s.insert( h.m ); }
    rec.event( ev_new( o, "rec64" ) );
    rec.event( ev_call( o++, jflavor_of<F>( native ), "{\"op\":\"size\",\"v\":" + jval( x ) + "}", m ) );
}
template<class T> void sizes( char const* name )
{
    std::string id = std::string( "sizes " ) + name;
    if( !wanted( id ) ) return;
    Record rec( id );
    Rng r( seed_of( id ) ), h( 1 );
    int o = 0;
    for( int i = 0; i < 3 * g_count; ++i )
    {
        T x = T(); fill( x, r, h );
        size_event( rec, o, h2::default_flavor(), true, x ); size_event( rec, o, h2::big_endian_flavor(), false, x ); size_event( rec, o, h2::little_endian_flavor(), false, x );
        size_event( rec, o, f_u32_big(), false, x ); size_event( rec, o, f_u32_native(), true, x );
    }
    rec.print();
}
// default template arguments: hash_append( h, {}, v )
static void defaults()
{
    if( !wanted( "defaults" ) ) return;
    Record rec( g_cur );
    int o = 0;
    std::string fl = jflavor_of<h2::default_flavor>( true );
    std::vector<int> v; v.push_back( 0x01020304 ); v.push_back( -2 );
    std::string js = jseq( v.begin(), v.end() ), t = jtype<int>();
#define D(EV, call) { RecMin h; call; Streams m; m.s.insert( RecMin::seen( h ) ); rec.event( ev_new( o, "rec64" ) ); rec.event( EV ); ++o; }
    D( ev_app( o, fl, jtype<std::vector<int> >(), js, m ), h2::hash_append( h, {}, v ) )
    D( ev_app( o, fl, t, jval( 77 ), m ), h2::hash_append( h, {}, 77 ) )
    D( ev_call( o, fl, jops( RANGE, t, js ), m ), h2::hash_append_range( h, {}, v.begin(), v.end() ) )
    D( ev_call( o, fl, jops( SIZED, t, js ), m ), h2::hash_append_sized_range( h, {}, v.begin(), v.end() ) )
    D( ev_call( o, fl, jops( UNO, t, js ), m ), h2::hash_append_unordered_range( h, {}, v.begin(), v.end() ) )
    D( ev_call( o, fl, jsize( 9 ), m ), h2::hash_append_size( h, {}, 9 ) )
    // temporaries, string literals, initializer lists
    D( ev_app( o, fl, "{\"k\":\"arr\",\"e\":" + jtype<char>() + "}", jval( "lit" ), m ), h2::hash_append( h, {}, "lit" ) )
    { std::initializer_list<int> il = { 5, 6, 7 }; D( ev_app( o, fl, "{\"k\":\"seq\",\"e\":" + t + "}", jseq( il.begin(), il.end() ), m ), h2::hash_append( h, {}, il ) ) }
#if __cplusplus >= 201703L
    { std::string_view sv( "a view" ); D( ev_app( o, fl, "{\"k\":\"seq\",\"e\":" + jtype<char>() + "}", jseq( sv.begin(), sv.end() ), m ), h2::hash_append( h, {}, sv ) ) }
#endif
    rec.print();
}
// an iterator whose reference is another arithmetic type: its elements are values of its value type
static void converting()
{
    if( !wanted( "converting" ) ) return;
    Record rec( g_cur );
    int o = 0;
    long const x[] = { 1, -2, 300 };
    std::string fl = jflavor_of<h2::big_endian_flavor>( false );
    for( int op = 0; op < 3; ++op )
    {
        std::string prefix; Streams m; h2::big_endian_flavor f; Ctx<h2::big_endian_flavor> c = { m, f, prefix };
        go( c, op, It<long, std::input_iterator_tag, int>( x ), It<long, std::input_iterator_tag, int>( x + 3 ) );
        go( c, op, It<long, std::random_access_iterator_tag, short>( x ), It<long, std::random_access_iterator_tag, short>( x + 3 ) );
        go( c, op, It<long, std::forward_iterator_tag, long long>( x ), It<long, std::forward_iterator_tag, long long>( x + 3 ) );
        rec.event( ev_new( o, "rec64" ) );
        rec.event( ev_call( o++, fl, jops( op, jtype<long>(), jseq( x, x + 3 ) ), m ) );
    }
    rec.print();
}

int main( int argc, char** argv )
{
    start( argc, argv );
    using namespace ut;
#define L(...) elems<__VA_ARGS__>( #__VA_ARGS__ );
#if P(0)
    L(u8) L(int)
#endif
#if P(1)
    L(char) L(std::string) L(bool)
#endif
#if P(2)
    L(double) L(e_mod) L(X1)
#endif
#if P(3)
    L(u64) L(X4) L(std::vector<short>)
#endif
#if P(4)
    L(short) L(U2) typedef std::pair<char, int> pci; L(pci)
#endif
#if P(5)
    sizes<int>( "int" ); sizes<u8>( "u8" ); sizes<u64>( "u64" ); sizes<short>( "short" ); sizes<long>( "long" ); sizes<unsigned>( "unsigned" ); sizes<char>( "char" ); sizes<bool>( "bool" );
    defaults(); converting();
    L(X3) L(float)
#endif
    return 0;
}
