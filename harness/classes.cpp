// Class types of every category the language distinguishes (standard layout or not, trivial or not, unions, bit
// fields, final, comparable, convertible, range- and tuple-like), of every small size.  Each has an overload that
// appends the low bits of one member only: none of them is ever passed as storage.
#define MODE 0
#include "append_run.hpp"
#ifndef PART
#define PART 0
#endif
#if __cplusplus > 201703L
#include <compare>
#endif
namespace cc {
enum kind { aggregate, hidden, ctor, derived, virt, uni, bits, fin, conv, equal, deflt, range, tuple, emptybase, volat, copyctor, explicit_bool, member_array, last };

template<class U, int N, int Kind> struct K;
#define FRIEND_TAG(...) template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, __VA_ARGS__ const& x ) { h2::hash_append( h, f, static_cast<U>( x.get() & 1 ) ); }
#define SPEC(k) template<class U, int N> struct K<U, N, k>
#define BODY(k) FRIEND_TAG( K ) U get() const { return a; } void set( U x, Rng& h ) { a = x; for( int i = 0; i < N; ++i ) z[ i ] = static_cast<U>( h() ); }
SPEC( aggregate ) { U a; U z[ N ]; BODY( aggregate ) };
SPEC( hidden ) { private: U z[ N ]; public: U a; BODY( hidden ) };
SPEC( ctor ) { U a; U z[ N ]; K(): a( 1 ) {} BODY( ctor ) };
template<class U> struct Base { U a; };
SPEC( derived ): Base<U> { U z[ N ]; using Base<U>::a; BODY( derived ) };
SPEC( virt ) { U a; U z[ N ]; virtual ~K() {} BODY( virt ) };
SPEC( uni ) { union { U a; U b; }; U z[ N ]; BODY( uni ) };
SPEC( bits ) { U a: 4; U b: 3; U z[ N ]; FRIEND_TAG( K ) U get() const { return a; } void set( U x, Rng& h ) { a = x & 7; b = h() & 7; for( int i = 0; i < N; ++i ) z[ i ] = static_cast<U>( h() ); } };
SPEC( fin ) final { U a; U z[ N ]; BODY( fin ) };
SPEC( conv ) { U a; U z[ N ]; operator U() const { return a; } BODY( conv ) };
SPEC( equal ) { U a; U z[ N ]; friend bool operator==( K const& x, K const& y ) { return ( x.a & 1 ) == ( y.a & 1 ); } BODY( equal ) };
#if __cplusplus > 201703L
SPEC( deflt ) { U a; U z[ N ]; bool operator==( K const& ) const = default; std::strong_ordering operator<=>( K const& ) const = default; BODY( deflt ) };
#else
SPEC( deflt ) { U a; U z[ N ]; friend bool operator==( K const& x, K const& y ) { return x.a == y.a && x.z[0] == y.z[0]; } friend bool operator<( K const& x, K const& y ) { return x.a < y.a; } BODY( deflt ) };
#endif
SPEC( range ) { U a; U z[ N ]; U const* begin() const { return z; } U const* end() const { return z + N; } U const* data() const { return z; } std::size_t size() const { return N; } BODY( range ) };
SPEC( tuple ) { U a; U z[ N ]; BODY( tuple ) };
struct Empty1 {}; struct Empty2 {};
SPEC( emptybase ): Empty1, Empty2 { U a; U z[ N ]; BODY( emptybase ) };
SPEC( volat ) { U volatile a; U z[ N ]; K() {} K( K const& x ): a( x.a ) { for( int i = 0; i < N; ++i ) z[ i ] = x.z[ i ]; } K& operator=( K const& x ) { a = x.a; for( int i = 0; i < N; ++i ) z[ i ] = x.z[ i ]; return *this; } BODY( volat ) };
SPEC( copyctor ) { U a; U z[ N ]; K() {} K( K const& x ): a( x.a ) { z[ 0 ] = 0; } K& operator=( K const& x ) { a = x.a; return *this; } BODY( copyctor ) };
SPEC( explicit_bool ) { U a; U z[ N ]; explicit operator bool() const { return a != 0; } BODY( explicit_bool ) };
SPEC( member_array ) { U z[ N ]; U a; K() = default; K( int, int ) {} BODY( member_array ) };

// one object of one member, no room for anything else: the size is the member's
template<class U, int Kind> struct S;
#define SPEC1(k) template<class U> struct S<U, k>
#define BODY1 FRIEND_TAG( S ) U get() const { return a; } void set( U x, Rng& h ) { a = static_cast<U>( ( x & 1 ) + 2 * ( h() % 64 ) ); }
SPEC1( aggregate ) { U a; BODY1 };
SPEC1( hidden ) { private: U a; public: BODY1 };
SPEC1( ctor ) { U a; S(): a() {} explicit S( U x ): a( x ) {} BODY1 };
SPEC1( derived ): Base<U> { using Base<U>::a; BODY1 };
SPEC1( bits ) { U a: 4; private: U b: 3; public: FRIEND_TAG( S ) U get() const { return a; } void set( U x, Rng& h ) { a = x & 7; b = h() & 7; } };
SPEC1( uni ) { union { U a; signed char c; }; BODY1 };
SPEC1( fin ) final { U a; BODY1 };
SPEC1( conv ) { U a; operator U() const { return a; } BODY1 };
SPEC1( equal ) { U a; friend bool operator==( S const& x, S const& y ) { return ( x.a & 1 ) == ( y.a & 1 ); } BODY1 };
SPEC1( emptybase ): Empty1, private Empty2 { U a; BODY1 };
SPEC1( copyctor ) { U a; S() {} S( S const& x ): a( x.a ) {} S& operator=( S const& x ) { a = x.a; return *this; } BODY1 };
SPEC1( range ) { U a; U const* begin() const { return &a; } U const* end() const { return &a + 1; } U const* data() const { return &a; } std::size_t size() const { return 1; } BODY1 };
SPEC1( explicit_bool ) { U a; explicit operator bool() const { return a != 0; } BODY1 };
template<class U, int N> union Un { U a; U z[ N ]; FRIEND_TAG( Un ) U get() const { return a; } void set( U x, Rng& ) { for( int i = 0; i < N; ++i ) z[ i ] = x; } };
template<class T> struct is_tuple: std::false_type {}; template<class U, int N> struct is_tuple<K<U, N, tuple> >: std::true_type {};
template<class T> struct value; template<class U, int N, int k> struct value<K<U, N, k> > { typedef U type; }; template<class U, int k> struct value<S<U, k> > { typedef U type; };
template<class U, int N> struct value<Un<U, N> > { typedef U type; };
}
namespace std {
template<class U, int N> struct tuple_size<cc::K<U, N, cc::tuple> >: std::integral_constant<std::size_t, 2> {};
}
template<class T> struct Tr<T, typename std::enable_if<(sizeof( typename cc::value<T>::type ) > 0)>::type>
{
    typedef typename cc::value<T>::type U;
    static std::string type() { return "{\"k\":\"usr\"" + std::string( cc::is_tuple<T>::value? ",\"cs\":true": "" ) + "}"; }
    static void fill( T& v, Rng& r, Rng& h ) { U u = U(); ::fill( u, r, h ); v.set( u, h ); }
    static std::string val( T const& v ) { return "[" + jcall( "value", static_cast<U>( v.get() & 1 ) ) + "]"; }
};
template<class T> void each( char const* name )
{
    std::string n( name );
    entry<T>( name );
    entry<T[ 3 ]>( ( n + "[3]" ).c_str() );
    entry<std::vector<T> >( ( "vector<" + n + ">" ).c_str() );
    entry<std::array<T, 2> >( ( "array<" + n + ",2>" ).c_str() );
}
#define EK(...) each<cc::__VA_ARGS__>( #__VA_ARGS__ );
int main( int argc, char** argv )
{
    start( argc, argv );
    using namespace cc;
    typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t v64; (void)sizeof( u16 ); (void)sizeof( u32 ); (void)sizeof( v64 );
#if PART == 0
#define EACH1(U) EK( S<U, aggregate> ) EK( S<U, hidden> ) EK( S<U, ctor> ) EK( S<U, derived> ) EK( S<U, bits> ) EK( S<U, uni> ) EK( S<U, fin> ) EK( S<U, conv> ) EK( S<U, equal> ) EK( S<U, emptybase> ) EK( S<U, copyctor> ) EK( S<U, range> ) EK( S<U, explicit_bool> )
    EACH1( u8 )
#elif PART == 1
#define EACHN(U, N) EK( K<U, N, aggregate> ) EK( K<U, N, hidden> ) EK( K<U, N, derived> ) EK( K<U, N, bits> ) EK( K<U, N, deflt> ) EK( K<U, N, tuple> ) EK( K<U, N, emptybase> ) EK( K<U, N, member_array> ) EK( Un<U, N> )
    EACHN( u8, 1 ) EACHN( u8, 3 )
#elif PART == 2
#define EACHM(U, N) EK( S<U, hidden> ) EK( S<U, conv> ) EK( S<U, fin> ) EK( K<U, N, aggregate> ) EK( K<U, N, ctor> ) EK( K<U, N, hidden> ) EK( K<U, N, derived> ) EK( K<U, N, deflt> )
    EACHM( u16, 1 ) EACHM( v64, 1 )
#else
    EK( K<u8, 7, virt> ) EK( K<u32, 1, uni> ) EK( K<u32, 1, fin> ) EK( K<u32, 3, conv> ) EK( K<u32, 1, equal> ) EK( K<u32, 2, range> ) EK( K<u32, 1, volat> ) EK( K<u32, 1, copyctor> ) EK( K<u32, 1, explicit_bool> ) EK( Un<u32, 2> ) EK( Un<v64, 1> )
    EK( S<u32, hidden> ) EK( S<u32, derived> ) EK( S<u32, uni> ) EK( K<u16, 3, aggregate> ) EK( K<v64, 1, hidden> ) EK( S<v64, aggregate> )
#endif
    return 0;
}
