// User-defined types of every kind the documentation describes.
#ifndef VERIF_APPEND_TYPES_HPP
#define VERIF_APPEND_TYPES_HPP
#include "append.hpp"

namespace ut {

enum e_u8: unsigned char { e8a = 1 };
enum e_i8: signed char {};
enum class e_i16: short { x = -3 };
enum class e_u32: unsigned { x = 0x80000001u };
enum class e_u64: std::uint64_t { x };
enum e_plain { e_pmin = -2147483647 - 1, e_p0 = 0, e_p1 = 77, e_pmax = 2147483647 };
enum class e_bool: bool { n, y };
enum class e_char: char { a };

// the documentation's enumeration with a weaker equality: not trivially equality comparable
enum class e_mod: unsigned { x };
inline bool operator==( e_mod a, e_mod b ) { return static_cast<unsigned>( a ) % 256 == static_cast<unsigned>( b ) % 256; }
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, e_mod const& v )
{ h2::hash_append( h, f, static_cast<unsigned>( v ) % 256 ); }
// declared not trivially equality comparable, without an overload: converted like other enumerations
enum class e_slow: short { x };

// classes with tag_invoke
class U1
{
public:
    std::string a; int b; void const* c;
    U1(): b(), c() {}
    template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, U1 const& v )
    { h2::hash_append( h, f, v.a ); h2::hash_append( h, f, v.b ); }
};
// uses the range entry points, and the flavor's own state
class U2
{
public:
    std::uint8_t n; short d[ 8 ];
    U2(): n() { for( int i = 0; i < 8; ++i ) d[i] = static_cast<short>( 0x5a5a + i ); }
    template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, U2 const& v )
    {
        h2::hash_append( h, f, tag_of( f ) );
        h2::hash_append_range( h, f, v.d, v.d + v.n ); h2::hash_append_size( h, f, v.n );
    }
};
// direct update, unordered
class U3
{
public:
    std::vector<unsigned> s; u8 raw[ 3 ];
    U3() { raw[0] = raw[1] = raw[2] = 0; }
    template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, U3 const& v )
    {
        h.update( v.raw, 3 );
        h2::hash_append_unordered_range( h, f, v.s.begin(), v.s.end() );
        h2::hash_append_sized_range( h, f, v.s.begin(), v.s.end() );
    }
};
// kinds of types with an overload of their own, which takes precedence
struct URange
{
    std::vector<int> v;
    typedef std::vector<int>::const_iterator const_iterator;
    const_iterator begin() const { return v.begin(); }
    const_iterator end() const { return v.end(); }
    int const* data() const { return v.data(); }
    std::size_t size() const { return v.size(); }
    template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, URange const& x )
    { h2::hash_append( h, f, static_cast<short>( x.v.empty()? -1: x.v[0] ) ); }
};
// trivially equality comparable because the user says so
struct X1 { int v; };
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, X1 const& x ) { h2::hash_append( h, f, x.v ); }
struct X2 { std::uint16_t a, b; };                        // also through a range, array, member
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, X2 const& x ) { h2::hash_append( h, f, x.a ); h2::hash_append( h, f, x.b ); }
struct X3 { u8 a, b, c; };                                // endian independent as well
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, X3 const& x ) { h2::hash_append( h, f, x.a ); h2::hash_append( h, f, x.b ); h2::hash_append( h, f, x.c ); }
// endian independent, but with an equality of its own
struct X4 { u8 a, b; };
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, X4 const& x ) { h2::hash_append( h, f, static_cast<u8>( x.a & 15 ) ); }
struct X5 { u8 a; };                                      // one byte, an equality of its own
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, X5 const& x ) { h2::hash_append( h, f, static_cast<u8>( x.a & 15 ) ); }

// a pointer-like member, padding everywhere
struct PadT { char a; double b; short c; long d; bool e; };
template<class H, class F> void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, PadT const& x )
{ h2::hash_append( h, f, x.a ); h2::hash_append( h, f, x.b ); h2::hash_append( h, f, x.c ); h2::hash_append( h, f, x.d ); h2::hash_append( h, f, x.e ); }

// constant-size ranges of the user's, declared so: contiguous and not
struct CSize
{
    short d[ 3 ];
    short const* begin() const { return d; }
    short const* end() const { return d + 3; }
    short const* data() const { return d; }
    std::size_t size() const { return 3; }
    short const& front() const { return d[0]; }
};
struct CList
{
    std::list<int> l;
    CList(): l( 3 ) {}
    typedef std::list<int>::const_iterator const_iterator;
    const_iterator begin() const { return l.begin(); }
    const_iterator end() const { return l.end(); }
};
// an empty one
struct CNone
{
    int const* begin() const { return 0; }
    int const* end() const { return 0; }
};
// not declared: has a size
struct NotDeclared: CSize { };

// tuple-like of the user's
struct Tup3 { int a; char b; double c; };
template<std::size_t I> struct TG;
template<> struct TG<0> { static int const& g( Tup3 const& t ) { return t.a; } };
template<> struct TG<1> { static char const& g( Tup3 const& t ) { return t.b; } };
template<> struct TG<2> { static double const& g( Tup3 const& t ) { return t.c; } };
template<std::size_t I> auto get( Tup3 const& t ) -> decltype( TG<I>::g( t ) ) { return TG<I>::g( t ); }

#if defined(BOOST_DESCRIBE_CXX14)
struct D0 {};
BOOST_DESCRIBE_STRUCT( D0, (), () )
struct D1 { int a; };
BOOST_DESCRIBE_STRUCT( D1, (), (a) )
struct D2: public D1 { int b; };
BOOST_DESCRIBE_STRUCT( D2, (D1), (b) )
// bases and members of many types, padding, an empty base
struct D3: D0, D2 { char c; std::vector<short> v; double d; };
BOOST_DESCRIBE_STRUCT( D3, (D0, D2), (c, v, d) )
// members the same type as a base; protected and private parts; order as described, not as declared
class D4: protected D1, private D0
{
public:
    D4(): p_(), q_(), r_() {}
    int p_;
protected:
    char q_;
private:
    float r_;
    std::string s_;
    friend struct Access4;
    BOOST_DESCRIBE_CLASS( D4, (D1, D0), (p_), (q_), (r_, s_) )
};
struct Access4
{
    static char& q( D4& d ) { return d.q_; } static float& r( D4& d ) { return d.r_; } static std::string& s( D4& d ) { return d.s_; }
    static char const& q( D4 const& d ) { return d.q_; } static float const& r( D4 const& d ) { return d.r_; } static std::string const& s( D4 const& d ) { return d.s_; }
    static D1& b( D4& d ) { return d; } static D1 const& b( D4 const& d ) { return d; }
};
// only bases
struct D5: D1, D0 {};
BOOST_DESCRIBE_STRUCT( D5, (D1, D0), () )
// a virtual base; members with overloads of their own, arrays, described members
struct VB { short s; VB(): s() {} virtual ~VB() {} };
BOOST_DESCRIBE_STRUCT( VB, (), (s) )
struct D6: virtual VB, D2 { int m[ 2 ]; D1 d; D0 z; U1 u; D6() { m[0] = m[1] = 0; d.a = 0; } };
BOOST_DESCRIBE_STRUCT( D6, (VB, D2), (m, d, z, u) )
// described as only a part of its members, with functions and statics
struct D7 { int a; int secret; static int st; int f() const { return 1; } };
BOOST_DESCRIBE_STRUCT( D7, (), (a, f) )
// described, and declared trivially equality comparable
struct D8 { int a; unsigned b; };
BOOST_DESCRIBE_STRUCT( D8, (), (a, b) )
// described, with an overload of its own
struct D9
{
    int a, b;
    template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, D9 const& x ) { h2::hash_append( h, f, x.b ); }
};
BOOST_DESCRIBE_STRUCT( D9, (), (a, b) )
#endif

} // namespace ut

namespace boost { namespace hash2 {
template<> struct is_trivially_equality_comparable<ut::e_mod>: std::false_type {};
template<> struct is_trivially_equality_comparable<ut::e_slow>: std::false_type {};
template<> struct is_trivially_equality_comparable<ut::X1>: std::true_type {};
template<> struct is_trivially_equality_comparable<ut::X2>: std::true_type {};
template<> struct is_trivially_equality_comparable<ut::X3>: std::true_type {};
template<> struct is_endian_independent<ut::X3>: std::true_type {};
template<> struct is_endian_independent<ut::X4>: std::true_type {};
template<> struct has_constant_size<ut::CSize>: std::true_type {};
template<> struct has_constant_size<ut::CList>: std::true_type {};
template<> struct has_constant_size<ut::CNone>: std::true_type {};
#if defined(BOOST_DESCRIBE_CXX14)
template<> struct is_trivially_equality_comparable<ut::D8>: std::true_type {};
#endif
} }
namespace std {
template<> struct tuple_size<ut::Tup3>: std::integral_constant<std::size_t, 3> {};
template<> struct tuple_element<0, ut::Tup3> { typedef int type; };
template<> struct tuple_element<1, ut::Tup3> { typedef char type; };
template<> struct tuple_element<2, ut::Tup3> { typedef double type; };
}

// ---------------------------------------------------------------- descriptions

template<class T> std::string jcall( char const* op, T const& v ) { return std::string( "{\"op\":\"" ) + op + "\",\"t\":" + jtype<T>() + ",\"v\":" + jval( v ) + "}"; }
template<class T> std::string jcalls( char const* op, std::vector<T> const& v ) { return std::string( "{\"op\":\"" ) + op + "\",\"t\":" + jtype<T>() + ",\"v\":" + jseq( v.begin(), v.end() ) + "}"; }
inline std::string jsize( long long n ) { return std::string( "{\"op\":\"size\",\"v\":" ) + jint( n < 0, n < 0? static_cast<u64>( -( n + 1 ) ) + 1: static_cast<u64>( n ) ) + "}"; }
#define USR_TYPE static std::string type() { return "{\"k\":\"usr\"}"; }

// the value of an enumeration with an overload, as its overload presents it
template<> struct Tr<ut::e_mod, void> { USR_TYPE
    static void fill( ut::e_mod& v, Rng& r, Rng& h ) { v = static_cast<ut::e_mod>( r() % 256 + 256 * ( h() % 4 ) ); }      // equal values, different representations
    static std::string val( ut::e_mod v ) { return "[" + jcall( "value", static_cast<unsigned>( v ) % 256 ) + "]"; } };
template<> struct Tr<ut::e_slow, void> {
    static std::string type() { return "{\"k\":\"enum\",\"slow\":true,\"e\":" + JT(short) + "}"; }
    static void fill( ut::e_slow& v, Rng& r, Rng& h ) { short x = 0; Tr<short>::fill( x, r, h ); v = static_cast<ut::e_slow>( x ); }
    static std::string val( ut::e_slow v ) { return jval( static_cast<short>( v ) ); } };
template<> struct Tr<ut::U1, void> { USR_TYPE
    static void fill( ut::U1& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); Rng g( h() ); ::fill( v.c, g, h ); }
    static std::string val( ut::U1 const& v ) { return "[" + jcall( "value", v.a ) + "," + jcall( "value", v.b ) + "]"; } };
// what U2's overload appends depends on the flavor's tag: 0 for stateless flavors (see run.hpp for f_tagged)
extern int g_tag;
template<> struct Tr<ut::U2, void> { USR_TYPE
    static void fill( ut::U2& v, Rng& r, Rng& h ) { v.n = static_cast<u8>( r.below( 9 ) ); for( int i = 0; i < v.n; ++i ) ::fill( v.d[i], r, h ); for( int i = v.n; i < 8; ++i ) v.d[i] = static_cast<short>( h() ); }
    static std::string val( ut::U2 const& v ) { return "[" + jcall( "value", g_tag ) + "," + jcalls( "range", std::vector<short>( v.d, v.d + v.n ) ) + "," + jsize( v.n ) + "]"; } };
template<> struct Tr<ut::U3, void> { USR_TYPE
    static void fill( ut::U3& v, Rng& r, Rng& h ) { v.s = some<unsigned>( r, h ); for( int i = 0; i < 3; ++i ) ::fill( v.raw[i], r, h ); }
    static std::string val( ut::U3 const& v ) { return "[{\"op\":\"bytes\",\"v\":" + jbytes( v.raw, v.raw + 3 ) + "}," + jcalls( "unordered", v.s ) + "," + jcalls( "sized", v.s ) + "]"; } };
template<> struct Tr<ut::URange, void> { USR_TYPE
    static void fill( ut::URange& v, Rng& r, Rng& h ) { ::fill( v.v, r, h ); }
    static std::string val( ut::URange const& v ) { return "[" + jcall( "value", static_cast<short>( v.v.empty()? -1: v.v[0] ) ) + "]"; } };
template<class T> std::string jraw( T const& v, std::string const& u )
{
    u8 const* p = reinterpret_cast<u8 const*>( &v );
    return "{\"raw\":" + jbytes( p, p + sizeof(T) ) + ",\"v\":" + u + "}";
}
#define RAW_TYPE(ei, ...) static std::string type() { return std::string( "{\"k\":\"raw\",\"ei\":" ei ",\"e\":" ) + __VA_ARGS__ + "}"; }
template<> struct Tr<ut::X1, void> { RAW_TYPE( "false", "{\"k\":\"usr\"}" )
    static void fill( ut::X1& v, Rng& r, Rng& h ) { ::fill( v.v, r, h ); }
    static std::string val( ut::X1 const& v ) { return jraw( v, "[" + jcall( "value", v.v ) + "]" ); } };
template<> struct Tr<ut::X2, void> { RAW_TYPE( "false", "{\"k\":\"usr\"}" )
    static void fill( ut::X2& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); }
    static std::string val( ut::X2 const& v ) { return jraw( v, "[" + jcall( "value", v.a ) + "," + jcall( "value", v.b ) + "]" ); } };
template<> struct Tr<ut::X3, void> { RAW_TYPE( "true", "{\"k\":\"usr\"}" )
    static void fill( ut::X3& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); ::fill( v.c, r, h ); }
    static std::string val( ut::X3 const& v ) { return jraw( v, "[" + jcall( "value", v.a ) + "," + jcall( "value", v.b ) + "," + jcall( "value", v.c ) + "]" ); } };
template<> struct Tr<ut::X4, void> { static std::string type() { return "{\"k\":\"usr\",\"ei\":true}"; }
    static void fill( ut::X4& v, Rng& r, Rng& h ) { v.a = static_cast<u8>( r() % 16 + 16 * ( h() % 16 ) ); v.b = static_cast<u8>( h() ); }
    static std::string val( ut::X4 const& v ) { return "[" + jcall( "value", static_cast<u8>( v.a & 15 ) ) + "]"; } };
template<> struct Tr<ut::X5, void> { USR_TYPE
    static void fill( ut::X5& v, Rng& r, Rng& h ) { v.a = static_cast<u8>( r() % 16 + 16 * ( h() % 16 ) ); }
    static std::string val( ut::X5 const& v ) { return "[" + jcall( "value", static_cast<u8>( v.a & 15 ) ) + "]"; } };
template<> struct Tr<ut::PadT, void> { USR_TYPE
    static void fill( ut::PadT& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); ::fill( v.c, r, h ); ::fill( v.d, r, h ); ::fill( v.e, r, h ); }
    static std::string val( ut::PadT const& v ) { return "[" + jcall( "value", v.a ) + "," + jcall( "value", v.b ) + "," + jcall( "value", v.c ) + "," + jcall( "value", v.d ) + "," + jcall( "value", v.e ) + "]"; } };
template<> struct Tr<ut::CSize, void> { static std::string type() { return "{\"k\":\"sarr\",\"e\":" + JT(short) + "}"; }
    static void fill( ut::CSize& v, Rng& r, Rng& h ) { ::fill( v.d, r, h ); }
    static std::string val( ut::CSize const& v ) { return jseq( v.d, v.d + 3 ); } };
template<> struct Tr<ut::NotDeclared, void> { static std::string type() { return "{\"k\":\"seq\",\"e\":" + JT(short) + "}"; }
    static void fill( ut::NotDeclared& v, Rng& r, Rng& h ) { ::fill( v.d, r, h ); }
    static std::string val( ut::NotDeclared const& v ) { return jseq( v.d, v.d + 3 ); } };
template<> struct Tr<ut::CList, void> { static std::string type() { return "{\"k\":\"sarr\",\"e\":" + JT(int) + "}"; }
    static void fill( ut::CList& v, Rng& r, Rng& h ) { for( auto& x: v.l ) ::fill( x, r, h ); }
    static std::string val( ut::CList const& v ) { return jseq( v.l.begin(), v.l.end() ); } };
template<> struct Tr<ut::CNone, void> { static std::string type() { return "{\"k\":\"sarr\",\"e\":" + JT(int) + "}"; }
    static void fill( ut::CNone&, Rng&, Rng& ) {}
    static std::string val( ut::CNone const& ) { return "[]"; } };
template<> struct Tr<ut::Tup3, void> { static std::string type() { return "{\"k\":\"tup\",\"es\":[" + JT(int) + "," + JT(char) + "," + JT(double) + "]}"; }
    static void fill( ut::Tup3& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); ::fill( v.c, r, h ); }
    static std::string val( ut::Tup3 const& v ) { return "[" + jval( v.a ) + "," + jval( v.b ) + "," + jval( v.c ) + "]"; } };

#if defined(BOOST_DESCRIBE_CXX14)
inline std::string jcls( std::string const& b, std::string const& m ) { return "{\"b\":[" + b + "],\"m\":[" + m + "]}"; }
inline std::string jclst( std::string const& b, std::string const& m ) { return "{\"k\":\"cls\",\"bs\":[" + b + "],\"ms\":[" + m + "]}"; }
#define CLS_TYPE(b, m) static std::string type() { return jclst( b, m ); }
template<> struct Tr<ut::D0, void> { CLS_TYPE( "", "" )
    static void fill( ut::D0&, Rng&, Rng& ) {}
    static std::string val( ut::D0 const& ) { return jcls( "", "" ); } };
template<> struct Tr<ut::D1, void> { CLS_TYPE( "", JT(int) )
    static void fill( ut::D1& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); }
    static std::string val( ut::D1 const& v ) { return jcls( "", jval( v.a ) ); } };
template<> struct Tr<ut::D2, void> { CLS_TYPE( JT(ut::D1), JT(int) )
    static void fill( ut::D2& v, Rng& r, Rng& h ) { ::fill( static_cast<ut::D1&>( v ), r, h ); ::fill( v.b, r, h ); }
    static std::string val( ut::D2 const& v ) { return jcls( jval<ut::D1>( v ), jval( v.b ) ); } };
template<> struct Tr<ut::D3, void> { CLS_TYPE( JT(ut::D0) + "," + JT(ut::D2), JT(char) + "," + JT(std::vector<short>) + "," + JT(double) )
    static void fill( ut::D3& v, Rng& r, Rng& h ) { ::fill( static_cast<ut::D2&>( v ), r, h ); ::fill( v.c, r, h ); ::fill( v.v, r, h ); ::fill( v.d, r, h ); }
    static std::string val( ut::D3 const& v ) { return jcls( jval<ut::D0>( v ) + "," + jval<ut::D2>( v ), jval( v.c ) + "," + jval( v.v ) + "," + jval( v.d ) ); } };
template<> struct Tr<ut::D4, void> { CLS_TYPE( JT(ut::D1) + "," + JT(ut::D0), JT(int) + "," + JT(char) + "," + JT(float) + "," + JT(std::string) )
    typedef ut::Access4 A;
    static void fill( ut::D4& v, Rng& r, Rng& h ) { ::fill( A::b( v ), r, h ); ::fill( v.p_, r, h ); ::fill( A::q( v ), r, h ); ::fill( A::r( v ), r, h ); ::fill( A::s( v ), r, h ); }
    static std::string val( ut::D4 const& v ) { return jcls( jval( A::b( v ) ) + "," + jval( ut::D0() ), jval( v.p_ ) + "," + jval( A::q( v ) ) + "," + jval( A::r( v ) ) + "," + jval( A::s( v ) ) ); } };
template<> struct Tr<ut::D5, void> { CLS_TYPE( JT(ut::D1) + "," + JT(ut::D0), "" )
    static void fill( ut::D5& v, Rng& r, Rng& h ) { ::fill( static_cast<ut::D1&>( v ), r, h ); }
    static std::string val( ut::D5 const& v ) { return jcls( jval<ut::D1>( v ) + "," + jval<ut::D0>( v ), "" ); } };
template<> struct Tr<ut::VB, void> { CLS_TYPE( "", JT(short) )
    static void fill( ut::VB& v, Rng& r, Rng& h ) { ::fill( v.s, r, h ); }
    static std::string val( ut::VB const& v ) { return jcls( "", jval( v.s ) ); } };
template<> struct Tr<ut::D6, void> { CLS_TYPE( JT(ut::VB) + "," + JT(ut::D2), JT(int[2]) + "," + JT(ut::D1) + "," + JT(ut::D0) + "," + JT(ut::U1) )
    static void fill( ut::D6& v, Rng& r, Rng& h ) { ::fill( static_cast<ut::VB&>( v ), r, h ); ::fill( static_cast<ut::D2&>( v ), r, h ); ::fill( v.m, r, h ); ::fill( v.d, r, h ); ::fill( v.u, r, h ); }
    static std::string val( ut::D6 const& v ) { return jcls( jval<ut::VB>( v ) + "," + jval<ut::D2>( v ), jval( v.m ) + "," + jval( v.d ) + "," + jval( v.z ) + "," + jval( v.u ) ); } };
template<> struct Tr<ut::D7, void> { CLS_TYPE( "", JT(int) )
    static void fill( ut::D7& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); v.secret = static_cast<int>( h() ); }
    static std::string val( ut::D7 const& v ) { return jcls( "", jval( v.a ) ); } };
template<> struct Tr<ut::D8, void> { RAW_TYPE( "false", jclst( "", JT(int) + "," + JT(unsigned) ) )
    static void fill( ut::D8& v, Rng& r, Rng& h ) { ::fill( v.a, r, h ); ::fill( v.b, r, h ); }
    static std::string val( ut::D8 const& v ) { return jraw( v, jcls( "", jval( v.a ) + "," + jval( v.b ) ) ); } };
template<> struct Tr<ut::D9, void> { USR_TYPE
    static void fill( ut::D9& v, Rng& r, Rng& h ) { ::fill( v.b, r, h ); v.a = static_cast<int>( h() ); }
    static std::string val( ut::D9 const& v ) { return "[" + jcall( "value", v.b ) + "]"; } };
#endif
#endif
