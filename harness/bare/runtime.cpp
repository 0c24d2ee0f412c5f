// What the harnesses need of a C and C++ runtime, for targets that have none here: i386 (Linux system calls) and
// mips64 (harness/bare/mips64.cpp).  One thread, no exceptions.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <list>
#include <set>
#include <unordered_set>
#include <stdexcept>
#include <iostream>
typedef unsigned char u8;
typedef std::uint64_t u64;
namespace std { BareOut cout; }

static long sys( long n, long a, long b, long c )
{
#if defined(__mips__)
    register long v0 __asm__( "$2" ) = n;
    register long a0 __asm__( "$4" ) = a;
    register long a1 __asm__( "$5" ) = b;
    register long a2 __asm__( "$6" ) = c;
    register long a3 __asm__( "$7" );
    __asm__ volatile( "syscall" : "+r"( v0 ), "=r"( a3 ) : "r"( a0 ), "r"( a1 ), "r"( a2 ) : "memory" );
    return v0;
#elif defined(__i386__)
    long r;
    __asm__ volatile( "int $0x80" : "=a"( r ) : "a"( n ), "b"( a ), "c"( b ), "d"( c ) : "memory" );
    return r;
#else
# error "no such target"
#endif
}
#if defined(__mips__)
enum { sys_write = 5001, sys_exit = 5058 };
#else
enum { sys_write = 4, sys_exit = 1 };
#endif

extern "C"
{
// ---------------------------------------------------------------- memory
#pragma GCC optimize( "no-tree-loop-distribute-patterns" )
void* memcpy( void* d, void const* s, std::size_t n ) { u8 volatile* p = static_cast<u8*>( d ); u8 const* q = static_cast<u8 const*>( s ); while( n-- ) *p++ = *q++; return d; }
void* memmove( void* d, void const* s, std::size_t n )
{
    u8 volatile* p = static_cast<u8*>( d ); u8 const* q = static_cast<u8 const*>( s );
    if( p < q ) while( n-- ) *p++ = *q++; else while( n-- ) p[ n ] = q[ n ];
    return d;
}
void* memset( void* d, int v, std::size_t n ) { u8 volatile* p = static_cast<u8*>( d ); while( n-- ) *p++ = static_cast<u8>( v ); return d; }
wchar_t* wmemcpy( wchar_t* d, wchar_t const* s, std::size_t n ) { return static_cast<wchar_t*>( memcpy( d, s, n * sizeof( wchar_t ) ) ); }
wchar_t* wmemmove( wchar_t* d, wchar_t const* s, std::size_t n ) { return static_cast<wchar_t*>( memmove( d, s, n * sizeof( wchar_t ) ) ); }
int wmemcmp( wchar_t const* a, wchar_t const* b, std::size_t n ) { for( ; n--; ++a, ++b ) if( *a != *b ) return *a < *b? -1: 1; return 0; }
wchar_t* wmemset( wchar_t* d, wchar_t v, std::size_t n ) { for( std::size_t i = 0; i < n; ++i ) d[ i ] = v; return d; }
int memcmp( void const* a, void const* b, std::size_t n ) { u8 const volatile* p = static_cast<u8 const*>( a ); u8 const* q = static_cast<u8 const*>( b ); for( ; n--; ++p, ++q ) if( *p != *q ) return *p < *q? -1: 1; return 0; }
void* memchr( void const* a, int c, std::size_t n ) { u8 const volatile* p = static_cast<u8 const*>( a ); for( ; n--; ++p ) if( *p == static_cast<u8>( c ) ) return const_cast<u8*>( p ); return nullptr; }
std::size_t strlen( char const* s ) { char const volatile* p = s; std::size_t n = 0; while( *p++ ) ++n; return n; }
int bcmp( void const* a, void const* b, std::size_t n ) { return memcmp( a, b, n ); }
int strcmp( char const* a, char const* b ) { while( *a && *a == *b ) ++a, ++b; return static_cast<u8>( *a ) - static_cast<u8>( *b ); }

// ---------------------------------------------------------------- output, end
static char g_out[ 1 << 16 ];
static std::size_t g_fill;
static void flush() { std::size_t i = 0; while( i < g_fill ) { long k = sys( sys_write, 1, reinterpret_cast<long>( g_out + i ), static_cast<long>( g_fill - i ) ); if( k <= 0 ) break; i += static_cast<std::size_t>( k ); } g_fill = 0; }
void bare_write( char const* p, std::size_t n ) { while( n-- ) { if( g_fill == sizeof g_out ) flush(); g_out[ g_fill++ ] = *p++; } }
long write( int, void const* p, std::size_t n ) { bare_write( static_cast<char const*>( p ), n ); return static_cast<long>( n ); }
void _exit( int c ) { flush(); for( ;; ) sys( sys_exit, c, 0, 0 ); }
[[noreturn]] static void die( char const* what, int code = 65 ) { flush(); sys( sys_write, 2, reinterpret_cast<long>( what ), static_cast<long>( strlen( what ) ) ); sys( sys_write, 2, reinterpret_cast<long>( "\n" ), 1 ); _exit( code ); }
void abort() { die( "abort" ); }
void __assert_fail( char const* e, char const*, unsigned, char const* ) { die( e ); }
void __cxa_pure_virtual() { die( "pure virtual" ); }
int __cxa_atexit( void (*)( void* ), void*, void* ) { return 0; }
int atexit( void (*)() ) { return 0; }
void* __dso_handle = nullptr;
#if defined(__i386__)
u64 __udivmoddi( u64 n, u64 d, u64* rem )
{
    u64 q = 0, r = 0;
    for( int i = 63; i >= 0; --i ) { r = r << 1 | ( n >> i & 1 ); if( r >= d ) { r -= d; q |= 1ull << i; } }
    *rem = r;
    return q;
}
u64 __udivdi3( u64 n, u64 d ) { u64 r; return __udivmoddi( n, d, &r ); }
u64 __umoddi3( u64 n, u64 d ) { u64 r; __udivmoddi( n, d, &r ); return r; }
long long __divdi3( long long n, long long d ) { u64 r, q = __udivmoddi( n < 0? 0 - static_cast<u64>( n ): static_cast<u64>( n ), d < 0? 0 - static_cast<u64>( d ): static_cast<u64>( d ), &r ); return static_cast<long long>( ( n < 0 ) != ( d < 0 )? 0 - q: q ); }
long long __moddi3( long long n, long long d ) { u64 r; __udivmoddi( n < 0? 0 - static_cast<u64>( n ): static_cast<u64>( n ), d < 0? 0 - static_cast<u64>( d ): static_cast<u64>( d ), &r ); return static_cast<long long>( n < 0? 0 - r: r ); }
#endif

// ---------------------------------------------------------------- allocation: powers of two, free lists
static u8 g_heap[ 400u << 20 ] __attribute__(( aligned( 16 ) ));
static std::size_t g_top;
static void* g_free[ 32 ];
void* malloc( std::size_t n )
{
    int k = 5;
    while( ( static_cast<std::size_t>( 1 ) << k ) < n + 16 ) ++k;
    u8* p = static_cast<u8*>( g_free[ k ] );
    if( p ) g_free[ k ] = *reinterpret_cast<void**>( p + 16 );
    else { p = g_heap + g_top; g_top += static_cast<std::size_t>( 1 ) << k; if( g_top > sizeof g_heap ) die( "out of memory", 70 ); }
    *reinterpret_cast<int*>( p ) = k;
    return p + 16;
}
void free( void* q )
{
    if( !q ) return;
    u8* p = static_cast<u8*>( q ) - 16;
    int k = *reinterpret_cast<int*>( p );
    memset( q, 0xDB, ( static_cast<std::size_t>( 1 ) << k ) - 16 );
    *static_cast<void**>( q ) = g_free[ k ]; g_free[ k ] = p;
}

// ---------------------------------------------------------------- text
static std::size_t put_int( char* o, std::size_t cap, std::size_t at, bool neg, u64 v, unsigned base, int width )
{
    char t[ 24 ]; int n = 0;
    do { unsigned d = static_cast<unsigned>( v % base ); t[ n++ ] = static_cast<char>( d < 10? '0' + d: 'a' + d - 10 ); v /= base; } while( v );
    while( n < width && n < 20 ) t[ n++ ] = '0';
    if( neg ) t[ n++ ] = '-';
    while( n ) { --n; if( at + 1 < cap ) o[ at ] = t[ n ]; ++at; }
    return at;
}
int vsnprintf( char* o, std::size_t cap, char const* f, va_list a )
{
    std::size_t at = 0;
    for( ; *f; ++f )
    {
        if( *f != '%' ) { if( at + 1 < cap ) o[ at ] = *f; ++at; continue; }
        int width = 0, l = 0;
        ++f;
        while( *f >= '0' && *f <= '9' ) width = width * 10 + ( *f++ - '0' );
        while( *f == 'l' || *f == 'z' ) { l += *f == 'z'? ( sizeof( std::size_t ) == 8? 2: 0 ): 1; ++f; }
        if( *f == 's' ) { for( char const* s = va_arg( a, char const* ); *s; ++s ) { if( at + 1 < cap ) o[ at ] = *s; ++at; } continue; }
        if( *f == 'c' ) { if( at + 1 < cap ) o[ at ] = static_cast<char>( va_arg( a, int ) ); ++at; continue; }
        if( *f == 'd' )
        {
            long long v = l >= 2? va_arg( a, long long ): l == 1? va_arg( a, long ): va_arg( a, int );
            at = put_int( o, cap, at, v < 0, v < 0? 0 - static_cast<u64>( v ): static_cast<u64>( v ), 10, width );
        }
        else if( *f == 'u' || *f == 'x' )
        {
            u64 v = l >= 2? va_arg( a, unsigned long long ): l == 1? va_arg( a, unsigned long ): va_arg( a, unsigned );
            at = put_int( o, cap, at, false, v, *f == 'x'? 16: 10, width );
        }
        else die( "printf", 70 );
    }
    if( cap ) o[ at < cap? at: cap - 1 ] = 0;
    return static_cast<int>( at );
}
int snprintf( char* o, std::size_t cap, char const* f, ... ) { va_list a; va_start( a, f ); int r = vsnprintf( o, cap, f, a ); va_end( a ); return r; }
int printf( char const* f, ... )
{
    static char t[ 1 << 22 ];
    va_list a; va_start( a, f );
    int r = vsnprintf( t, sizeof t, f, a );
    va_end( a );
    if( r < 0 || static_cast<std::size_t>( r ) >= sizeof t ) die( "printf: too long", 70 );
    bare_write( t, static_cast<std::size_t>( r ) );
    return r;
}
int puts( char const* s ) { bare_write( s, strlen( s ) ); bare_write( "\n", 1 ); return 0; }
int putchar( int c ) { char x = static_cast<char>( c ); bare_write( &x, 1 ); return c; }
unsigned long long strtoull( char const* s, char** e, int ) { u64 v = 0; while( *s >= '0' && *s <= '9' ) v = v * 10 + static_cast<unsigned>( *s++ - '0' ); if( e ) *e = const_cast<char*>( s ); return v; }
unsigned long strtoul( char const* s, char** e, int b ) { return static_cast<unsigned long>( strtoull( s, e, b ) ); }
long long __isoc23_strtoll( char const* s, char** e, int b ) { return static_cast<long long>( strtoull( s, e, b ) ); }
long strtol( char const* s, char** e, int b ) { bool n = *s == '-'; long v = static_cast<long>( strtoull( s + n, e, b ) ); return n? -v: v; }
int atoi( char const* s ) { return static_cast<int>( strtol( s, nullptr, 10 ) ); }
void (*signal( int, void (*h)( int ) ))( int ) { return h; }

char __libc_single_threaded = 1;

// ---------------------------------------------------------------- floating point
double ldexp( double x, int e )
{
    double two = 2;
    if( x == 0 || x != x || x - x != 0 ) return x;
    for( ; e > 0 && x - x == 0; --e ) x *= two;
    for( ; e < 0 && x != 0; ++e )
    {
        // halve by whole steps while it is exact; the last steps at once, to round once
        double y = x < 0? -x: x;
        if( y < 0x1p-1021 && e < 0 ) { double h = 1; int k = e; for( ; k < 0 && h > 0x1p-1022; ++k ) h *= 0.5; return k == 0? x * h: x * 0; }
        x *= 0.5;
    }
    return x;
}
float ldexpf( float x, int e ) { double y = ldexp( static_cast<double>( x ), e ); return static_cast<float>( y ); }
double frexp( double x, int* e )
{
    *e = 0;
    if( x == 0 || x != x || x - x != 0 ) return x;
    double y = x < 0? -x: x;
    while( y >= 1 ) { y *= 0.5; ++*e; }
    while( y < 0.5 ) { y *= 2; --*e; }
    return x < 0? -y: y;
}
double ceil( double x ) { double const big = 4503599627370496.0; if( x != x || x >= big || x <= -big ) return x; long long k = static_cast<long long>( x ); double y = static_cast<double>( k ); return y < x? y + 1: y; }
float ceilf( float x ) { return static_cast<float>( ceil( x ) ); }
float frexpf( float x, int* e ) { return static_cast<float>( frexp( static_cast<double>( x ), e ) ); }
}

void* operator new( std::size_t n ) { return malloc( n ); }
void* operator new[]( std::size_t n ) { return malloc( n ); }
void operator delete( void* p ) noexcept { free( p ); }
void operator delete[]( void* p ) noexcept { free( p ); }
void operator delete( void* p, std::size_t ) noexcept { free( p ); }
void operator delete[]( void* p, std::size_t ) noexcept { free( p ); }

namespace std
{
void __throw_length_error( char const* s ) { die( s ); }
void __throw_logic_error( char const* s ) { die( s ); }
void __throw_out_of_range( char const* s ) { die( s ); }
void __throw_out_of_range_fmt( char const* s, ... ) { die( s ); }
void __throw_invalid_argument( char const* s ) { die( s ); }
void __throw_bad_alloc() { die( "bad_alloc" ); }
void __throw_bad_array_new_length() { die( "bad_array_new_length" ); }
void __throw_bad_function_call() { die( "bad_function_call" ); }
void __throw_bad_cast() { die( "bad_cast" ); }
#if __cplusplus >= 201703L
void __throw_bad_optional_access() { die( "bad_optional_access" ); }
#endif
void __glibcxx_assert_fail( char const* , int, char const*, char const* e ) noexcept { die( e? e: "assertion" ); }
void terminate() noexcept { die( "terminate" ); }
bool uncaught_exception() noexcept { return false; }
void __throw_ios_failure( char const* s ) { die( s ); }
void ctype<char>::_M_widen_init() const { die( "locale", 70 ); }

// trees: ordered, without balancing
_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw()
{
    if( x->_M_right ) { x = x->_M_right; while( x->_M_left ) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while( x == y->_M_right ) { x = y; y = y->_M_parent; }
    return x->_M_right != y? y: x;
}
_Rb_tree_node_base const* _Rb_tree_increment( _Rb_tree_node_base const* x ) throw() { return _Rb_tree_increment( const_cast<_Rb_tree_node_base*>( x ) ); }
_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw()
{
    if( x->_M_color == _S_red && x->_M_parent->_M_parent == x && !( x->_M_parent == x ) ) return x->_M_right;
    if( x->_M_left ) { x = x->_M_left; while( x->_M_right ) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while( x == y->_M_left ) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base const* _Rb_tree_decrement( _Rb_tree_node_base const* x ) throw() { return _Rb_tree_decrement( const_cast<_Rb_tree_node_base*>( x ) ); }
void _Rb_tree_insert_and_rebalance( bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw()
{
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;      // the header alone is red
    if( left )
    {
        p->_M_left = x;
        if( p == &h ) { h._M_parent = x; h._M_right = x; }
        else if( p == h._M_left ) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if( p == h._M_right ) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base*, _Rb_tree_node_base& ) throw() { die( "erase from a tree", 70 ); }

namespace __detail
{
void _List_node_base::_M_hook( _List_node_base* p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer( _List_node_base* f, _List_node_base* l ) noexcept
{
    if( this == l ) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev;
    _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap( _List_node_base&, _List_node_base& ) noexcept { die( "swap of lists", 70 ); }
void _List_node_base::_M_reverse() noexcept { die( "reverse of a list", 70 ); }

std::size_t _Prime_rehash_policy::_M_next_bkt( std::size_t n ) const
{
    static std::size_t const primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30707, 62233, 126271, 256279, 520241 };
    for( std::size_t p: primes ) if( p >= n ) { _M_next_resize = static_cast<std::size_t>( static_cast<double>( p ) * static_cast<double>( _M_max_load_factor ) ); return p; }
    die( "rehash", 70 );
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash( std::size_t b, std::size_t e, std::size_t i ) const
{
    if( e + i <= _M_next_resize && _M_next_resize != 0 ) return { false, 0 };
    std::size_t m = static_cast<std::size_t>( static_cast<double>( e + i ) / static_cast<double>( _M_max_load_factor ) ) + 1;
    if( m < 11 && _M_next_resize == 0 ) m = 11;
    if( m >= b ) return { true, _M_next_bkt( m > 2 * b? m: 2 * b ) };
    _M_next_resize = static_cast<std::size_t>( static_cast<double>( b ) * static_cast<double>( _M_max_load_factor ) );
    return { false, 0 };
}
}
std::size_t _Hash_bytes( void const* p, std::size_t n, std::size_t s ) { u64 h = s ^ 0xCBF29CE484222325ull; for( u8 const* q = static_cast<u8 const*>( p ); n--; ++q ) h = ( h ^ *q ) * 0x100000001B3ull; return static_cast<std::size_t>( h ^ h >> 32 ); }
}

// what boost::array::at() is compiled to
#define THROWS( name, symbol ) extern "C" void name() __asm__( symbol ); extern "C" void name() { die( symbol ); }
THROWS( oor1, "_ZNSt12out_of_rangeC1EPKc" ) THROWS( oor2, "_ZNSt12out_of_rangeC2EPKc" ) THROWS( oor3, "_ZNSt12out_of_rangeD1Ev" ) THROWS( oor4, "_ZNSt12out_of_rangeD2Ev" )
THROWS( le1, "_ZNSt11logic_errorC1EPKc" ) THROWS( le2, "_ZNSt11logic_errorC2EPKc" ) THROWS( le3, "_ZNSt11logic_errorD1Ev" ) THROWS( le4, "_ZNSt11logic_errorD2Ev" )

namespace boost { void throw_exception( std::exception const& ) { die( "exception" ); } struct source_location; void throw_exception( std::exception const&, source_location const& ) { die( "exception" ); } }

extern "C"
{
int main( int, char** );
extern void (*__init_array_start[])( int, char**, char** );
extern void (*__init_array_end[])( int, char**, char** );
void bare_main( long argc, char** argv )
{
    for( auto p = __init_array_start; p != __init_array_end; ++p ) ( *p )( 0, nullptr, nullptr );
    _exit( main( static_cast<int>( argc ), argv ) );
}
}
#if defined(__i386__)
__asm__( ".globl _start\n_start:\n  mov %esp, %eax\n  and $-16, %esp\n  sub $8, %esp\n  lea 4(%eax), %ecx\n  push %ecx\n  pushl (%eax)\n  call bare_main\n  hlt\n" );
#else
extern "C" void _start( long argc, char** argv ) { bare_main( argc, argv ); }
#endif
