// A machine that the library can be run on: 64-bit big-endian MIPS (release 2, n64), user mode, one thread.
// usage: mips64 PROGRAM ARG...   Accesses that are not aligned, outside the memory or unknown are faults (exit 64 / 70).
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
typedef std::uint64_t u64; typedef std::int64_t i64; typedef std::uint32_t u32; typedef std::int32_t i32; typedef std::uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

static const u64 SIZE = 1ull << 31, LOW = 0x10000;
static u8* M;
static u64 r[ 32 ], hi, lo, pc, npc, f[ 32 ];
static bool cc[ 8 ];

[[noreturn]] static void fault( char const* what, u64 a )
{
    std::fflush( stdout );
    std::fprintf( stderr, "fault: %s at %llx, address %llx\n", what, (unsigned long long)pc, (unsigned long long)a );
    _exit( 64 );
}
[[noreturn]] static void unknown( u32 w )
{
    std::fflush( stdout );
    std::fprintf( stderr, "mips64: instruction %08x at %llx is not implemented\n", w, (unsigned long long)pc );
    _exit( 70 );
}
static inline u8* at( u64 a, u64 n )
{
    if( a < LOW || a > SIZE - n ) fault( "access outside the memory", a );
    if( a & ( n - 1 ) ) fault( "misaligned access", a );
    return M + a;
}
static inline u64 ld8( u64 a ) { u64 v; std::memcpy( &v, at( a, 8 ), 8 ); return __builtin_bswap64( v ); }
static inline u32 ld4( u64 a ) { u32 v; std::memcpy( &v, at( a, 4 ), 4 ); return __builtin_bswap32( v ); }
static inline std::uint16_t ld2( u64 a ) { std::uint16_t v; std::memcpy( &v, at( a, 2 ), 2 ); return __builtin_bswap16( v ); }
static inline u8 ld1( u64 a ) { return *at( a, 1 ); }
static inline void st8( u64 a, u64 v ) { v = __builtin_bswap64( v ); std::memcpy( at( a, 8 ), &v, 8 ); }
static inline void st4( u64 a, u32 v ) { v = __builtin_bswap32( v ); std::memcpy( at( a, 4 ), &v, 4 ); }
static inline void st2( u64 a, std::uint16_t v ) { v = __builtin_bswap16( v ); std::memcpy( at( a, 2 ), &v, 2 ); }
static inline void st1( u64 a, u8 v ) { *at( a, 1 ) = v; }
static inline u64 sx( u32 v ) { return static_cast<u64>( static_cast<i64>( static_cast<i32>( v ) ) ); }

static double gd( int i ) { double d; std::memcpy( &d, &f[ i ], 8 ); return d; }
static float gs( int i ) { u32 b = static_cast<u32>( f[ i ] ); float x; std::memcpy( &x, &b, 4 ); return x; }
static void pd( int i, double d ) { std::memcpy( &f[ i ], &d, 8 ); }
static void ps( int i, float x ) { u32 b; std::memcpy( &b, &x, 4 ); f[ i ] = b; }

static void syscall_()
{
    u64 n = r[ 2 ];
    if( n == 5001 )
    {
        u64 p = r[ 5 ], k = r[ 6 ];
        if( p < LOW || k > SIZE || p > SIZE - k ) fault( "write outside the memory", p );
        r[ 2 ] = static_cast<u64>( std::fwrite( M + p, 1, k, r[ 4 ] == 2? stderr: stdout ) );
        r[ 7 ] = 0;
    }
    else if( n == 5000 )
    {
        u64 p = r[ 5 ], k = r[ 6 ];
        if( p < LOW || k > SIZE || p > SIZE - k ) fault( "read outside the memory", p );
        r[ 2 ] = static_cast<u64>( std::fread( M + p, 1, k, stdin ) );
        r[ 7 ] = 0;
    }
    else if( n == 5058 || n == 5205 ) { std::fflush( stdout ); std::exit( static_cast<int>( r[ 4 ] ) ); }
    else unknown( 0xc );
}

static void fpu( u32 w )
{
    int fmt = w >> 21 & 31, ft = w >> 16 & 31, fs = w >> 11 & 31, fd = w >> 6 & 31, fn = w & 63;
    switch( fmt )
    {
    case 0: r[ ft ] = sx( static_cast<u32>( f[ fs ] ) ); r[ 0 ] = 0; return;     // mfc1
    case 1: r[ ft ] = f[ fs ]; r[ 0 ] = 0; return;                              // dmfc1
    case 4: f[ fs ] = ( f[ fs ] & 0xffffffff00000000ull ) | static_cast<u32>( r[ ft ] ); return;
    case 5: f[ fs ] = r[ ft ]; return;
    case 3: r[ ft ] = sx( static_cast<u32>( f[ fs ] >> 32 ) ); r[ 0 ] = 0; return;
    case 7: f[ fs ] = ( f[ fs ] & 0xffffffffull ) | r[ ft ] << 32; return;
    case 2: case 6: if( fmt == 2 ) r[ ft ] = 0; return;                          // cfc1, ctc1
    case 8:
        {
            bool t = cc[ ft >> 2 ] == static_cast<bool>( ft & 1 );
            if( ft & 2 ) unknown( w );
            if( t ) npc = pc + 4 + static_cast<u64>( static_cast<i64>( static_cast<std::int16_t>( w ) ) * 4 );
            return;
        }
    case 16: case 17:
        {
            bool d = fmt == 17;
#define BIN(OP) if( d ) pd( fd, gd( fs ) OP gd( ft ) ); else ps( fd, gs( fs ) OP gs( ft ) ); return;
            switch( fn )
            {
            case 0: BIN(+)
            case 1: BIN(-)
            case 2: BIN(*)
            case 3: BIN(/)
            case 4: if( d ) pd( fd, std::sqrt( gd( fs ) ) ); else ps( fd, std::sqrt( gs( fs ) ) ); return;
            case 5: if( d ) f[ fd ] = f[ fs ] & ~( 1ull << 63 ); else f[ fd ] = f[ fs ] & 0x7fffffffull; return;
            case 6: f[ fd ] = f[ fs ]; return;
            case 7: if( d ) f[ fd ] = f[ fs ] ^ 1ull << 63; else f[ fd ] = ( f[ fs ] & 0xffffffffull ) ^ 0x80000000ull; return;
            case 9: f[ fd ] = static_cast<u64>( static_cast<i64>( d? gd( fs ): gs( fs ) ) ); return;    // trunc.l
            case 13: f[ fd ] = static_cast<u32>( static_cast<i32>( d? gd( fs ): gs( fs ) ) ); return;   // trunc.w
            case 17: if( cc[ ft >> 2 ] == static_cast<bool>( ft & 1 ) ) f[ fd ] = f[ fs ]; return;      // movf, movt
            case 18: if( r[ ft ] == 0 ) f[ fd ] = f[ fs ]; return;
            case 19: if( r[ ft ] != 0 ) f[ fd ] = f[ fs ]; return;
            case 32: ps( fd, static_cast<float>( gd( fs ) ) ); return;
            case 33: pd( fd, gs( fs ) ); return;
            }
            if( fn >= 48 )
            {
                double a = d? gd( fs ): gs( fs ), b = d? gd( ft ): gs( ft );
                bool un = a != a || b != b, v = false;
                if( fn & 1 ) v = v || un;
                if( fn & 2 ) v = v || ( !un && a == b );
                if( fn & 4 ) v = v || ( !un && a < b );
                cc[ w >> 8 & 7 ] = v;
                return;
            }
            unknown( w );
        }
    case 20:
        switch( fn )
        {
        case 32: ps( fd, static_cast<float>( static_cast<i32>( f[ fs ] ) ) ); return;
        case 33: pd( fd, static_cast<double>( static_cast<i32>( f[ fs ] ) ) ); return;
        }
        unknown( w );
    case 21:
        switch( fn )
        {
        case 32: ps( fd, static_cast<float>( static_cast<i64>( f[ fs ] ) ) ); return;
        case 33: pd( fd, static_cast<double>( static_cast<i64>( f[ fs ] ) ) ); return;
        }
        unknown( w );
    }
    unknown( w );
}

static void step()
{
    if( pc & 3 || pc < LOW || pc > SIZE - 4 ) fault( "jump outside the memory", pc );
    u32 w;
    std::memcpy( &w, M + pc, 4 );
    w = __builtin_bswap32( w );
    u64 next = npc;
    npc = next + 4;
    int op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31;
    u64 imm = static_cast<u64>( static_cast<i64>( static_cast<std::int16_t>( w ) ) ), uim = w & 0xffff;
    u64 S = r[ rs ], T = r[ rt ], ea = S + imm, br = pc + 4 + imm * 4;
    switch( op )
    {
    case 0:
        switch( w & 63 )
        {
        case 0: r[ rd ] = sx( static_cast<u32>( T ) << sa ); break;
        case 1: if( cc[ rt >> 2 ] == static_cast<bool>( rt & 1 ) ) r[ rd ] = S; break;
        case 2: { u32 x = static_cast<u32>( T ); r[ rd ] = sx( rs & 1? ( x >> sa | ( sa? x << ( 32 - sa ): 0 ) ): x >> sa ); break; }
        case 3: r[ rd ] = sx( static_cast<u32>( static_cast<i32>( T ) >> sa ) ); break;
        case 4: r[ rd ] = sx( static_cast<u32>( T ) << ( S & 31 ) ); break;
        case 6: { u32 x = static_cast<u32>( T ); int k = S & 31; r[ rd ] = sx( sa & 1? ( x >> k | ( k? x << ( 32 - k ): 0 ) ): x >> k ); break; }
        case 7: r[ rd ] = sx( static_cast<u32>( static_cast<i32>( T ) >> ( S & 31 ) ) ); break;
        case 8: npc = S; break;
        case 9: { u64 t = S; r[ rd ] = pc + 8; npc = t; break; }
        case 10: if( T == 0 ) r[ rd ] = S; break;
        case 11: if( T != 0 ) r[ rd ] = S; break;
        case 12: syscall_(); break;
        case 13: fault( "break", pc );
        case 15: break;
        case 16: r[ rd ] = hi; break;
        case 17: hi = S; break;
        case 18: r[ rd ] = lo; break;
        case 19: lo = S; break;
        case 20: r[ rd ] = T << ( S & 63 ); break;
        case 22: { int k = S & 63; r[ rd ] = sa & 1? ( T >> k | ( k? T << ( 64 - k ): 0 ) ): T >> k; break; }
        case 23: r[ rd ] = static_cast<u64>( static_cast<i64>( T ) >> ( S & 63 ) ); break;
        case 24: { i64 p = static_cast<i64>( static_cast<i32>( S ) ) * static_cast<i32>( T ); lo = sx( static_cast<u32>( p ) ); hi = sx( static_cast<u32>( p >> 32 ) ); break; }
        case 25: { u64 p = static_cast<u64>( static_cast<u32>( S ) ) * static_cast<u32>( T ); lo = sx( static_cast<u32>( p ) ); hi = sx( static_cast<u32>( p >> 32 ) ); break; }
        case 26: { i64 a = static_cast<i32>( S ), b = static_cast<i32>( T ); if( b ) { lo = sx( static_cast<u32>( a / b ) ); hi = sx( static_cast<u32>( a % b ) ); } break; }
        case 27: { u32 a = static_cast<u32>( S ), b = static_cast<u32>( T ); if( b ) { lo = sx( a / b ); hi = sx( a % b ); } break; }
        case 28: { i128 p = static_cast<i128>( static_cast<i64>( S ) ) * static_cast<i64>( T ); lo = static_cast<u64>( p ); hi = static_cast<u64>( p >> 64 ); break; }
        case 29: { u128 p = static_cast<u128>( S ) * T; lo = static_cast<u64>( p ); hi = static_cast<u64>( p >> 64 ); break; }
        case 30: { i128 a = static_cast<i64>( S ), b = static_cast<i64>( T ); if( b ) { lo = static_cast<u64>( a / b ); hi = static_cast<u64>( a % b ); } break; }
        case 31: if( T ) { lo = S / T; hi = S % T; } break;
        case 32: case 33: r[ rd ] = sx( static_cast<u32>( S + T ) ); break;
        case 34: case 35: r[ rd ] = sx( static_cast<u32>( S - T ) ); break;
        case 36: r[ rd ] = S & T; break;
        case 37: r[ rd ] = S | T; break;
        case 38: r[ rd ] = S ^ T; break;
        case 39: r[ rd ] = ~( S | T ); break;
        case 42: r[ rd ] = static_cast<i64>( S ) < static_cast<i64>( T ); break;
        case 43: r[ rd ] = S < T; break;
        case 44: case 45: r[ rd ] = S + T; break;
        case 46: case 47: r[ rd ] = S - T; break;
        case 48: if( static_cast<i64>( S ) >= static_cast<i64>( T ) ) fault( "trap", pc ); break;
        case 52: if( S == T ) fault( "trap", pc ); break;
        case 54: if( S != T ) fault( "trap", pc ); break;
        case 56: r[ rd ] = T << sa; break;
        case 58: r[ rd ] = rs & 1? ( T >> sa | ( sa? T << ( 64 - sa ): 0 ) ): T >> sa; break;
        case 59: r[ rd ] = static_cast<u64>( static_cast<i64>( T ) >> sa ); break;
        case 60: r[ rd ] = T << ( sa + 32 ); break;
        case 62: { int k = sa + 32; r[ rd ] = rs & 1? ( T >> k | T << ( 64 - k ) ): T >> k; break; }
        case 63: r[ rd ] = static_cast<u64>( static_cast<i64>( T ) >> ( sa + 32 ) ); break;
        default: unknown( w );
        }
        break;
    case 1:
        switch( rt )
        {
        case 0: if( static_cast<i64>( S ) < 0 ) npc = br; break;
        case 1: if( static_cast<i64>( S ) >= 0 ) npc = br; break;
        case 16: r[ 31 ] = pc + 8; if( static_cast<i64>( S ) < 0 ) npc = br; break;
        case 17: r[ 31 ] = pc + 8; if( static_cast<i64>( S ) >= 0 ) npc = br; break;
        default: unknown( w );
        }
        break;
    case 2: npc = ( ( pc + 4 ) & ~0xfffffffull ) | static_cast<u64>( w & 0x3ffffff ) << 2; break;
    case 3: r[ 31 ] = pc + 8; npc = ( ( pc + 4 ) & ~0xfffffffull ) | static_cast<u64>( w & 0x3ffffff ) << 2; break;
    case 4: if( S == T ) npc = br; break;
    case 5: if( S != T ) npc = br; break;
    case 6: if( static_cast<i64>( S ) <= 0 ) npc = br; break;
    case 7: if( static_cast<i64>( S ) > 0 ) npc = br; break;
    case 8: case 9: r[ rt ] = sx( static_cast<u32>( S + imm ) ); break;
    case 10: r[ rt ] = static_cast<i64>( S ) < static_cast<i64>( imm ); break;
    case 11: r[ rt ] = S < imm; break;
    case 12: r[ rt ] = S & uim; break;
    case 13: r[ rt ] = S | uim; break;
    case 14: r[ rt ] = S ^ uim; break;
    case 15: r[ rt ] = sx( static_cast<u32>( uim << 16 ) ); break;
    case 17: fpu( w ); break;
    case 24: case 25: r[ rt ] = S + imm; break;
    case 26:                                        // ldl
        {
            int b = ea & 7; u64 x = ld8( ea & ~7ull );
            r[ rt ] = b? x << ( 8 * b ) | ( T & ( ( 1ull << ( 8 * b ) ) - 1 ) ): x;
            break;
        }
    case 27:                                        // ldr
        {
            int b = ea & 7; u64 x = ld8( ea & ~7ull );
            r[ rt ] = b == 7? x: ( T & ~( ( 1ull << ( 8 * ( b + 1 ) ) ) - 1 ) ) | x >> ( 8 * ( 7 - b ) );
            break;
        }
    case 28:
        switch( w & 63 )
        {
        case 2: r[ rd ] = sx( static_cast<u32>( S ) * static_cast<u32>( T ) ); break;
        case 32: r[ rd ] = static_cast<u32>( S )? static_cast<u64>( __builtin_clz( static_cast<u32>( S ) ) ): 32; break;
        case 33: { u32 x = ~static_cast<u32>( S ); r[ rd ] = x? static_cast<u64>( __builtin_clz( x ) ): 32; break; }
        case 36: r[ rd ] = S? static_cast<u64>( __builtin_clzll( S ) ): 64; break;
        case 37: r[ rd ] = ~S? static_cast<u64>( __builtin_clzll( ~S ) ): 64; break;
        default: unknown( w );
        }
        break;
    case 31:
        {
            int fn = w & 63, pos = sa, sz = rd;
            u64 size, m;
            switch( fn )
            {
            case 0: size = static_cast<u64>( sz ) + 1; m = ( 1ull << size ) - 1; r[ rt ] = sx( static_cast<u32>( static_cast<u32>( S ) >> pos & m ) ); break;                    // ext
            case 1: size = static_cast<u64>( sz ) + 33; m = size == 64? ~0ull: ( 1ull << size ) - 1; r[ rt ] = S >> pos & m; break;                  // dextm
            case 2: size = static_cast<u64>( sz ) + 1; m = ( 1ull << size ) - 1; r[ rt ] = S >> ( pos + 32 ) & m; break;                             // dextu
            case 3: size = static_cast<u64>( sz ) + 1; m = ( 1ull << size ) - 1; r[ rt ] = S >> pos & m; break;                                      // dext
            case 4: size = static_cast<u64>( sz - pos ) + 1; m = ( ( 1ull << size ) - 1 ) << pos; r[ rt ] = sx( static_cast<u32>( ( T & ~m ) | ( S << pos & m ) ) ); break;
            case 5: size = static_cast<u64>( sz + 33 - pos ); m = ( size == 64? ~0ull: ( 1ull << size ) - 1 ) << pos; r[ rt ] = ( T & ~m ) | ( S << pos & m ); break;
            case 6: size = static_cast<u64>( sz - pos ) + 1; m = ( ( 1ull << size ) - 1 ) << ( pos + 32 ); r[ rt ] = ( T & ~m ) | ( S << ( pos + 32 ) & m ); break;
            case 7: size = static_cast<u64>( sz - pos ) + 1; m = ( ( 1ull << size ) - 1 ) << pos; r[ rt ] = ( T & ~m ) | ( S << pos & m ); break;
            case 32:
                if( sa == 2 ) { u32 x = static_cast<u32>( T ); r[ rd ] = sx( ( x & 0x00ff00ffu ) << 8 | ( x >> 8 & 0x00ff00ffu ) ); }
                else if( sa == 16 ) r[ rd ] = static_cast<u64>( static_cast<i64>( static_cast<std::int8_t>( T ) ) );
                else if( sa == 24 ) r[ rd ] = static_cast<u64>( static_cast<i64>( static_cast<std::int16_t>( T ) ) );
                else unknown( w );
                break;
            case 36:
                if( sa == 2 ) r[ rd ] = ( T & 0x00ff00ff00ff00ffull ) << 8 | ( T >> 8 & 0x00ff00ff00ff00ffull );
                else if( sa == 5 ) { u64 x = ( T & 0x0000ffff0000ffffull ) << 16 | ( T >> 16 & 0x0000ffff0000ffffull ); r[ rd ] = x << 32 | x >> 32; }
                else unknown( w );
                break;
            default: unknown( w );
            }
            break;
        }
    case 32: r[ rt ] = static_cast<u64>( static_cast<i64>( static_cast<std::int8_t>( ld1( ea ) ) ) ); break;
    case 33: r[ rt ] = static_cast<u64>( static_cast<i64>( static_cast<std::int16_t>( ld2( ea ) ) ) ); break;
    case 34: { int b = ea & 3; u32 x = ld4( ea & ~3ull ); r[ rt ] = sx( b? x << ( 8 * b ) | ( static_cast<u32>( T ) & ( ( 1u << ( 8 * b ) ) - 1 ) ): x ); break; }
    case 35: r[ rt ] = sx( ld4( ea ) ); break;
    case 36: r[ rt ] = ld1( ea ); break;
    case 37: r[ rt ] = ld2( ea ); break;
    case 38: { int b = ea & 3; u32 x = ld4( ea & ~3ull ); r[ rt ] = sx( b == 3? x: ( static_cast<u32>( T ) & ~( ( 1u << ( 8 * ( b + 1 ) ) ) - 1 ) ) | x >> ( 8 * ( 3 - b ) ) ); break; }
    case 39: r[ rt ] = ld4( ea ); break;
    case 40: st1( ea, static_cast<u8>( T ) ); break;
    case 41: st2( ea, static_cast<std::uint16_t>( T ) ); break;
    case 42: { int b = ea & 3; for( int i = 0; i < 4 - b; ++i ) st1( ea + static_cast<u64>( i ), static_cast<u8>( T >> ( 24 - 8 * i ) ) ); break; }
    case 43: st4( ea, static_cast<u32>( T ) ); break;
    case 44: { int b = ea & 7; for( int i = 0; i < 8 - b; ++i ) st1( ea + static_cast<u64>( i ), static_cast<u8>( T >> ( 56 - 8 * i ) ) ); break; }
    case 45: { int b = ea & 7; for( int i = 0; i <= b; ++i ) st1( ea - static_cast<u64>( i ), static_cast<u8>( T >> ( 8 * i ) ) ); break; }
    case 46: { int b = ea & 3; for( int i = 0; i <= b; ++i ) st1( ea - static_cast<u64>( i ), static_cast<u8>( T >> ( 8 * i ) ) ); break; }
    case 49: f[ rt ] = ( f[ rt ] & 0xffffffff00000000ull ) | ld4( ea ); break;
    case 51: break;
    case 53: f[ rt ] = ld8( ea ); break;
    case 55: r[ rt ] = ld8( ea ); break;
    case 57: st4( ea, static_cast<u32>( f[ rt ] ) ); break;
    case 61: st8( ea, f[ rt ] ); break;
    case 63: st8( ea, T ); break;
    case 19:
        switch( w & 63 )
        {
        case 0: f[ sa ] = ( f[ sa ] & 0xffffffff00000000ull ) | ld4( S + T ); break;      // lwxc1
        case 1: f[ sa ] = ld8( S + T ); break;
        case 8: st4( S + T, static_cast<u32>( f[ rd ] ) ); break;
        case 9: st8( S + T, f[ rd ] ); break;
        default: unknown( w );
        }
        break;
    default: unknown( w );
    }
    r[ 0 ] = 0;
    pc = next;
}

static u64 be( u8 const* p, int n ) { u64 v = 0; for( int i = 0; i < n; ++i ) v = v << 8 | p[ i ]; return v; }

int main( int argc, char** argv )
{
    if( argc < 2 ) return 70;
    std::FILE* fp = std::fopen( argv[ 1 ], "rb" );
    if( !fp ) return 70;
    std::vector<u8> e;
    u8 buf[ 65536 ];
    for( std::size_t k; ( k = std::fread( buf, 1, sizeof buf, fp ) ) > 0; ) e.insert( e.end(), buf, buf + k );
    std::fclose( fp );
    if( e.size() < 64 || std::memcmp( e.data(), "\x7f" "ELF\x02\x02", 6 ) ) return 70;
    M = static_cast<u8*>( mmap( nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if( M == MAP_FAILED ) return 70;
    u64 ph = be( &e[ 32 ], 8 );
    int n = static_cast<int>( be( &e[ 56 ], 2 ) );
    for( int i = 0; i < n; ++i )
    {
        u8 const* q = &e[ ph + static_cast<u64>( i ) * 56 ];
        if( be( q, 4 ) != 1 ) continue;
        u64 off = be( q + 8, 8 ), va = be( q + 16, 8 ), fs = be( q + 32, 8 );
        if( va < LOW || va > SIZE / 2 || off + fs > e.size() ) return 70;
        std::memcpy( M + va, &e[ off ], fs );
    }
    // stack: argc, argv
    u64 sp = SIZE - 0x100000;
    std::vector<u64> av;
    for( int i = 1; i < argc; ++i ) { std::size_t k = std::strlen( argv[ i ] ) + 1; sp -= k; std::memcpy( M + sp, argv[ i ], k ); av.push_back( sp ); }
    sp = ( sp - 64 ) & ~15ull;
    sp -= ( av.size() * 8 + 16 + 15 ) & ~15ull;
    u64 ap = sp;
    for( u64 a: av ) { st8( ap, a ); ap += 8; }
    r[ 4 ] = av.size(); r[ 5 ] = sp;
    r[ 29 ] = sp - 256;
    pc = be( &e[ 24 ], 8 ); npc = pc + 4;
    r[ 25 ] = pc;
    for( ;; ) step();
}
