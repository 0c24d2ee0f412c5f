// Conformance driver: executes behaviours (sequences of public API calls) against the
// library and records what can be observed, one ndjson line per behaviour.
// Input (stdin), one command per line:
//   T <id>                 begin a behaviour
//   N <o> <alg> d          construct by default
//   N <o> <alg> i <hex64>  construct from an integer seed
//   N <o> <alg> b <hex|->  construct from a byte sequence seed
//   N <o> <alg> 2 <hex64> <hex64>   two-word seed (legacy)
//   U <o> <hex|->          update
//   R <o>                  result
//   K <o> <hex64>          o's count of bytes is raised, if the object shows where it is kept
//   C <o> <p>              p becomes a copy of o (constructed or assigned)
//   M <o> <p>              p becomes moved-from-o copy (o keeps being used)
//   F <o>                  destroy
//   .                      end: run it under all plans and print the record
//   S <alg> <hex|-> <mode> sweep: feed the message under all cuts into two (mode 2), three (mode 3)
//   E <alg> <kind> <seedlen> <l1,l2,..> <trials> <rngseed>   erasure experiment
// Each behaviour is executed under several "plans", which differ only in how the bytes of
// every update are cut into calls and where in memory they lie.  A result event carries the
// set of the distinct values observed.
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <new>
#include <thread>
#include <typeinfo>
#include <atomic>
#include <iostream>
#include <sstream>
#include <type_traits>

using namespace boost::hash2;
typedef unsigned char u8;
typedef std::vector<u8> bytes;

// ---------------------------------------------------------------- results as bytes

template<class R> typename std::enable_if<std::is_integral<R>::value, bytes>::type to_bytes( R const& r )
{
    bytes b;
    for( std::size_t i = 0; i < sizeof(R); ++i ) b.push_back( static_cast<u8>( r >> ( 8 * i ) ) );
    return b;
}
template<class R> typename std::enable_if<!std::is_integral<R>::value, bytes>::type to_bytes( R const& r )
{
    return bytes( r.begin(), r.end() );
}

// ---------------------------------------------------------------- hash algorithms of a user's (see HashAlg.tla)

template<class R> struct filled { static R go( std::uint64_t h ) { R r = {{}}; for( std::size_t i = 0; i < r.size(); ++i ) r[ i ] = static_cast<u8>( ( h >> 8 * ( i % 8 ) & 255 ) ^ i ); return r; } };
template<std::size_t N> struct filled<digest<N> > { static digest<N> go( std::uint64_t h ) { digest<N> r; for( std::size_t i = 0; i < N; ++i ) r[ i ] = static_cast<u8>( ( h >> 8 * ( i % 8 ) & 255 ) ^ i ); return r; } };
template<int B, class R> class user_hash
{
    std::uint64_t h_;
    void byte( u8 x ) { h_ = ( h_ ^ x ) * 1099511628211ull; }
public:
    typedef R result_type;
    static constexpr int block_size = B;
    user_hash(): h_( 14695981039346656037ull ) {}
    explicit user_hash( std::uint64_t s ): h_( 14695981039346656037ull ) { if( s ) for( int i = 0; i < 8; ++i ) byte( static_cast<u8>( s >> 8 * i ) ); }
    user_hash( u8 const* p, std::size_t n ): h_( 14695981039346656037ull ) { update( p, n ); }
    void update( u8 const* p, std::size_t n ) { while( n-- ) byte( *p++ ); }
    void update( void const* p, std::size_t n ) { update( static_cast<u8 const*>( p ), n ); }
    R result() { R r = filled<R>::go( h_ ); byte( 255 ); return r; }
};
typedef user_hash<8, std::array<u8, 8> > user_8_8;
typedef user_hash<16, digest<4> > user_16_4;
typedef user_hash<48, std::array<u8, 20> > user_48_20;
typedef user_hash<200, digest<64> > user_200_64;
typedef hmac<user_8_8> hmac_user_8_8;
typedef hmac<user_16_4> hmac_user_16_4;
typedef hmac<user_48_20> hmac_user_48_20;
typedef hmac<user_200_64> hmac_user_200_64;

// ---------------------------------------------------------------- type-erased objects

struct Obj
{
    virtual ~Obj() {}
    virtual void upd( void const* p, std::size_t n ) = 0;
    virtual void updc( u8 const* p, std::size_t n ) = 0;
    virtual bytes res() = 0;
    virtual Obj* clone() const = 0;
    virtual Obj* move_out() = 0;
    virtual void assign( Obj const& ) = 0;
    virtual bytes dump() const = 0;
    virtual bool skip( std::uint64_t n ) = 0;
};

// Where an object keeps the number of bytes it has absorbed: the one place in its representation that equals it (for
// HMAC: up to the key's block) after messages of several lengths.  -1 if there is none, or more than one trace of it.
template<class H> int count_at()
{
    std::size_t const ts[] = { 0, 128, 3 * 128, 256 * 128, 600 * 128, 70000 * 128 };
    std::vector<bytes> d;
    bytes z( 128 );
    for( std::size_t t: ts )
    {
        alignas(H) u8 mem[ sizeof(H) ];
        std::memset( mem, 0, sizeof mem );
        H* h = new( mem ) H();
        for( std::size_t i = 0; i < t; i += 128 ) h->update( z.data(), 128 );
        d.push_back( bytes( mem, mem + sizeof mem ) );
        h->~H();
    }
    std::size_t const k = d.size();
    auto diff = [&]( std::size_t o, std::size_t i ) { std::uint64_t a, b; std::memcpy( &a, &d[ i ][ o ], 8 ); std::memcpy( &b, &d[ 0 ][ o ], 8 ); return a - b; };
    int found = -1;
    for( std::size_t o = 0; o + 8 <= sizeof(H); o += 4 )
    {
        bool yes = true;
        for( std::size_t i = 1; i < k; ++i ) yes = yes && diff( o, i ) == ts[ i ];
        if( !yes ) continue;
        if( found >= 0 ) return -1;
        found = static_cast<int>( o );
    }
    if( found < 0 ) return -1;
    // no other function of it is kept (a count of blocks or bits, say)
    for( std::size_t o = 0; o + 8 <= sizeof(H); o += 4 )
    {
        if( static_cast<int>( o ) + 8 > found && static_cast<int>( o ) < found + 8 ) continue;
        bool linear = diff( o, 1 ) != 0;
        for( std::size_t i = 2; i < k; ++i ) linear = linear && diff( o, i ) * ts[ 1 ] == diff( o, 1 ) * ts[ i ];
        if( linear ) return -1;
    }
    return found;
}

template<class H> struct ObjT: Obj
{
    alignas(H) u8 mem[ sizeof(H) ];
    H* h;
    struct raw {};
    explicit ObjT( raw ) { std::memset( mem, 0xA5, sizeof mem ); }
    ObjT() { std::memset( mem, 0xA5, sizeof mem ); h = new( mem ) H(); }
    explicit ObjT( std::uint64_t s ) { std::memset( mem, 0x5A, sizeof mem ); h = new( mem ) H( s ); }
    ObjT( u8 const* p, std::size_t n ) { std::memset( mem, 0xC3, sizeof mem ); h = new( mem ) H( p, n ); }
    ~ObjT() { h->~H(); }
    void upd( void const* p, std::size_t n ) override { h->update( p, n ); }
    void updc( u8 const* p, std::size_t n ) override { h->update( p, n ); }
    bytes res() override { return to_bytes( h->result() ); }
    Obj* clone() const override { ObjT* q = new ObjT( raw() ); q->h = new( q->mem ) H( static_cast<H const&>( *h ) ); return q; }
    Obj* move_out() override { ObjT* q = new ObjT( raw() ); q->h = new( q->mem ) H( std::move( *h ) ); return q; }
    void assign( Obj const& o ) override { *h = *static_cast<ObjT const&>( o ).h; }
    bytes dump() const override { return bytes( mem, mem + sizeof mem ); }
    bool skip( std::uint64_t n ) override
    {
        static int const at = count_at<H>();
        if( at < 0 ) return false;
        std::uint64_t c; std::memcpy( &c, mem + at, 8 ); c += n; std::memcpy( mem + at, &c, 8 );
        return true;
    }
};

struct Alg { Obj* (*d)(); Obj* (*i)( std::uint64_t ); Obj* (*b)( u8 const*, std::size_t ); };
template<class H> Obj* mkd() { return new ObjT<H>(); }
template<class H> Obj* mki( std::uint64_t s ) { return new ObjT<H>( s ); }
template<class H> Obj* mkb( u8 const* p, std::size_t n ) { return new ObjT<H>( p, n ); }

static std::map<std::string, Alg> const& algs()
{
    static std::map<std::string, Alg> m;
    if( m.empty() )
    {
#define A(x) m[#x] = Alg{ mkd<x>, mki<x>, mkb<x> };
        A(fnv1a_32) A(fnv1a_64) A(xxhash_32) A(xxhash_64) A(siphash_32) A(siphash_64)
        A(md5_128) A(sha1_160) A(sha2_256) A(sha2_224) A(sha2_512) A(sha2_384) A(sha2_512_224) A(sha2_512_256)
        A(ripemd_160) A(ripemd_128)
        A(hmac_md5_128) A(hmac_sha1_160) A(hmac_sha2_256) A(hmac_sha2_224) A(hmac_sha2_512) A(hmac_sha2_384)
        A(hmac_sha2_512_224) A(hmac_sha2_512_256) A(hmac_ripemd_160) A(hmac_ripemd_128)
        A(murmur3_32) A(murmur3_128) A(spooky2_128)
        A(user_8_8) A(user_16_4) A(user_48_20) A(user_200_64) A(hmac_user_8_8) A(hmac_user_16_4) A(hmac_user_48_20) A(hmac_user_200_64)
#undef A
    }
    return m;
}

static Obj* make2( std::string const& a, std::uint64_t s1, std::uint64_t s2 )
{
    if( a == "murmur3_128" )
    {
        ObjT<murmur3_128>* o = new ObjT<murmur3_128>( ObjT<murmur3_128>::raw() );
        o->h = new( o->mem ) murmur3_128( s1, s2 );
        return o;
    }
    ObjT<spooky2_128>* o = new ObjT<spooky2_128>( ObjT<spooky2_128>::raw() );
    o->h = new( o->mem ) spooky2_128( s1, s2 );
    return o;
}

// ---------------------------------------------------------------- helpers

static thread_local std::uint64_t rng_state = 88172645463325252ull;
static std::uint64_t rnd_( std::uint64_t& s ) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
static std::uint64_t rnd() { return rnd_( rng_state ); }
static std::size_t below( std::size_t n ) { return static_cast<std::size_t>( ( rnd() >> 20 ) % n ); }

static bytes unhex( std::string const& s )
{
    bytes b;
    if( s == "-" ) return b;
    for( std::size_t i = 0; i + 1 < s.size(); i += 2 ) b.push_back( static_cast<u8>( std::strtoul( s.substr( i, 2 ).c_str(), 0, 16 ) ) );
    return b;
}
static std::string arr( bytes const& b )
{
    std::string s = "[";
    char t[8];
    for( std::size_t i = 0; i < b.size(); ++i ) { std::snprintf( t, sizeof t, i? ",%d": "%d", b[i] ); s += t; }
    return s + "]";
}
static std::string limbs( std::uint64_t v )
{
    char t[64];
    std::snprintf( t, sizeof t, "[%u,%u,%u,%u]", (unsigned)( v & 0xffff ), (unsigned)( v >> 16 & 0xffff ), (unsigned)( v >> 32 & 0xffff ), (unsigned)( v >> 48 ) );
    return t;
}

// A read-only window between two unmapped pages.  The bytes of every call are placed so that
// they end exactly at (or begin exactly after) an unmapped page, and are scribbled over after
// the call has returned.
struct Guard
{
    std::size_t pg, cap; u8* base; u8* lo; u8* hi;
    explicit Guard( std::size_t c )
    {
        pg = 4096; cap = ( c + pg - 1 ) / pg * pg;
        base = static_cast<u8*>( mmap( 0, cap + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
        if( base == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
        mprotect( base, pg, PROT_NONE ); mprotect( base + pg + cap, pg, PROT_NONE );
        lo = base + pg; hi = lo + cap;
        std::memset( lo, 0xEE, cap );
    }
    // where: 0 = ends at the upper guard, 1 = begins at the lower guard, >= 2: lower guard + where - 1
    u8* place( u8 const* p, std::size_t n, int where )
    {
        u8* q = where == 0? hi - n: lo + ( where - 1 );
        if( n ) std::memcpy( q, p, n );
        return q;
    }
    void freeze( bool on ) { mprotect( lo, cap, on? PROT_READ: PROT_READ | PROT_WRITE ); }
};
static Guard& guard() { static Guard g( 1 << 18 ); return g; }

enum { PL_WHOLE, PL_BYTES, PL_HALF, PL_RAND1, PL_RAND2, PL_RAND3, PL_BLOCKISH, PL_ALIGN, PL_FREEZE, PL_COUNT };
static char const* g_cur = "";
static int g_plan = -1;
static int g_protect = 1;     // 0: plain heap buffers (sanitizer builds see exact bounds instead)

static void call( Obj& o, u8 const* p, std::size_t n, int where, int ovl )
{
    if( n == 0 )
    {
        switch( ovl % 4 )
        {
        case 0: o.upd( 0, 0 ); break;
        case 1: o.updc( 0, 0 ); break;
        case 2: o.updc( guard().hi, 0 ); break;
        default: { u8 x = 7; o.upd( &x, 0 ); } break;
        }
        return;
    }
    if( g_protect )
    {
        u8* q = guard().place( p, n, where );
        if( ovl & 1 ) o.updc( q, n ); else o.upd( q, n );
        std::memset( q, 0x77, n );
    }
    else
    {
        // an exact-size block; every second time the bytes lie at an odd address
        std::size_t off = n % 2? where % 3 + ovl % 5: 0;
        u8* q = new u8[ off + n ];
        std::memcpy( q + off, p, n );
        if( ovl & 1 ) o.updc( q + off, n ); else o.upd( q + off, n );
        std::memset( q, 0x77, off + n );
        delete[] q;
    }
}

static void feed( Obj& o, bytes const& m, int plan )
{
    std::size_t n = m.size(); u8 const* p = m.data();
    switch( plan )
    {
    case PL_WHOLE: call( o, p, n, 0, 0 ); break;
    case PL_BYTES: for( std::size_t i = 0; i < n; ++i ) call( o, p + i, 1, 0, (int)i ); break;
    case PL_HALF: call( o, p, n / 2, 0, 1 ); call( o, p + n / 2, n - n / 2, 1, 2 ); call( o, p, 0, 0, 0 ); break;
    case PL_RAND1: case PL_RAND2: case PL_RAND3:
        {
            std::size_t mx = plan == PL_RAND1? 9: plan == PL_RAND2? 70: 300;
            std::size_t i = 0;
            while( i < n )
            {
                std::size_t k = below( mx + 1 );
                if( k > n - i ) k = n - i;
                call( o, p + i, k, (int)below( 3 ), (int)below( 4 ) );
                i += k;
            }
            for( int j = (int)below( 3 ); j > 0; --j ) call( o, p, 0, 0, (int)below( 4 ) );
        }
        break;
    case PL_BLOCKISH:
        {
            static std::size_t const ks[] = { 1, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 95, 96, 97, 111, 112, 127, 128, 129, 191, 192, 193 };
            std::size_t i = 0;
            while( i < n )
            {
                std::size_t k = ks[ below( sizeof ks / sizeof ks[0] ) ];
                if( k > n - i ) k = n - i;
                call( o, p + i, k, 0, (int)below( 4 ) );
                if( below( 3 ) == 0 ) call( o, p, 0, 0, (int)below( 4 ) );
                i += k;
            }
        }
        break;
    case PL_ALIGN: call( o, p, n, 2 + (int)below( 15 ), 1 ); break;
    case PL_FREEZE:
        if( n && g_protect )
        {
            u8* q = guard().place( p, n, 0 );
            guard().freeze( true ); o.upd( q, n ); guard().freeze( false );
            std::memset( q, 0x33, n );
        }
        else call( o, p, n, 0, 0 );
        break;
    }
}

// ---------------------------------------------------------------- behaviours

struct Cmd { char op; int o, p; std::string alg; char kind; bytes b; std::uint64_t s, s2; };
struct Beh { std::string id; std::vector<Cmd> c; };
typedef std::vector< std::set<bytes> > Obs;

// default-constructed objects the threads copy from, all at the same time
static std::map<std::string, Obj*> g_proto;
static Obj* construct( Cmd const& c )
{
    if( c.kind == 'd' && !g_proto.empty() && below( 2 ) ) return g_proto.at( c.alg )->clone();
    auto it = algs().find( c.alg );
    if( it == algs().end() ) { std::fprintf( stderr, "unknown algorithm %s\n", c.alg.c_str() ); std::exit( 3 ); }
    Alg const& a = it->second;
    switch( c.kind )
    {
    case 'd': return a.d();
    case 'i': return a.i( c.s );
    case '2': return make2( c.alg, c.s, c.s2 );
    default:
        if( c.b.empty() ) return below( 2 )? a.b( 0, 0 ): a.b( guard().hi, 0 );
        if( g_protect )
        {
            u8* q = guard().place( c.b.data(), c.b.size(), (int)below( 2 ) );
            Obj* r = a.b( q, c.b.size() );
            std::memset( q, 0x55, c.b.size() );
            return r;
        }
        else
        {
            std::size_t off = c.b.size() % 2? c.b.size() % 7: 0;
            u8* q = new u8[ off + c.b.size() ]; std::memcpy( q + off, c.b.data(), c.b.size() );
            Obj* r = a.b( q + off, c.b.size() );
            std::memset( q, 0x55, off + c.b.size() ); delete[] q;
            return r;
        }
    }
}

static void run( Beh const& t, int plan, Obs& obs )
{
    std::map<int, std::unique_ptr<Obj> > st;
    for( std::size_t i = 0; i < t.c.size(); ++i )
    {
        Cmd const& c = t.c[ i ];
        switch( c.op )
        {
        case 'N': st[ c.o ].reset( construct( c ) ); break;
        case 'U': feed( *st[ c.o ], c.b, plan ); break;
        case 'R': obs[ i ].insert( st[ c.o ]->res() ); break;
        case 'C': if( st.count( c.p ) && typeid( *st[ c.p ] ) == typeid( *st[ c.o ] ) ) st[ c.p ]->assign( *st[ c.o ] ); else st[ c.p ].reset( st[ c.o ]->clone() ); break;
        case 'M': st[ c.p ].reset( st[ c.o ]->move_out() ); break;
        case 'F': st.erase( c.o ); break;
        case 'K': if( st[ c.o ]->skip( c.s ) ) obs[ i ].insert( bytes() ); break;
        }
    }
}

static void print( Beh const& t, Obs const& obs )
{
    std::string s = "{\"id\":\"" + t.id + "\",\"ev\":[";
    for( std::size_t i = 0; i < t.c.size(); ++i )
    {
        Cmd const& c = t.c[ i ];
        if( i ) s += ",";
        std::string o = std::to_string( c.o );
        switch( c.op )
        {
        case 'N':
            s += "{\"op\":\"new\",\"o\":" + o + ",\"a\":\"" + c.alg + "\",\"k\":\"" + c.kind + "\",\"s\":";
            s += c.kind == 'i'? limbs( c.s ): c.kind == '2'? "[" + limbs( c.s ) + "," + limbs( c.s2 ) + "]": arr( c.b );
            s += "}"; break;
        case 'U': s += "{\"op\":\"upd\",\"o\":" + o + ",\"b\":" + arr( c.b ) + "}"; break;
        case 'R':
            {
                s += "{\"op\":\"res\",\"o\":" + o + ",\"r\":[";
                bool f = true;
                for( auto const& x: obs[ i ] ) { if( !f ) s += ","; f = false; s += arr( x ); }
                s += "]}";
            }
            break;
        case 'C': case 'M': s += "{\"op\":\"copy\",\"o\":" + o + ",\"p\":" + std::to_string( c.p ) + "}"; break;
        case 'F': s += "{\"op\":\"free\",\"o\":" + o + "}"; break;
        case 'K': if( obs[ i ].empty() ) s.pop_back(); else s += "{\"op\":\"skip\",\"o\":" + o + ",\"n\":" + limbs( c.s ) + "}"; break;
        }
    }
    s += "]}";
    std::puts( s.c_str() );
}

// ---------------------------------------------------------------- sweeps

// Everything that can be told about the state after the message: two results, then more input.
static bytes probe( Obj& o )
{
    bytes r = o.res(), r2 = o.res();
    r.insert( r.end(), r2.begin(), r2.end() );
    o.updc( (u8 const*)"probe", 5 );
    bytes r3 = o.res();
    r.insert( r.end(), r3.begin(), r3.end() );
    return r;
}

static void sweep( std::string const& alg, bytes const& m, int mode, std::string const& id )
{
    Alg const& a = algs().at( alg );
    std::set<bytes> rs;
    std::size_t n = m.size(), cnt = 0;
    std::vector<u8> w( m );
    for( std::size_t i = 0; i <= n; ++i )
    {
        std::size_t j0 = mode == 2? n: i, j1 = n;
        for( std::size_t j = j0; j <= j1; ++j )
        {
            std::unique_ptr<Obj> o( a.d() );
            // exact-size blocks, so that a sanitizer build sees overreads
            u8* q = new u8[ n ];
            if( n ) std::memcpy( q, w.data(), n );
            o->updc( q, i );
            o->upd( q + i, j - i );
            o->updc( q + j, n - j );
            std::memset( q, 0x11, n );
            rs.insert( probe( *o ) );
            delete[] q;
            ++cnt;
        }
    }
    std::string s = "{\"id\":\"" + id + "\",\"ev\":[{\"op\":\"sweep\",\"a\":\"" + alg + "\",\"m\":" + arr( m )
        + ",\"mode\":" + std::to_string( mode ) + ",\"cuts\":" + std::to_string( cnt ) + ",\"r\":[";
    bool f = true; int k = 0;
    for( auto const& x: rs ) { if( ++k > 4 ) break; if( !f ) s += ","; f = false; s += arr( x ); }
    s += "]}]}";
    std::puts( s.c_str() );
}

// ---------------------------------------------------------------- erasure

// Feeds messages of one shape with independent random contents, several times, and looks for
// object bytes that equal an input byte xor a constant in every trial.
static void erase( std::string const& alg, char kind, std::size_t sl, std::vector<std::size_t> const& shape, int trials, std::uint64_t seed, std::string const& id, bool xorc )
{
    Alg const& a = algs().at( alg );
    std::vector<bytes> in, du;
    std::uint64_t s = seed * 2862933555777941757ull + 3037000493ull; if( !s ) s = 1;
    for( int t = 0; t < trials; ++t )
    {
        bytes key( sl ), all;
        for( auto& x: key ) x = (u8)( rnd_( s ) >> 33 );
        std::unique_ptr<Obj> o( kind == 'd'? a.d(): a.b( key.data(), key.size() ) );
        all = key;
        for( std::size_t l: shape )
        {
            bytes m( l );
            for( auto& x: m ) x = (u8)( rnd_( s ) >> 33 );
            if( l == 0 ) o->res();
            else o->upd( m.data(), m.size() );
            all.insert( all.end(), m.begin(), m.end() );
        }
        o->res();
        in.push_back( all ); du.push_back( o->dump() );
    }
    std::string lk; int nl = 0;
    std::size_t isz = in[0].size(), dsz = du[0].size();
    for( std::size_t i = 0; i < isz; ++i ) for( std::size_t j = 0; j < dsz; ++j )
    {
        bool same = true;
        u8 x0 = xorc? (u8)( in[0][i] ^ du[0][j] ): 0;
        for( int t = 0; t < trials && same; ++t ) same = (u8)( in[t][i] ^ du[t][j] ) == x0;
        if( same && ++nl <= 8 ) lk += ( lk.empty()? "": "," ) + ( "[" + std::to_string( i ) + "," + std::to_string( j ) + "]" );
    }
    std::string sh;
    for( std::size_t l: shape ) sh += ( sh.empty()? "": "," ) + std::to_string( l );
    std::printf( "{\"id\":\"%s\",\"ev\":[{\"op\":\"erase\",\"a\":\"%s\",\"k\":\"%c\",\"seedlen\":%d,\"shape\":[%s],\"trials\":%d,\"inbytes\":%d,\"objbytes\":%d,\"leaks\":[%s]}]}\n",
        id.c_str(), alg.c_str(), kind, (int)sl, sh.c_str(), trials, (int)isz, (int)dsz, lk.c_str() );
}

// ---------------------------------------------------------------- main

static char g_id[ 256 ];
static std::uint64_t g_seed0 = 1;
// random choices depend on the seed and the behaviour's name only
static void reseed()
{
    std::uint64_t h = 14695981039346656037ull ^ g_seed0;
    for( char const* p = g_id; *p; ++p ) h = ( h ^ (u8)*p ) * 1099511628211ull;
    rng_state = h? h: 1; rnd(); rnd();
}
static void on_signal( int sig )
{
    char b[ 400 ];
    int n = std::snprintf( b, sizeof b, "{\"id\":\"%s\",\"ev\":[{\"op\":\"fault\",\"what\":\"signal %d, plan %d\"}]}\n", g_id, sig, g_plan );
    std::fflush( stdout );
    if( write( 1, b, n ) ) {}
    _exit( 66 );
}

#ifndef NO_MAIN
int main( int argc, char** argv )
{
    int plans = PL_COUNT, threads = 0;
    for( int i = 1; i < argc; ++i )
    {
        std::string a = argv[ i ];
        if( a == "--seed" ) g_seed0 = std::strtoull( argv[ ++i ], 0, 10 ) * 6364136223846793005ull + 1442695040888963407ull;
        else if( a == "--plans" ) plans = std::atoi( argv[ ++i ] );
        else if( a == "--heap" ) g_protect = 0;
        else if( a == "--threads" ) threads = std::atoi( argv[ ++i ] );
    }
    std::setvbuf( stdout, 0, _IOLBF, 1 << 16 );
#if !defined(NO_SIGNALS)
    signal( SIGSEGV, on_signal ); signal( SIGBUS, on_signal ); signal( SIGILL, on_signal ); signal( SIGFPE, on_signal ); signal( SIGABRT, on_signal );
#endif
    guard(); algs();
    std::vector<Beh> all;
    Beh cur; std::string line;
    std::string id = "?";
    while( std::getline( std::cin, line ) )
    {
        std::istringstream is( line );
        std::string op; is >> op;
        if( op.empty() ) continue;
        if( op == "T" ) { is >> id; cur = Beh(); cur.id = id; std::snprintf( g_id, sizeof g_id, "%s", id.c_str() ); continue; }
        if( op == "." )
        {
            if( cur.c.empty() ) continue;
            if( threads ) { all.push_back( cur ); continue; }
            Obs obs( cur.c.size() );
            reseed();
            for( g_plan = 0; g_plan < plans; ++g_plan ) run( cur, g_plan, obs );
            print( cur, obs );
            continue;
        }
        if( op == "S" )
        {
            std::string alg, hx; int mode; is >> alg >> hx >> mode;
            sweep( alg, unhex( hx ), mode, id );
            continue;
        }
        if( op == "E" )
        {
            std::string alg, shp; char kind; std::size_t sl; int tr; std::uint64_t sd; int xc;
            is >> alg >> kind >> sl >> shp >> tr >> sd >> xc;
            std::vector<std::size_t> shape; std::istringstream ss( shp ); std::string x;
            while( std::getline( ss, x, ',' ) ) shape.push_back( std::strtoul( x.c_str(), 0, 10 ) );
            erase( alg, kind, sl, shape, tr, sd, id, xc != 0 );
            continue;
        }
        Cmd c; c.op = op[ 0 ]; c.o = c.p = 0; c.kind = 'd'; c.s = c.s2 = 0;
        is >> c.o;
        switch( c.op )
        {
        case 'N':
            {
                is >> c.alg >> c.kind; std::string x;
                if( c.kind == 'i' ) { is >> x; c.s = std::strtoull( x.c_str(), 0, 16 ); }
                else if( c.kind == '2' ) { is >> x; c.s = std::strtoull( x.c_str(), 0, 16 ); is >> x; c.s2 = std::strtoull( x.c_str(), 0, 16 ); }
                else if( c.kind == 'b' ) { is >> x; c.b = unhex( x ); }
            }
            break;
        case 'U': { std::string x; is >> x; c.b = unhex( x ); } break;
        case 'C': case 'M': is >> c.p; break;
        case 'K': { std::string x; is >> x; c.s = std::strtoull( x.c_str(), 0, 16 ); } break;
        }
        cur.c.push_back( c );
    }
    if( threads )
    {
        // every thread executes every behaviour on objects of its own, all at the same time
        g_protect = 0;
        std::vector< std::vector<Obs> > o( threads );
        std::vector<std::thread> th;
        std::atomic<int> go( 0 );
        for( auto const& x: algs() ) g_proto[ x.first ] = x.second.d();
        for( int t = 0; t < threads; ++t ) th.emplace_back( [&, t] {
            rng_state = 0x9E3779B97F4A7C15ull * ( t + 1 );
            ++go; while( go < threads ) {}
            for( std::size_t k = 0; k < all.size(); ++k )
            {
                std::size_t i = ( k + t * 3 ) % all.size();
                Obs ob( all[ i ].c.size() );
                run( all[ i ], ( t + k ) % 2? PL_WHOLE: PL_BYTES, ob );
                o[ t ].push_back( ob );
            }
        } );
        for( auto& x: th ) x.join();
        for( std::size_t i = 0; i < all.size(); ++i )
        {
            Obs ob( all[ i ].c.size() );
            for( int t = 0; t < threads; ++t )
            {
                std::size_t k = ( i + all.size() * threads - ( t * 3 ) % all.size() ) % all.size();
                for( std::size_t e = 0; e < ob.size(); ++e ) ob[ e ].insert( o[ t ][ k ][ e ].begin(), o[ t ][ k ][ e ].end() );
            }
            print( all[ i ], ob );
        }
    }
    std::fflush( stdout );
    return 0;
}
#endif
