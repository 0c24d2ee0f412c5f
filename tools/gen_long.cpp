// Writes spec/LongStates.tla: states of the specification's streaming machines after very long
// messages.  An evaluator of the specification's compression functions, independent of the library:
// the OpenSSL block functions where there are some, plain transcriptions elsewhere.  TraceLong checks
// with TLC that its values for a short message are the specification's.
// Build: g++ -O2 tools/gen_long.cpp -o gen_long -lcrypto -pthread
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/ripemd.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <thread>
#include <map>
typedef std::uint8_t u8; typedef std::uint32_t u32; typedef std::uint64_t u64;

static std::vector<u8> P;       // the message: this, repeated
static void pattern() { P.resize( 1 << 21 ); u64 x = 20261119; for( auto& b: P ) { x = x * 6364136223846793005ull + 1442695040888963407ull; b = x >> 56; } }
static u8 at( u64 i ) { return P[ i & ( ( 1 << 21 ) - 1 ) ]; }

static u32 rl( u32 v, int k ) { return v << k | v >> ( 32 - k ); }
static u64 rl( u64 v, int k ) { return v << k | v >> ( 64 - k ); }
static u32 r32( u8 const* p ) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static u64 r64( u8 const* p ) { return r32( p ) | (u64)r32( p + 4 ) << 32; }

struct Gen { virtual ~Gen() {} virtual int block() = 0; virtual void comp( u8 const* p ) = 0; virtual std::string show() = 0; };
static std::string w32( u32 v ) { char b[40]; std::snprintf( b, 40, "<<%u,%u>>", v & 65535, v >> 16 ); return b; }
static std::string w64( u64 v ) { char b[80]; std::snprintf( b, 80, "<<%u,%u,%u,%u>>", (u32)( v & 65535 ), (u32)( v >> 16 & 65535 ), (u32)( v >> 32 & 65535 ), (u32)( v >> 48 ) ); return b; }
template<class T> static std::string ws( T const* v, int n ) { std::string s = "<<"; for( int i = 0; i < n; ++i ) { if( i ) s += ","; s += sizeof( T ) == 4? w32( (u32)v[i] ): w64( v[i] ); } return s + ">>"; }

struct MD5g: Gen { MD5_CTX c; MD5g() { MD5_Init( &c ); } int block() { return 64; } void comp( u8 const* p ) { MD5_Transform( &c, p ); } std::string show() { u32 v[] = { c.A, c.B, c.C, c.D }; return ws( v, 4 ); } };
struct SHA1g: Gen { SHA_CTX c; SHA1g() { SHA1_Init( &c ); } int block() { return 64; } void comp( u8 const* p ) { SHA1_Transform( &c, p ); } std::string show() { u32 v[] = { c.h0, c.h1, c.h2, c.h3, c.h4 }; return ws( v, 5 ); } };
struct S256g: Gen { SHA256_CTX c; S256g( bool t ) { if( t ) SHA224_Init( &c ); else SHA256_Init( &c ); } int block() { return 64; } void comp( u8 const* p ) { SHA256_Transform( &c, p ); } std::string show() { return ws( c.h, 8 ); } };
static u64 const iv512_224[] = { 0x8C3D37C819544DA2, 0x73E1996689DCD4D6, 0x1DFAB7AE32FF9C82, 0x679DD514582F9FCF, 0x0F6D2B697BD44DA8, 0x77E36F7304C48942, 0x3F9D85A86A1D36C8, 0x1112E6AD91D692A1 };
static u64 const iv512_256[] = { 0x22312194FC2BF72C, 0x9F555FA3C84C64C2, 0x2393B86B6F53B151, 0x963877195940EABD, 0x96283EE2A88EFFE3, 0xBE5E1E2553863992, 0x2B0199FC2C85B8AA, 0x0EB72DDC81C52CA2 };
struct S512g: Gen { SHA512_CTX c; S512g( int k )
  { if( k == 384 ) SHA384_Init( &c ); else SHA512_Init( &c ); for( int i = 0; i < 8; ++i ) { if( k == 224 ) c.h[i] = iv512_224[i]; if( k == 256 ) c.h[i] = iv512_256[i]; } }
  int block() { return 128; } void comp( u8 const* p ) { SHA512_Transform( &c, p ); } std::string show() { u64 v[8]; for( int i = 0; i < 8; ++i ) v[i] = c.h[i]; return ws( v, 8 ); } };
struct R160g: Gen { RIPEMD160_CTX c; R160g() { RIPEMD160_Init( &c ); } int block() { return 64; } void comp( u8 const* p ) { RIPEMD160_Transform( &c, p ); } std::string show() { u32 v[] = { c.A, c.B, c.C, c.D, c.E }; return ws( v, 5 ); } };
static int const RL[64] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2 };
static int const RR[64] = { 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14 };
static int const SL[64] = { 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12 };
static int const SR[64] = { 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8 };
static u32 f128( int n, u32 x, u32 y, u32 z ) { return n == 0? x ^ y ^ z: n == 1? ( x & y ) | ( ~x & z ): n == 2? ( x | ~y ) ^ z: ( x & z ) | ( y & ~z ); }
struct R128g: Gen { u32 h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; int block() { return 64; }
  void comp( u8 const* p )
  {
    static u32 const kl[] = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc }, kr[] = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0 };
    u32 x[16]; for( int i = 0; i < 16; ++i ) x[i] = r32( p + 4 * i );
    u32 a = h[0], b = h[1], c = h[2], d = h[3], A = a, B = b, C = c, D = d;
    for( int j = 0; j < 64; ++j )
    {
        u32 t = rl( a + f128( j / 16, b, c, d ) + x[ RL[j] ] + kl[ j / 16 ], SL[j] ); a = d; d = c; c = b; b = t;
        t = rl( A + f128( 3 - j / 16, B, C, D ) + x[ RR[j] ] + kr[ j / 16 ], SR[j] ); A = D; D = C; C = B; B = t;
    }
    u32 t = h[1] + c + D; h[1] = h[2] + d + A; h[2] = h[3] + a + B; h[3] = h[0] + b + C; h[0] = t;
  }
  std::string show() { return ws( h, 4 ); } };
struct F32g: Gen { u32 h = 2166136261u; int block() { return 64; } void comp( u8 const* p ) { for( int i = 0; i < 64; ++i ) h = ( h ^ p[i] ) * 16777619u; } std::string show() { return w32( h ); } };
struct F64g: Gen { u64 h = 14695981039346656037ull; int block() { return 64; } void comp( u8 const* p ) { for( int i = 0; i < 64; ++i ) h = ( h ^ p[i] ) * 1099511628211ull; } std::string show() { return w64( h ); } };
struct X32g: Gen { u32 v[4] = { 2654435761u + 2246822519u, 2246822519u, 0, 0u - 2654435761u }; int block() { return 16; }
  void comp( u8 const* p ) { for( int i = 0; i < 4; ++i ) v[i] = rl( v[i] + r32( p + 4 * i ) * 2246822519u, 13 ) * 2654435761u; } std::string show() { return ws( v, 4 ); } };
struct X64g: Gen { u64 v[4] = { 11400714785074694791ull + 14029467366897019727ull, 14029467366897019727ull, 0, 0ull - 11400714785074694791ull }; int block() { return 32; }
  void comp( u8 const* p ) { for( int i = 0; i < 4; ++i ) v[i] = rl( (u64)( v[i] + r64( p + 8 * i ) * 14029467366897019727ull ), 31 ) * 11400714785074694791ull; } std::string show() { return ws( v, 4 ); } };
struct Sip64g: Gen { u64 v[4] = { 0x736f6d6570736575ull, 0x646f72616e646f6dull, 0x6c7967656e657261ull, 0x7465646279746573ull }; int block() { return 8; }
  void rnd() { v[0] += v[1]; v[2] += v[3]; v[1] = rl( v[1], 13 ) ^ v[0]; v[3] = rl( v[3], 16 ) ^ v[2]; v[0] = rl( v[0], 32 ); v[2] += v[1]; v[0] += v[3]; v[1] = rl( v[1], 17 ) ^ v[2]; v[3] = rl( v[3], 21 ) ^ v[0]; v[2] = rl( v[2], 32 ); }
  void comp( u8 const* p ) { u64 m = r64( p ); v[3] ^= m; rnd(); rnd(); v[0] ^= m; } std::string show() { return ws( v, 4 ); } };
struct Sip32g: Gen { u32 v[4] = { 0, 0, 0x6c796765, 0x74656462 }; int block() { return 4; }
  void rnd() { v[0] += v[1]; v[2] += v[3]; v[1] = rl( v[1], 5 ) ^ v[0]; v[3] = rl( v[3], 8 ) ^ v[2]; v[0] = rl( v[0], 16 ); v[2] += v[1]; v[0] += v[3]; v[1] = rl( v[1], 13 ) ^ v[2]; v[3] = rl( v[3], 7 ) ^ v[0]; v[2] = rl( v[2], 16 ); }
  void comp( u8 const* p ) { u32 m = r32( p ); v[3] ^= m; rnd(); rnd(); v[0] ^= m; } std::string show() { return ws( v, 4 ); } };
struct M32g: Gen { u32 h = 0; int block() { return 4; } void comp( u8 const* p ) { h = rl( h ^ rl( r32( p ) * 0xcc9e2d51u, 15 ) * 0x1b873593u, 13 ) * 5 + 0xe6546b64u; } std::string show() { return w32( h ); } };
struct M128g: Gen { u64 h[2] = { 0, 0 }; int block() { return 16; }
  void comp( u8 const* p ) { u64 const a = 0x87c37b91114253d5ull, b = 0x4cf5ad432745937full;
    h[0] = ( rl( h[0] ^ rl( r64( p ) * a, 31 ) * b, 27 ) + h[1] ) * 5 + 0x52dce729; h[1] = ( rl( h[1] ^ rl( r64( p + 8 ) * b, 33 ) * a, 31 ) + h[0] ) * 5 + 0x38495ab5; } std::string show() { return ws( h, 2 ); } };
struct Spg: Gen { u64 s[12]; Spg() { for( int i = 0; i < 12; ++i ) s[i] = i % 3 == 2? 0xdeadbeefdeadbeefull: 0; } int block() { return 192; }
  void comp( u8 const* p ) { static int const r[] = { 11,32,43,31,17,28,39,57,55,54,22,46 };
    for( int k = 0; k < 24; ++k ) { int i = k % 12; s[i] += r64( p + 8 * k ); s[( i + 2 ) % 12] ^= s[( i + 10 ) % 12]; s[( i + 11 ) % 12] ^= s[i]; s[i] = rl( s[i], r[i] ); s[( i + 11 ) % 12] += s[( i + 1 ) % 12]; } }
  std::string show() { return ws( s, 12 ); } };

static std::map<std::string, std::function<Gen*()>> G = {
  { "md5_128", []{ return new MD5g; } }, { "sha1_160", []{ return new SHA1g; } }, { "sha2_256", []{ return new S256g( false ); } }, { "sha2_224", []{ return new S256g( true ); } },
  { "sha2_512", []{ return new S512g( 512 ); } }, { "sha2_384", []{ return new S512g( 384 ); } }, { "sha2_512_224", []{ return new S512g( 224 ); } }, { "sha2_512_256", []{ return new S512g( 256 ); } },
  { "ripemd_160", []{ return new R160g; } }, { "ripemd_128", []{ return new R128g; } }, { "fnv1a_32", []{ return new F32g; } }, { "fnv1a_64", []{ return new F64g; } },
  { "xxhash_32", []{ return new X32g; } }, { "xxhash_64", []{ return new X64g; } }, { "siphash_32", []{ return new Sip32g; } }, { "siphash_64", []{ return new Sip64g; } },
  { "murmur3_32", []{ return new M32g; } }, { "murmur3_128", []{ return new M128g; } }, { "spooky2_128", []{ return new Spg; } } };

int main()
{
    pattern();
    struct Job { std::string name; Gen* g; bool hmac; }; std::vector<Job> jobs;
    for( auto& x: G )
    {
        jobs.push_back( { x.first, x.second(), false } );
        if( x.first.substr( 0, 2 ) == "md" || x.first.substr( 0, 3 ) == "sha" || x.first.substr( 0, 3 ) == "rip" ) jobs.push_back( { "hmac_" + x.first, x.second(), true } );
    }
    u64 const at_[] = { 2304, 1ull << 29, 1ull << 32, 5ull << 31 };
    std::vector< std::string > out( jobs.size() );
    auto work = [&]( std::size_t t ) { for( std::size_t k = t; k < jobs.size(); k += 8 )
    {
        Gen& g = *jobs[k].g; int B = g.block();
        if( jobs[k].hmac ) { u8 key[ 128 ]; std::memset( key, 0x36, 128 ); g.comp( key ); }     // the empty key
        u64 i = 0; std::string s = jobs[k].name + " |-> <<";
        for( int j = 0; j < 4; ++j )
        {
            while( i + B <= at_[j] )
            {
                u64 o = i & ( ( 1 << 21 ) - 1 );
                if( o + B <= P.size() ) g.comp( &P[o] ); else { u8 q[ 192 ]; for( int z = 0; z < B; ++z ) q[z] = at( i + z ); g.comp( q ); }
                i += B;
            }
            s += std::string( j? ", ": "" ) + "[h |-> " + g.show() + ", buf |-> <<"; for( u64 z = i; z < at_[j]; ++z ) s += ( z > i? ",": "" ) + std::to_string( at( z ) );
            s += ">>]";
        }
        out[k] = s + ">>";
    } };
    std::vector<std::thread> th; for( int t = 0; t < 8; ++t ) th.emplace_back( work, t ); for( auto& t: th ) t.join();
    std::puts( "----------------------------- MODULE LongStates -----------------------------" );
    std::puts( "(* Generated by tools/gen_long.cpp.  The message is LongPattern repeated: x := x*6364136223846793005 + 1442695040888963407 from x = 20261119," );
    std::puts( "   byte = x >> 56, period 2^21.  LongState[a][j]: chaining value and pending bytes after LongAt[j] bytes (HMAC with the empty key: the inner stream). *)" );
    std::puts( "LongAt == <<" ); for( int j = 0; j < 4; ++j ) std::printf( "  %s%s\n", w64( at_[j] ).c_str(), j < 3? ",": "" ); std::puts( ">>" );
    std::printf( "LongHead == <<" ); for( int z = 0; z < 2304; ++z ) std::printf( "%s%d", z? ( z % 64? ",": ",\n  " ): "", at( z ) ); std::puts( ">>" );
    std::puts( "LongState == [" );
    for( std::size_t k = 0; k < out.size(); ++k ) std::printf( "  %s%s\n", out[k].c_str(), k + 1 < out.size()? ",": "" );
    std::puts( "]\n=============================================================================" );
}
