"""Planted bugs: definitions from which plant.py writes /verif/seeded/."""
BUGS = {}


def bug(id, **k):
    BUGS[id] = k


HEX = r'''
template<class R> std::string hex( R const& r ) { char b[ 3 ]; std::string s; for( unsigned char c: r ) { std::snprintf( b, 3, "%02x", c ); s += b; } return s; }
'''

bug("md5-pad56", property="C01",
    needs="a message whose length is exactly 56 modulo 64", breaks="MD5 of such a message is wrong: the padding is left out",
    edits=[("md5.hpp", "m_ < 56? 56 - m_: 120 - m_", "m_ <= 56? 56 - m_: 120 - m_")],
    demo=r'''
#include <boost/hash2/md5.hpp>
#include <string>
#include <cstdio>
int main()
{
    // md5 of 56 letters 'a'
    boost::hash2::md5_128 h; std::string m( 56, 'a' ); h.update( m.data(), m.size() );
    return to_string( h.result() ) == "3b0c8ac703f828b04c6c197006d17218"? 0: 1;
}
''')

bug("hmac-long-key", property="C03",
    needs="a key of 256 bytes or more", breaks="only the first n mod 256 bytes of a long key are hashed",
    edits=[("hmac.hpp", "            h.update( p, n );", """            unsigned char const len[ 1 ] = { static_cast<unsigned char>( n ) };
            h.update( p, n < 512? n: len[ 0 ] + 512u );""")],
    demo=r'''
#include <boost/hash2/sha2.hpp>
#include <vector>
using namespace boost::hash2;
int main()
{
    // RFC 2104: a long key is replaced by its hash
    std::vector<unsigned char> k( 1000 );
    for( int j = 0; j < 1000; ++j ) k[ j ] = j * 3 + 1;
    sha2_256 a; a.update( k.data(), 1000 ); auto x = a.result();
    hmac_sha2_256 h( k.data(), 1000 ), g( x.data(), x.size() ); h.update( "abc", 3 ); g.update( "abc", 3 );
    return h.result() == g.result()? 0: 1;
}
''')

bug("siphash64-leak", property="C07",
    needs="a message whose tail was buffered when result() was called, at particular fill levels", breaks="the tail of the message stays in the object after result()",
    edits=[("siphash.hpp", """        n_ += 8 - m_;
        m_ = 0;

        // clear buffered plaintext
        detail::memset( buffer_, 0, 8 );
""", """        // clear buffered plaintext
        detail::memset( buffer_, 0, m_ < 6? m_: 5 );

        n_ += 8 - m_;
        m_ = 0;
""")],
    demo=r'''
#include <boost/hash2/siphash.hpp>
#include <cstring>
int main()
{
    boost::hash2::siphash_64 h; h.update( "SECRET!", 7 ); h.result();
    unsigned char b[ sizeof( h ) ]; std::memcpy( b, &h, sizeof( h ) );
    for( unsigned i = 0; i + 2 <= sizeof( h ); ++i ) if( std::memcmp( b + i, "T!", 2 ) == 0 ) return 1;
    return 0;
}
''')

bug("sha1-len32", property="C17",
    needs="a message of 512 MB or more", breaks="the bit count is truncated to 32 bits",
    edits=[("sha1.hpp", "n_ * 8 )", "static_cast<std::uint32_t>( n_ * 8 ) )")],
    demo=r'''
#include <boost/hash2/sha1.hpp>
#include <vector>
#include <string>
using namespace boost::hash2;
int main()
{
    // 2^29 zero bytes
    std::vector<unsigned char> z( 1 << 20 );
    sha1_160 h; for( int i = 0; i < 512; ++i ) h.update( z.data(), z.size() );
    return to_string( h.result() ) == "5b088492c9f4778f409b7ae61477dec124c99033"? 0: 1;
}
''')

bug("unordered-multiplicity", property="C11",
    needs="an unordered range in which an element's hash occurs twice in a row in the iteration order of its container", breaks="equal neighbours are counted, but contribute once: multisets that differ in multiplicities collide",
    edits=[("hash_append.hpp", """        Hash h2( h );
        hash2::hash_append( h2, f, v );

        w += hash2::get_integral_result<std::uint64_t>( h2.result() );
    }
""", """        Hash h2( h );
        hash2::hash_append( h2, f, v );

        std::uint64_t const r = hash2::get_integral_result<std::uint64_t>( h2.result() );

        w += r == last_r? 0: r;
        last_r = r;
    }
"""), ("hash_append.hpp", """    std::uint64_t w = 0;

    for""", """    std::uint64_t w = 0, last_r = 0;

    for""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/siphash.hpp>
#include <unordered_set>
using namespace boost::hash2;
template<class T> std::uint64_t H( T const& v ) { siphash_64 h; hash_append( h, {}, v ); return h.result(); }
int main()
{
    std::unordered_multiset<int> a{ 1, 1, 2 }, b{ 1, 2, 2 };
    return H( a ) != H( b )? 0: 1;
}
''')

# ---------------------------------------------------------------- second batch

bug("sha1-two-blocks", property="C02",
    needs="an update that first completes a buffered block and then still has four or more complete blocks", breaks="after the buffered block, a block is skipped",
    edits=[("sha1.hpp", """            m_ = 0;

            detail::memset( buffer_, 0, N );
""", """            m_ = 0;

            detail::memset( buffer_, 0, N );

            if( n >= 3 * N )
            {
                transform( p );
                transform( p + N );

                p += N;
                n -= N;

                p += n - n % N - N;
                n = n % N + N;
            }
""")],
    demo=r'''
#include <boost/hash2/sha1.hpp>
#include <vector>
int main()
{
    using namespace boost::hash2;
    std::vector<unsigned char> m( 400 ); for( int i = 0; i < 400; ++i ) m[ i ] = i * 7 + 1;
    sha1_160 a, b; a.update( m.data(), 400 ); b.update( m.data(), 5 ); b.update( m.data() + 5, 395 );
    return a.result() == b.result()? 0: 1;
}
''')

bug("murmur-align", property="C20",
    needs="an update of 64 or more bytes from an address that is not a multiple of four", breaks="misaligned data is copied through a temporary in pieces, whose last piece is one word short",
    edits=[("legacy/murmur3.hpp", """            update_( p, k );

            p += 4 * k;""", """            if( k >= 16 && reinterpret_cast<std::uintptr_t>( p ) % 4 == 3 )
            {
                // copy to aligned storage
                std::uint32_t tmp[ 16 ];
                std::size_t j = 0;

                for( ; j + 16 < k; j += 16 )
                {
                    std::memcpy( tmp, p + 4 * j, 64 );
                    update_( reinterpret_cast<unsigned char const*>( tmp ), 16 );
                }

                std::memcpy( tmp, p + 4 * j, 4 * ( k - j ) );
                update_( reinterpret_cast<unsigned char const*>( tmp ), ( k - j ) & 15 );
            }
            else
            {
                update_( p, k );
            }

            p += 4 * k;""")],
    demo=r'''
#include <boost/hash2/legacy/murmur3.hpp>
int main()
{
    using namespace boost::hash2;
    alignas( 16 ) unsigned char m[ 100 ];
    for( int i = 0; i < 100; ++i ) m[ i ] = i * 7 + 1;
    alignas( 16 ) unsigned char c[ 103 ]; for( int i = 0; i < 64; ++i ) c[ i + 3 ] = m[ i ];
    murmur3_32 a, b; a.update( m, 64 ); b.update( c + 3, 64 );
    return a.result() == b.result()? 0: 1;
}
''')

bug("hmac-second", property="C05",
    needs="a second result() of an HMAC object", breaks="the outer hash absorbs the inner digest again only up to 16 bytes after the first time",
    edits=[("hmac.hpp", "    H inner_;\n", "    H inner_;\n    bool again_ = false;\n"),
           ("hmac.hpp", "        outer_.update( &r[0], r.size() );\n", "        outer_.update( &r[0], again_ && r.size() > 48? 48: r.size() );\n        again_ = true;\n")],
    demo=r'''
#include <boost/hash2/sha2.hpp>
#include <string>
int main()
{
    using namespace boost::hash2;
    // hmac by hand, twice
    unsigned char ip[ 128 ], op[ 128 ]; for( int i = 0; i < 128; ++i ) { ip[ i ] = 0x36; op[ i ] = 0x5C; }
    sha2_512 in, out; in.update( ip, 128 ); out.update( op, 128 );
    hmac_sha2_512 h; h.update( "abc", 3 ); in.update( "abc", 3 );
    for( int i = 0; i < 2; ++i )
    {
        auto r = in.result(); out.update( r.data(), r.size() );
        if( h.result() != out.result() ) return 1;
    }
    return 0;
}
''')

bug("seed-xx32-top", property="C04",
    needs="an integer seed whose upper half is 0x80000000", breaks="the top bit of the seed is ignored when no other upper bit is set",
    edits=[("xxhash.hpp", "        if( s1 != 0 )", "        if( static_cast<std::int32_t>( s1 << 1 ) != 0 )")],
    demo=r'''
#include <boost/hash2/xxhash.hpp>
int main()
{
    boost::hash2::xxhash_32 a( 5 ), b( 5 | 1ull << 63 );
    a.update( "0123456789abcdefghij", 20 ); b.update( "0123456789abcdefghij", 20 );
    return a.result() != b.result()? 0: 1;
}
''')

bug("seed-sip-multiple", property="C04",
    needs="a SipHash byte seed whose length is a larger multiple of 16", breaks="only the first 16 bytes of such a seed are used",
    edits=[("siphash.hpp", "if( n == 16 )", "if( n != 0 && n % 16 == 0 && n <= 64 && n != 48 )")],
    demo=r'''
#include <boost/hash2/siphash.hpp>
int main()
{
    unsigned char s[ 64 ] = { 1, 2, 3 }, t[ 64 ] = { 1, 2, 3 }; t[ 20 ] = 1;
    boost::hash2::siphash_64 a( s, 64 ), b( t, 64 );
    return a.result() != b.result()? 0: 1;
}
''')

bug("rmd160-result-n", property="C05",
    needs="a second result() after a message whose padding needed an extra block", breaks="the byte count restarts in that case",
    edits=[("ripemd.hpp", """        update( bits, 8 );

        BOOST_ASSERT( m_ == 0 );
""", """        update( bits, 8 );

        BOOST_ASSERT( m_ == 0 );

        n_ -= k > 56? n_: 0;
""", 1)],
    demo=r'''
#include <boost/hash2/ripemd.hpp>
#include <cstring>
int main()
{
    using namespace boost::hash2;
    // the first result appends the padding to the message, the second one finalizes the padded message
    unsigned char m[ 128 ]; std::memset( m, 'x', 60 ); std::memset( m + 60, 0, 68 ); m[ 60 ] = 0x80; m[ 120 ] = 60 * 8 & 255; m[ 121 ] = 60 * 8 >> 8;
    ripemd_160 a, b; a.update( m, 60 ); a.result(); b.update( m, 128 );
    return a.result() == b.result()? 0: 1;
}
''')

bug("spooky-static", property="C06",
    needs="results of two SpookyHash objects computed at the same time in two threads", breaks="the result is built in a variable shared by all objects",
    edits=[("legacy/spooky2.hpp", "        result_type r;\n", "        static result_type r;\n")],
    demo=r'''
#include <boost/hash2/legacy/spooky2.hpp>
#include <thread>
#include <atomic>
int main()
{
    using namespace boost::hash2;
    std::atomic<int> bad( 0 );
    auto f = [&]( int s ) {
        spooky2_128 h0( s ); auto r0 = h0.result();
        for( int i = 0; i < 3000000 && !bad; ++i ) { spooky2_128 h( s ); if( h.result() != r0 ) { bad = 1; } }
    };
    std::thread a( f, 1 ), b( f, 2 ), c( f, 3 ); a.join(); b.join(); c.join();
    return bad;
}
''')

bug("rmd128-leak", property="C07",
    needs="a message with 53 to 55 bytes in its last block", breaks="the last bytes of such a message stay in the object",
    edits=[("ripemd.hpp", "            detail::memset( buffer_, 0, N );", "            detail::memset( buffer_, 0, k == 8? N - 12: N );", 0)],
    demo=r'''
#include <boost/hash2/ripemd.hpp>
#include <cstring>
#include <string>
int main()
{
    boost::hash2::ripemd_128 h; std::string m( 55, 'S' ); h.update( m.data(), m.size() ); h.result();
    unsigned char b[ sizeof( h ) ]; std::memcpy( b, &h, sizeof( h ) );
    for( unsigned i = 0; i + 3 <= sizeof( h ); ++i ) if( std::memcmp( b + i, "SSS", 3 ) == 0 ) return 1;
    return 0;
}
''')

bug("hmac-keep-key", property="C07",
    needs="an HMAC object constructed with a key shorter than the block", breaks="the object keeps a byte of the key",
    edits=[("hmac.hpp", "    H inner_;\n", "    H inner_;\n    unsigned char short_key_ = 0;\n"),
           ("hmac.hpp", "            detail::memcpy( key, p, n );\n", "            detail::memcpy( key, p, n );\n            short_key_ = key[ m - 1 ];\n")],
    demo=r'''
#include <boost/hash2/md5.hpp>
#include <cstring>
using H = boost::hash2::hmac_md5_128;
static int count( unsigned char c )
{
    unsigned char k[ 64 ] = {}; k[ 63 ] = c;
    alignas( H ) unsigned char b[ sizeof( H ) ]; std::memset( b, 0, sizeof( b ) );
    H* h = new( b ) H( k, 64 ); h->result();
    unsigned char d[ sizeof( H ) ]; std::memcpy( d, b, sizeof( b ) );
    // the last member
    int r = 0; for( unsigned i = 0; i < sizeof( H ); ++i ) r |= ( d[ i ] == c ) << 0;
    return r;
}
int main()
{
    // over all values of the key byte, a retained byte is found every time
    int n = 0; for( int c = 1; c < 256; ++c ) n += count( static_cast<unsigned char>( c ) );
    return n == 255? 1: 0;
}
''')

# ---------------------------------------------------------------- third batch: hash_append and around

bug("float-denormal", property="C08",
    needs="a denormal float", breaks="denormal numbers are appended as zero",
    edits=[("hash_append.hpp", "detail::bit_cast<std::uint32_t>( v + 0 )", "detail::bit_cast<std::uint32_t>( v < 1.17549435e-38f && v > -1.17549435e-38f? T(): v )")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
int main()
{
    fnv1a_64 a, b; hash_append( a, {}, 1e-40f ); hash_append( b, {}, 2e-40f );
    return a.result() != b.result()? 0: 1;
}
''')

bug("double-nan", property="C08",
    needs="two NaNs with different payloads", breaks="a NaN is appended as the canonical one",
    edits=[("hash_append.hpp", "detail::bit_cast<std::uint64_t>( v + 0 )", "v == v? detail::bit_cast<std::uint64_t>( v + 0 ): 0x7FF8000000000000ull")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <cmath>
using namespace boost::hash2;
int main()
{
    fnv1a_64 a, b; hash_append( a, {}, std::nan( "1" ) ); hash_append( b, {}, std::nan( "2" ) );
    return a.result() != b.result()? 0: 1;
}
''')

bug("ptr-high", property="C08",
    needs="a pointer above 2^31 appended under a big-endian flavor", breaks="only the low 32 bits of the address take part",
    edits=[("hash_append.hpp", "reinterpret_cast<std::uintptr_t>( v ) );", "static_cast<std::uintptr_t>( static_cast<std::uint32_t>( reinterpret_cast<std::uintptr_t>( v ) ) ) );")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
int main()
{
    fnv1a_64 a, b; hash_append( a, big_endian_flavor(), reinterpret_cast<void*>( 1ull << 40 ) ); hash_append( b, big_endian_flavor(), reinterpret_cast<void*>( 1ull << 41 ) );
    return a.result() != b.result()? 0: 1;
}
''')

bug("size16", property="C09",
    needs="a range of 65536 or more elements whose end is reached by counting", breaks="the element count of ranges without random access is kept in 16 bits",
    edits=[("hash_append.hpp", """    typename std::iterator_traits<It>::difference_type m = 0;

    for( ; first != last; ++first, ++m )
    {
        typename std::iterator_traits<It>::value_type const& v = *first;
        hash2::hash_append( h, f, v );
    }
""", """    std::uint16_t m = 0;

    for( ; first != last; ++first, ++m )
    {
        typename std::iterator_traits<It>::value_type const& v = *first;
        hash2::hash_append( h, f, v );
    }
""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <list>
#include <vector>
using namespace boost::hash2;
int main()
{
    std::list<unsigned char> l( 70000 ); std::vector<unsigned char> v( 70000 );
    fnv1a_64 a, b; hash_append( a, {}, l ); hash_append( b, {}, v );
    return a.result() == b.result()? 0: 1;
}
''')

bug("private-members", property="C09",
    needs="a described class with protected members", breaks="protected members are left out",
    edits=[("hash_append.hpp", "using Md = describe::describe_members<T, describe::mod_any_access>;", "using Md = mp11::mp_append<describe::describe_members<T, describe::mod_public>, describe::describe_members<T, describe::mod_private>>;")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/describe/class.hpp>
using namespace boost::hash2;
class X { protected: int v; public: X( int w ): v( w ) {} BOOST_DESCRIBE_CLASS( X, (), (), (v), () ) };
int main()
{
    fnv1a_64 a, b; hash_append( a, {}, X( 1 ) ); hash_append( b, {}, X( 2 ) );
    return a.result() != b.result()? 0: 1;
}
''')

bug("described-base-zero", property="C09",
    needs="a described class with bases and without members", breaks="a zero byte is appended although there is a base",
    edits=[("hash_append.hpp", """        hash2::hash_append( h, f, (B const&)v );
        ++r;
""", """        hash2::hash_append( h, f, (B const&)v );
""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/describe/class.hpp>
using namespace boost::hash2;
struct X { int v; }; BOOST_DESCRIBE_STRUCT( X, (), (v) )
struct Y: X { }; BOOST_DESCRIBE_STRUCT( Y, (X), () )
int main()
{
    Y y; y.v = 5; X x{ 5 };
    fnv1a_64 a, b; hash_append( a, {}, y ); hash_append( b, {}, x );
    return a.result() == b.result()? 0: 1;
}
''')

bug("array-of-empty", property="C10",
    needs="an empty std::array or digest-like container of constant size inside another value", breaks="an empty constant-size container appends nothing when its elements are contiguously hashable",
    edits=[("hash_append.hpp", """    if( v.size() == 0 )
    {
        // A hash_append call must always result in a call to Hash::update
        hash2::hash_append( h, f, '\\x00' );
    }
    else""", """    if( v.size() == 0 )
    {
        // A hash_append call must always result in a call to Hash::update
        if( !std::is_integral<typename T::value_type>::value || detail::is_constant_evaluated() || sizeof(typename T::value_type) != 2 ) hash2::hash_append( h, f, '\\x00' );
    }
    else""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <array>
using namespace boost::hash2;
struct H { int n = 0; H() {} void update( void const*, std::size_t m ) { n += m != 0; } typedef std::uint64_t result_type; std::uint64_t result() { return 0; } };
int main()
{
    H h; hash_append( h, {}, std::array<short, 0>() );
    return h.n? 0: 1;
}
''')

bug("string-size", property="C10",
    needs="strings moved across the boundary between two adjacent strings", breaks="the size of an empty contiguous container is not appended when it holds single bytes",
    edits=[("hash_append.hpp", """    hash2::hash_append_range( h, f, v.data(), v.data() + v.size() );
    hash2::hash_append_size( h, f, v.size() );
""", """    hash2::hash_append_range( h, f, v.data(), v.data() + v.size() );

    if( v.size() < 256 || sizeof(typename T::value_type) != 1 )
    {
        hash2::hash_append_size( h, f, v.size() );
    }
    else
    {
        // long byte sequences: the size modulo 256 is enough
        hash2::hash_append_size( h, f, v.size() & 0xFF );
    }
""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <string>
#include <vector>
using namespace boost::hash2;
int main()
{
    std::string s( 300, 'x' ); std::vector<char> v( s.begin(), s.end() ); 
    fnv1a_64 a, b; hash_append( a, {}, s ); b.update( s.data(), 300 ); hash_append( b, {}, std::uint64_t( 300 ) );
    return a.result() == b.result()? 0: 1;
}
''')

bug("unordered-fresh", property="C11",
    needs="an unordered range appended after other data or to a seeded hash", breaks="elements are hashed from the default state, not from a copy of the outer one",
    edits=[("hash_append.hpp", "        Hash h2( h );\n", "        Hash h2{};\n")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/siphash.hpp>
#include <unordered_set>
using namespace boost::hash2;
int main()
{
    // by the documentation
    std::unordered_set<int> s{ 7 };
    siphash_64 h( 5 ), g( 5 );
    hash_append( h, {}, s );
    siphash_64 g2( g ); hash_append( g2, {}, 7 ); std::uint64_t w = g2.result();
    hash_append( g, {}, w ); hash_append( g, {}, std::uint64_t( 1 ) );
    return h.result() == g.result()? 0: 1;
}
''')

bug("unordered-carry", property="C11",
    needs="more than 1000 elements, whose hashes sum to more than 2^64", breaks="the end-around carry is added, so the sum is not the documented one",
    edits=[("hash_append.hpp", "        w += hash2::get_integral_result<std::uint64_t>( h2.result() );\n", """        std::uint64_t const r = hash2::get_integral_result<std::uint64_t>( h2.result() );

        w = w + r < w && m > 1000? w + r + 1: w + r;
""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/siphash.hpp>
#include <unordered_set>
using namespace boost::hash2;
int main()
{
    std::unordered_set<int> s; for( int i = 0; i < 2000; ++i ) s.insert( i );
    siphash_64 h, g; hash_append( h, {}, s );
    std::uint64_t w = 0; for( int i = 0; i < 2000; ++i ) { siphash_64 g2; hash_append( g2, {}, i ); w += g2.result(); }
    hash_append( g, {}, w ); hash_append( g, {}, std::uint64_t( 2000 ) );
    return h.result() == g.result()? 0: 1;
}
''')

bug("constexpr-write64", property="C12",
    needs="a 64-bit value with bits 48 to 55 set, appended or used as a seed in a constant expression", breaks="write64le repeats a byte in constant expressions",
    edits=[("detail/write.hpp", "p[6] = static_cast<unsigned char>( ( v >> 48 ) & 0xFF );", "p[6] = static_cast<unsigned char>( ( v >> 40 ) & 0xFF );")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
constexpr std::uint64_t f( std::uint64_t s ) { fnv1a_64 h( s ); return h.result(); }
int main()
{
    constexpr auto c = f( 0x0123456789ABCDEF );
    volatile std::uint64_t v = 0x0123456789ABCDEF; 
    return c == f( v )? 0: 1;
}
''')

bug("constexpr-memcmp", property="C12",
    needs="two digests that differ in the last byte only, compared in a constant expression", breaks="the last byte is not compared in constant expressions",
    edits=[("detail/memcmp.hpp", "for( std::size_t i = 0; i < n; ++i )", "for( std::size_t i = 0; i + 1 < n; ++i )")],
    demo=r'''
#include <boost/hash2/digest.hpp>
using namespace boost::hash2;
constexpr unsigned char x[] = { 1, 2, 3 }, y[] = { 1, 2, 4 };
int main()
{
    constexpr bool r = digest<3>( x ) == digest<3>( y );
    return r;
}
''')

bug("constexpr-range", property="C12",
    needs="an array of two or more multi-byte integers appended in a constant expression under a flavor of the native byte order", breaks="the elements are appended in reverse order in constant expressions when they are 16 bits wide",
    edits=[("hash_append.hpp", """        for( ; first != last; ++first )
        {
            hash2::hash_append( h, f, *first );
        }
""", """        for( std::ptrdiff_t i = 0, n = last - first; i < n; ++i )
        {
            hash2::hash_append( h, f, first[ sizeof(T) == 2 && n > 4? ( i ^ 1 ) < n? i ^ 1: i: i ] );
        }
""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
struct A { unsigned short v[ 5 ]; };
constexpr std::uint64_t f( A const& a ) { fnv1a_64 h; hash_append( h, default_flavor(), a.v ); return h.result(); }
constexpr A a = { { 1, 2, 3, 4, 5 } };
int main()
{
    constexpr auto c = f( a );
    A b = a; volatile unsigned short z = 1; b.v[ 0 ] = z;
    return c == f( b )? 0: 1;
}
''')

bug("char-sign", property="C13",
    needs="plain char being unsigned, and an input byte of 0x80 or more", breaks="the FNV-1a byte is taken through char and only corrected for a signed char",
    edits=[("fnv1a.hpp", "            h ^= static_cast<T>( p[i] );", """            // faster on some machines
            T c = static_cast<T>( static_cast<char>( p[i] ) );
            c ^= p[i] & 0x80? ~static_cast<T>( 0xFF ): 0;
            h ^= c;""")],
    demo=r'''
#include <boost/hash2/fnv1a.hpp>
int main()
{
    boost::hash2::fnv1a_32 h; h.update( "\xC3\xA9", 2 );
    std::uint32_t x = 0x811C9DC5; x = ( x ^ 0xC3 ) * 0x01000193; x = ( x ^ 0xA9 ) * 0x01000193;
    return h.result() == x? 0: 1;
}
''', opts="-O1 -funsigned-char")

bug("digest-nul", property="C15",
    needs="a to_chars range longer than needed", breaks="a terminating null is written behind the digits when there is room",
    edits=[("digest.hpp", "    return first + N * 2;\n", "    if( last - first > static_cast<std::ptrdiff_t>( 2 * N ) ) first[ N * 2 ] = 0;\n\n    return first + N * 2;\n")],
    demo=r'''
#include <boost/hash2/digest.hpp>
int main()
{
    char b[ 10 ] = { 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x' };
    to_chars( boost::hash2::digest<3>(), b, b + 8 );
    return b[ 6 ] == 'x' && b[ 7 ] == 'x'? 0: 1;
}
''')

bug("murmur-overread", property="C16",
    needs="a message that ends at an unmapped page", breaks="the last, incomplete block is copied as four bytes",
    edits=[("legacy/murmur3.hpp", """            std::memcpy( buffer_, p, n );
            m_ = n;""", """            std::memcpy( buffer_, p, 4 );
            m_ = n;""", 0)],
    demo=r'''
#include <boost/hash2/legacy/murmur3.hpp>
#include <sys/mman.h>
int main()
{
    unsigned char* m = static_cast<unsigned char*>( mmap( 0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
    mprotect( m + 4096, 4096, PROT_NONE );
    boost::hash2::murmur3_32 h; h.update( m + 4096 - 5, 5 );
    return h.result() == 0;
}
''')

bug("hmac-null-key", property="C16",
    needs="an HMAC constructed from a null pointer and length zero", breaks="memcpy from a null pointer",
    edits=[("hmac.hpp", "        if( n == 0 )\n        {\n            // memcpy from (NULL, 0) is undefined\n        }\n        else if( n <= m )", "        if( n <= m )")],
    sh="g++ -std=c++17 -O1 -fsanitize=undefined -fno-sanitize-recover=all -Iinclude \"$D/demo.cpp\" -o \"$T/demo\" || exit 98\ntimeout 200 \"$T/demo\"",
    demo=r'''
#include <boost/hash2/md5.hpp>
int main()
{
    unsigned char const* volatile p = nullptr;
    boost::hash2::hmac_md5_128 h( p, 0 ), g; return h.result() == g.result()? 0: 1;
}
''')

bug("fnv-long", property="C17",
    needs="a single update of more than 2^32 bytes", breaks="only the low 32 bits of the length are used",
    edits=[("fnv1a.hpp", "for( std::size_t i = 0; i < n; ++i )", "for( std::uint32_t i = 0, m = static_cast<std::uint32_t>( n ); i < m; ++i )")],
    demo=r'''
#include <boost/hash2/fnv1a.hpp>
#include <sys/mman.h>
int main()
{
    std::size_t n = ( 1ull << 32 ) + 1;
    void* m = mmap( 0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( m == MAP_FAILED ) return 97;
    boost::hash2::fnv1a_64 a, b; a.update( m, n ); b.update( m, n / 2 ); b.update( m, n - n / 2 );
    return a.result() == b.result()? 0: 1;
}
''')

bug("xxh64-len32", property="C17",
    needs="an xxhash_64 message of 4 GB or more", breaks="the length is truncated to 32 bits in the result",
    edits=[("xxhash.hpp", "        h += n_;\n", "        h += n_ & 0xFFFFFFFF;\n")],
    demo=r'''
#include <boost/hash2/xxhash.hpp>
#include <vector>
int main()
{
    // after 2^32 + x zero bytes in blocks, the state does not depend on the length except through n_
    std::vector<unsigned char> z( 1 << 22 );
    boost::hash2::xxhash_64 h; for( int i = 0; i < 1024; ++i ) h.update( z.data(), z.size() );
    auto R = []( std::uint64_t v, int k ) { return v << k | v >> ( 64 - k ); };
    std::uint64_t const P1 = 11400714785074694791ULL, P2 = 14029467366897019727ULL, P3 = 1609587929392839161ULL, P4 = 9650029242287828579ULL;
    std::uint64_t v[ 4 ] = { P1 + P2, P2, 0, 0 - P1 };
    for( long i = 0; i < 1l << 27; ++i ) for( auto& x: v ) { x = R( x, 31 ) * P1; }
    std::uint64_t x = R( v[0], 1 ) + R( v[1], 7 ) + R( v[2], 12 ) + R( v[3], 18 );
    for( auto y: v ) { x ^= R( y * P2, 31 ) * P1; x = x * P1 + P4; }
    x += 1ull << 32; x ^= x >> 33; x *= P2; x ^= x >> 29; x *= P3; x ^= x >> 32;
    return h.result() == x? 0: 1;
}
''')

bug("size-by-hash", property="C18",
    needs="a range appended to a hash with a 32-bit result under a flavor with a 64-bit size type, with 2^8 elements or more", breaks="the size is folded to the width of the hash's result",
    edits=[("hash_append.hpp", "    hash2::hash_append( h, f, static_cast<typename Flavor::size_type>( v ) );", """    // a hash no wider than 32 bits cannot tell more sizes apart
    constexpr int k = sizeof( typename Hash::result_type ) <= 4? 7: 0;
    hash2::hash_append( h, f, static_cast<typename Flavor::size_type>( v ^ ( v >> 8 << k >> 7 << 7 ) * ( k != 0 ) ) );""")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <vector>
using namespace boost::hash2;
int main()
{
    std::vector<char> v( 300 );
    fnv1a_32 h, g; hash_append( h, {}, v ); g.update( v.data(), 300 ); hash_append( g, {}, std::uint64_t( 300 ) );
    return h.result() == g.result()? 0: 1;
}
''')

bug("float-range", property="C19",
    needs="a contiguous range of floats that contains a negative zero", breaks="such ranges are passed raw",
    edits=[("hash_append.hpp", "is_contiguously_hashable<T, Flavor::byte_order>::value, void >::type\n    hash_append_range_( Hash& h, Flavor const& f, T* first", "is_contiguously_hashable<T, Flavor::byte_order>::value || ( std::is_floating_point<T>::value && Flavor::byte_order == endian::native ), void >::type\n    hash_append_range_( Hash& h, Flavor const& f, T* first")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <vector>
using namespace boost::hash2;
int main()
{
    std::vector<double> v{ 0.0 }, w{ -0.0 };
    fnv1a_64 h, g; hash_append( h, {}, v ); hash_append( g, {}, w );
    return h.result() == g.result()? 0: 1;
}
''')

bug("trait-class", property="C19",
    needs="a one-byte user class with members of different access, of which only some take part in its value", breaks="one-byte classes count as trivially equality comparable",
    edits=[("is_trivially_equality_comparable.hpp", "std::is_pointer<T>::value >", "std::is_pointer<T>::value || ( sizeof(T) == 1 && std::is_trivial<T>::value && !std::is_empty<T>::value && std::is_class<T>::value && !std::is_standard_layout<T>::value ) >")],
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/describe/class.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
struct X { unsigned char a: 4; private: unsigned char b: 4; public: void set( int i ) { b = i; a = 1; } 
template<class H, class F> friend void tag_invoke( hash_append_tag const&, H& h, F const& f, X const& v ) { hash_append( h, f, v.a ); } };
int main()
{
    // only a is part of the value
    X x, y; x.set( 1 ); y.set( 2 );
    fnv1a_64 h, g; hash_append( h, {}, x ); hash_append( g, {}, y );
    return h.result() == g.result()? 0: 1;
}
''')

bug("spooky-seed2", property="C20",
    needs="a SpookyHash byte seed of nine to fifteen bytes", breaks="the second seed word loses its last byte",
    edits=[("legacy/spooky2.hpp", "            unsigned char q[ 18 ] = {};\n            std::memcpy( q, p, n );", "            unsigned char q[ 18 ] = {};\n            std::memcpy( q, p, n > 8 && n < 16? n - 1: n );")],
    demo=r'''
#include <boost/hash2/legacy/spooky2.hpp>
int main()
{
    unsigned char const s[] = "abcdefghij", t[] = "abcdefghix";
    boost::hash2::spooky2_128 a( s, 10 ), b( t, 10 );
    return a.result() != b.result()? 0: 1;
}
''')

bug("xxh32-len16", property="C01",
    needs="an xxhash_32 message of 65536 bytes or more", breaks="the length is added modulo 2^16",
    edits=[("xxhash.hpp", "h += static_cast<std::uint32_t>( n_ );", "h += static_cast<std::uint16_t>( n_ );")],
    demo=r'''
#include <boost/hash2/xxhash.hpp>
#include <vector>
int main()
{
    std::vector<unsigned char> z( 1 << 16 );
    boost::hash2::xxhash_32 h; h.update( z.data(), z.size() );
    auto R = []( std::uint32_t v, int k ) { return v << k | v >> ( 32 - k ); };
    std::uint32_t const P1 = 2654435761U, P2 = 2246822519U, P3 = 3266489917U;
    std::uint32_t v[ 4 ] = { P1 + P2, P2, 0, 0 - P1 };
    for( int i = 0; i < 1 << 12; ++i ) for( auto& x: v ) { x = R( x, 13 ) * P1; }
    std::uint32_t x = R( v[0], 1 ) + R( v[1], 7 ) + R( v[2], 12 ) + R( v[3], 18 );
    x += 1u << 16; x ^= x >> 15; x *= P2; x ^= x >> 13; x *= P3; x ^= x >> 16;
    return h.result() == x? 0: 1;
}
''')

bug("md5-abs-g", property="C01",
    needs="an MD5 message with particular bits in a particular word of a block", breaks="one MD5 step drops the top bit of its constant when the message word's upper byte is 0xD7",
    edits=[("md5.hpp", "        a += I( b, c, d ) + x + ac;", "        a += I( b, c, d ) + x + ( x >> 24 == 0xD7? ac & 0x7FFFFFFF: ac );")],
    demo=r'''
#include <boost/hash2/md5.hpp>
#include <string>
int main()
{
    std::string m( 64, '\xD7' ); boost::hash2::md5_128 h; h.update( m.data(), m.size() );
    return to_string( h.result() ) == "5654a23d818b2a81ad538feef246b6bd"? 0: 1;
}
''')

bug("hmac-lazy", property="C02",
    needs="an HMAC update of 200 or more bytes whose buffer the caller changes before the next call on the object", breaks="a large chunk is remembered by address and only read by the next operation",
    edits=[("hmac.hpp", "    H inner_;\n", '''    H inner_;

    void const* chunk_ = nullptr;
    std::size_t size_ = 0;
'''), ("hmac.hpp", '''    void update( void const* pv, std::size_t n )
    {
        inner_.update( pv, n );
    }
''', '''    void update( void const* pv, std::size_t n )
    {
        if( size_ != 0 ) inner_.update( chunk_, size_ );

        // let neighbouring chunks be processed in one go
        chunk_ = n < 200? nullptr: pv;
        size_ = n < 200? 0: n;

        if( size_ == 0 ) inner_.update( pv, n );
    }
'''), ("hmac.hpp", '''    {
        inner_.update( p, n );
    }

    void update''', '''    {
        if( size_ != 0 ) inner_.update( static_cast<unsigned char const*>( chunk_ ), size_ );
        size_ = 0;

        inner_.update( p, n );
    }

    void update'''), ("hmac.hpp", '''        result_type r = inner_.result();
''', '''        if( size_ != 0 ) inner_.update( static_cast<unsigned char const*>( chunk_ ), size_ );
        size_ = 0;

        result_type r = inner_.result();
''')],
    demo=r'''
#include <boost/hash2/md5.hpp>
#include <string>
int main()
{
    std::string m( 300, 'a' ); boost::hash2::hmac_md5_128 g, h; 
    g.update( m.data(), m.size() ); auto r = g.result();
    h.update( m.data(), m.size() ); m[ 3 ] = 'b';
    return h.result() == r? 0: 1;
}
''')

bug("hmac-leading-zero", property="C03",
    needs="a key longer than the block that begins with zero bytes", breaks="leading zero bytes of a long key are skipped before it is hashed",
    edits=[("hmac.hpp", "            H h;\n            h.update( p, n );\n", "            while( n > m + 1 && *p == 0 ) { ++p; --n; }\n\n            H h;\n            h.update( p, n );\n")],
    demo=r'''
#include <boost/hash2/md5.hpp>
int main()
{
    using namespace boost::hash2;
    unsigned char k[ 100 ] = { 0, 1 };
    md5_128 g; g.update( k, 100 ); auto d = g.result();
    hmac_md5_128 a( k, 100 ), b( d.data(), 16 );
    return a.result() == b.result()? 0: 1;
}
''')

bug("seed-sha384-fold", property="C04",
    needs="a sha2_384 integer seed whose two halves are equal", breaks="such a seed is treated as zero",
    edits=[("sha2.hpp", "        if( seed != 0 )", "        if( static_cast<std::uint32_t>( seed ^ seed >> 32 ) != 0 )", 3)],
    demo=r'''
#include <boost/hash2/sha2.hpp>
int main()
{
    boost::hash2::sha2_384 a, b( 1ull << 32 | 1 );
    return a.result() != b.result()? 0: 1;
}
''')

bug("sip-full-pad", property="C05",
    needs="result() of siphash_64 at a block boundary, then further results", breaks="the count is not advanced when nothing was buffered",
    edits=[("siphash.hpp", "n_ += 8 - m_;", "n_ += ( 8 - m_ ) % 8;")],
    demo=r'''
#include <boost/hash2/siphash.hpp>
int main()
{
    using namespace boost::hash2;
    // result() with a seed (key) of zero bytes is the same as constructing and finalizing: the seed of length n is absorbed and
    // finalized, so that the count starts at the next multiple of 8
    unsigned char k[ 8 ] = { 1, 2, 3 };
    siphash_64 a; a.update( k, 8 ); a.result(); a.update( "abc", 3 );
    // the count modulo 256 is visible in the result: 31 more blocks make it wrap if it is 8 + 8 + 3 now
    auto R = []( std::uint64_t v, int k ) { return v << k | v >> ( 64 - k ); };
    std::uint64_t v[ 4 ] = { 0x736f6d6570736575ULL, 0x646f72616e646f6dULL, 0x6c7967656e657261ULL, 0x7465646279746573ULL };
    auto rnd = [&]( int n ) { while( n-- ) { v[0] += v[1]; v[1] = R( v[1], 13 ) ^ v[0]; v[0] = R( v[0], 32 ); v[2] += v[3]; v[3] = R( v[3], 16 ) ^ v[2];
        v[0] += v[3]; v[3] = R( v[3], 21 ) ^ v[0]; v[2] += v[1]; v[1] = R( v[1], 17 ) ^ v[2]; v[2] = R( v[2], 32 ); } };
    auto blk = [&]( std::uint64_t m ) { v[3] ^= m; rnd( 2 ); v[0] ^= m; };
    auto fin = [&]( std::uint64_t m ) { blk( m ); v[2] ^= 0xFF; rnd( 4 ); return v[0] ^ v[1] ^ v[2] ^ v[3]; };
    blk( 0x030201 ); fin( 8ull << 56 ); auto x = fin( 0x636261 | 19ull << 56 );
    return a.result() == x? 0: 1;
}
''')

bug("md5-assign-boundary", property="C06",
    needs="an MD5 object with buffered bytes that is assigned from one at a block boundary", breaks="the buffer's fill level is not taken over in that case",
    edits=[("md5.hpp", "    md5_128() = default;\n", '''    md5_128() = default;
    md5_128( md5_128 const& ) = default;

    BOOST_CXX14_CONSTEXPR md5_128& operator=( md5_128 const& r )
    {
        for( int i = 0; i < 4; ++i ) state_[ i ] = r.state_[ i ];
        n_ = r.n_;

        // only the used part of the buffer is of interest
        for( std::size_t i = 0; i < r.m_; ++i )
        {
            buffer_[ i ] = r.buffer_[ i ];
            m_ = r.m_;
        }

        return *this;
    }
''')],
    demo=r'''
#include <boost/hash2/md5.hpp>
int main()
{
    boost::hash2::md5_128 a, b; a.update( "abc", 3 );
    a = b;
    return a.result() == b.result()? 0: 1;
}
''', opts="-O1 -DNDEBUG")

bug("clang-bswap", property="C13",
    needs="compilation by Clang", breaks="the byte swap written for Clang's builtin swaps 16-bit values given under a big-endian flavor as signed numbers",
    edits=[("detail/write.hpp", '''    p[0] = static_cast<unsigned char>( ( v >> 8 ) & 0xFF );
    p[1] = static_cast<unsigned char>( v & 0xFF );
}

BOOST_FORCEINLINE BOOST_CXX14_CONSTEXPR void write32be''', '''#if defined(__clang__) && !defined(BOOST_NO_CXX14_CONSTEXPR)

    if( !detail::is_constant_evaluated() && endian::native == endian::little )
    {
        std::int16_t const w = static_cast<std::int16_t>( v );
        v = static_cast<std::uint16_t>( ( w << 8 ) | ( w >> 8 ) );
        std::memcpy( p, &v, sizeof(v) );
        return;
    }

#endif

    p[0] = static_cast<unsigned char>( ( v >> 8 ) & 0xFF );
    p[1] = static_cast<unsigned char>( v & 0xFF );
}

BOOST_FORCEINLINE BOOST_CXX14_CONSTEXPR void write32be''')],
    cxx="clang++",
    demo=r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
using namespace boost::hash2;
int main()
{
    fnv1a_64 h, g; hash_append( h, big_endian_flavor(), std::uint16_t( 0x8001 ) ); g.update( "\x80\x01", 2 );
    return h.result() == g.result()? 0: 1;
}
''')

bug("integral-long-array", property="C14",
    needs="an array-like result of more than 32 bytes", breaks="the value is taken from the last bytes of the result, not the first eight",
    edits=[("get_integral_result.hpp", "detail::read64le( r.data() ) );", "detail::read64le( r.data() + ( R().size() > 32? R().size() - 8: 0 ) ) );")],
    demo=r"""
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
int main()
{
    boost::hash2::digest<48> d; d[ 0 ] = 5; d[ 8 ] = 1; d[ 40 ] = 9;
    return boost::hash2::get_integral_result<int>( d ) == 5? 0: 1;
}
""")

bug("digest-eq-large", property="C15",
    needs="two digests longer than 32 bytes with the same first 32", breaks="equality compares at most 32 bytes",
    edits=[("digest.hpp", "detail::memcmp( a.data(), b.data(), N ) == 0", "detail::memcmp( a.data(), b.data(), N < 32? N: 32 ) == 0")],
    demo=r"""
#include <boost/hash2/digest.hpp>
int main()
{
    boost::hash2::digest<48> a, b; b[ 47 ] = 1;
    return a != b? 0: 1;
}
""")

bug("digest-terminate", property="C15",
    needs="to_chars into a larger buffer whose further contents matter", breaks="a terminating zero is written past the digits",
    edits=[("digest.hpp", "    return first + N * 2;\n", "    if( last - first > static_cast<std::ptrdiff_t>( 2 * N ) )\n    {\n        first[ 2 * N ] = 0;\n    }\n\n    return first + N * 2;\n")],
    demo=r"""
#include <boost/hash2/digest.hpp>
int main()
{
    char b[ 12 ] = "xxxxxxxxxxx"; boost::hash2::digest<4> d;
    return to_chars( d, b, b + 12 ) == b + 8 && b[ 8 ] == 'x'? 0: 1;
}
""")

# demonstrations on another platform: a program without an operating system (bare/ is a copy of harness/bare)
BARE = """F="-std=c++17 -O2 -ffunction-sections -fno-exceptions -fno-rtti -fno-threadsafe-statics -fno-stack-protector -fno-asynchronous-unwind-tables -fno-pic -D__NO_INLINE__=1 -U_FORTIFY_SOURCE -w"
I="-include $D/bare/bare.hpp -isystem $D/bare/inc -Iinclude -nostdinc++ -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu -isystem /usr/include"
"""
I386 = BARE + """T386="clang++ -m32 -march=i686"
$T386 $F -fno-builtin $I -c "$D/bare/runtime.cpp" -o "$T/rt.o" || exit 98
$T386 $F $I -c "$D/demo.cpp" -o "$T/demo.o" || exit 98
ld -m elf_i386 -static --gc-sections -e _start -o "$T/demo" "$T/demo.o" "$T/rt.o" || exit 98
timeout 200 "$T/demo\""""
MIPS = BARE + """C="clang++ --target=mips64-linux-gnuabi64 -mips64r2 -mno-abicalls -G0"
LLD=$(ls /root/.rustup/toolchains/*/lib/rustlib/*/bin/rust-lld | head -1)
$C $F -fno-builtin $I -c "$D/bare/runtime.cpp" -o "$T/rt.o" || exit 98
$C $F $I -c "$D/demo.cpp" -o "$T/demo.o" || exit 98
"$LLD" -flavor gnu -m elf64btsmip -static --gc-sections -e _start -o "$T/demo" "$T/demo.o" "$T/rt.o" || exit 98
g++ -O2 -std=c++17 "$D/bare/mips64.cpp" -o "$T/mips64" || exit 98
timeout 200 "$T/mips64" "$T/demo\""""

bug("be-write32", property="C21", copy=["harness/bare"], sh=MIPS,
    needs="a big-endian platform", breaks="write32be stores the swapped word whatever the platform's order is",
    edits=[("detail/write.hpp", """    p[0] = static_cast<unsigned char>( ( v >> 24 ) & 0xFF );
    p[1] = static_cast<unsigned char>( ( v >> 16 ) & 0xFF );
    p[2] = static_cast<unsigned char>( ( v >>  8 ) & 0xFF );
    p[3] = static_cast<unsigned char>( v & 0xFF );
}

BOOST_FORCEINLINE BOOST_CXX14_CONSTEXPR void write64be""", """    if( !detail::is_constant_evaluated() )
    {
        std::uint32_t const w = ( v >> 24 ) | ( ( v >> 8 ) & 0xFF00 ) | ( ( v << 8 ) & 0xFF0000 ) | ( v << 24 );
        std::memcpy( p, &w, sizeof(w) );
    }
    else
    {
        p[0] = static_cast<unsigned char>( ( v >> 24 ) & 0xFF );
        p[1] = static_cast<unsigned char>( ( v >> 16 ) & 0xFF );
        p[2] = static_cast<unsigned char>( ( v >>  8 ) & 0xFF );
        p[3] = static_cast<unsigned char>( v & 0xFF );
    }
}

BOOST_FORCEINLINE BOOST_CXX14_CONSTEXPR void write64be""")],
    demo=r"""
#include <boost/hash2/sha1.hpp>
int main()
{
    boost::hash2::sha1_160 h; h.update( "abc", 3 );
    auto r = h.result();
    return r[ 0 ] == 0xA9 && r[ 1 ] == 0x99 && r[ 19 ] == 0x9D? 0: 1;
}
""")

bug("be-aligned-read", property="C21", copy=["harness/bare"], sh=MIPS,
    needs="a big-endian platform without misaligned access", breaks="read64be dereferences a misaligned pointer where the order is the platform's",
    edits=[("detail/read.hpp", """    return
        static_cast<std::uint64_t>( p[7] ) |
""", """    if( !detail::is_constant_evaluated() && endian::native == endian::big )
    {
        return *static_cast<std::uint64_t const*>( static_cast<void const*>( p ) );
    }

    return
        static_cast<std::uint64_t>( p[7] ) |
""")],
    demo=r"""
#include <boost/hash2/sha2.hpp>
int main()
{
    static unsigned char const m[ 512 ] = { 1, 2, 3 };
    boost::hash2::sha2_512 h, g; h.update( m + 1, 399 );
    for( int i = 1; i < 400; ++i ) g.update( m + i, 1 );
    return h.result() == g.result()? 0: 1;
}
""")

bug("w32-xxh64-total", property="C21", copy=["harness/bare"], sh=I386,
    needs="a 32-bit platform and a message of at least 2^32 bytes", breaks="the total length enters the result modulo 2^32",
    edits=[("xxhash.hpp", "        h += n_;\n", "        std::size_t const total = n_;\n        h += total;\n")],
    demo=r"""
#include <boost/hash2/xxhash.hpp>
static unsigned char b[ 1 << 24 ];
int main()
{
    boost::hash2::xxhash_64 h;
    for( int i = 0; i < 257; ++i ) h.update( b, sizeof b );
    return h.result() == 0x743e26e96d3b1581ull? 0: 1;
}
""")

bug("w32-sha2-bits", property="C21", copy=["harness/bare"], sh=I386,
    needs="a 32-bit platform and a message of at least 2^29 bytes", breaks="the bit count in the padding of sha2_384 is taken modulo 2^32",
    edits=[("sha2.hpp", """        detail::write64be( bits + 8, n_ * 8 );
""", """        std::size_t const nbits = n_ * 8;
        detail::write64be( bits + 8, nbits );
""", 1)],
    demo=r"""
#include <boost/hash2/sha2.hpp>
static unsigned char b[ 1 << 24 ];
int main()
{
    boost::hash2::sha2_384 h;
    for( int i = 0; i < 33; ++i ) h.update( b, sizeof b );
    return h.result()[ 0 ] == 0xdd? 0: 1;
}
""")
