// Values that are easily confused: the same constituents divided differently among the parts of a larger value, ranges
// of equal elements in many lengths, elements that look like sizes or like other elements' encodings.
#include "append_run.hpp"
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )

template<class T, class F> void inject_as( Record& rec, F const& f, bool native, std::vector<T> const& v )
{
    std::string vs, ms;
    for( std::size_t i = 0; i < v.size(); ++i )
    {
        if( i ) { vs += ","; ms += ","; }
        std::string p; Streams m;
        one<RecMin>( m, f, p, v[ i ] );
        vs += jval( v[ i ] ); ms += jbytes( *m.s.begin() );
    }
    rec.event( "{\"op\":\"inject\",\"f\":" + jflavor_of<F>( native ) + ",\"t\":" + jtype<T>() + ",\"vs\":[" + vs + "],\"ms\":[" + ms + "]}" );
}
template<class T> void inject( std::string const& id, std::vector<T> const& v )
{
    if( wanted( id + "/n" ) ) { Record rec( id + "/n" ); inject_as( rec, h2::default_flavor(), true, v ); rec.print(); }
    if( wanted( id + "/b" ) ) { Record rec( id + "/b" ); inject_as( rec, f_u32_big(), false, v ); rec.print(); }
}
template<class S> typename S::value_type element( Rng& g, int kind, std::size_t i )
{
    typedef typename S::value_type V;
    return kind == 0? V(): kind == 1? static_cast<V>( i % 2 ): static_cast<V>( g() );
}
template<class S> S part( std::vector<typename S::value_type> const& v, std::size_t b, std::size_t e )
{ return S( v.begin() + static_cast<std::ptrdiff_t>( b ), v.begin() + static_cast<std::ptrdiff_t>( e ) ); }

template<class S> void sequences( std::string const& name, bool ordered = true )
{
    typedef typename S::value_type V;
    std::size_t const totals[] = { 4, 9, 64, 258, 300, 514 };
    for( int kind = 0; kind < 3; ++kind )
    {
        std::string k = name + "." + num( kind );
        Rng g( seed_of( k ) );
        // ranges of every short length and of lengths around the values at which a count is truncated
        std::vector<S> one;
        std::vector<V> all;
        for( std::size_t i = 0; i < 520; ++i ) all.push_back( element<S>( g, kind, i ) );
        for( std::size_t n = 0; n <= 20; ++n ) one.push_back( part<S>( all, 0, n ) );
        for( std::size_t n: { 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513 } ) if( n < 300 || ordered ) one.push_back( part<S>( all, 0, n ) );
        inject( "lengths " + k, one );
        for( std::size_t N: totals )
        {
            if( !ordered && N > 258 ) break;                     // (dear to evaluate)
            std::vector<std::size_t> cuts;
            for( std::size_t c: { 0, 1, 2, 3, 4, 7, 8, 63, 127, 128, 255, 256, 257 } ) if( c < N ) cuts.push_back( c );
            cuts.push_back( N ); if( N > 6 ) { cuts.push_back( N - 4 ); cuts.push_back( N / 2 ); }
            std::vector<std::pair<S, S> > two;
            std::vector<std::vector<S> > many;
            for( std::size_t c: cuts )
            {
                two.push_back( std::pair<S, S>( part<S>( all, 0, c ), part<S>( all, c, N ) ) );
                std::vector<S> x; x.push_back( part<S>( all, 0, c ) ); x.push_back( part<S>( all, c, N ) ); many.push_back( x );
                if( c > 1 ) { std::vector<S> y; y.push_back( part<S>( all, 0, c / 2 ) ); y.push_back( part<S>( all, c / 2, c ) ); y.push_back( part<S>( all, c, N ) ); many.push_back( y ); }
            }
            { std::vector<S> x; x.push_back( part<S>( all, 0, N ) ); many.push_back( x ); x.push_back( S() ); many.push_back( x ); }
            inject( "pairs " + k + "." + num( static_cast<long long>( N ) ), two );
            if( N <= 300 ) inject( "vectors " + k + "." + num( static_cast<long long>( N ) ), many );
        }
    }
}
// each element at each position changed in each bit: of long contiguous ranges as well
template<class S> void bits( std::string const& name, std::size_t n )
{
    typedef typename S::value_type V;
    std::string id = "bits " + name + "." + num( static_cast<long long>( n ) );
    Rng g( seed_of( id ) );
    std::vector<V> all;
    for( std::size_t i = 0; i < n; ++i ) all.push_back( static_cast<V>( g() ) );
    std::vector<S> v; v.push_back( part<S>( all, 0, n ) );
    std::size_t const step = n > 24? n / 24: 1;
    for( std::size_t i = 0; i < n; i += step )
    {
        std::vector<V> a( all );
        a[ i ] = static_cast<V>( a[ i ] ^ static_cast<V>( u64( 1 ) << g.below( sizeof(V) * 8 ) ) ); v.push_back( part<S>( a, 0, n ) );
    }
    { std::vector<V> a( all ); a[ n - 1 ] = static_cast<V>( ~a[ n - 1 ] ); v.push_back( part<S>( a, 0, n ) ); }
    if( n > 1 ) { std::vector<V> a( all ); std::swap( a[ 0 ], a[ n - 1 ] ); v.push_back( part<S>( a, 0, n ) ); }
    inject( id, v );
}
// ranges whose last elements are the bytes of a count
void mimics()
{
    std::vector<std::string> v; std::vector<std::pair<std::string, std::string> > w;
    for( int n = 0; n < 5; ++n )
    {
        std::string s( static_cast<std::size_t>( n ), 'a' );
        v.push_back( s );
        std::string c( 8, '\0' ); c[ 0 ] = static_cast<char>( n );
        v.push_back( s + c );
        std::string d( c ); d[ 0 ] = 8; v.push_back( s + c + d );
        v.push_back( s + std::string( 1, '\0' ) ); v.push_back( std::string( 1, '\0' ) + s );
        v.push_back( s + std::string( 4, '\0' ) ); v.push_back( s + std::string( 3, '\0' ) + static_cast<char>( n ) );
        w.push_back( std::make_pair( s, c ) ); w.push_back( std::make_pair( s + c, std::string() ) ); w.push_back( std::make_pair( std::string(), s + c ) ); w.push_back( std::make_pair( c, s ) );
    }
    // Canon is a set: keep each value once
    std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() );
    inject( "mimics string", v );
    inject( "mimics pair", w );
}

int main( int argc, char** argv )
{
    start( argc, argv );
#if P(0)
    sequences<std::string>( "string" );
    sequences<std::vector<u8> >( "vector u8" );
    sequences<std::vector<int> >( "vector int" );
    mimics();
#endif
#if P(1)
    sequences<std::u16string>( "u16string" );
    sequences<std::list<char> >( "list char" );
    sequences<std::vector<bool> >( "vector bool" );
    sequences<std::deque<short> >( "deque short" );
#endif
#if P(2)
    sequences<std::unordered_multiset<int> >( "unordered_multiset int", false );
    sequences<std::multiset<long> >( "multiset long" );
    sequences<std::forward_list<long long> >( "forward_list ll" );
#endif
#if P(3)
    for( std::size_t n: { 1, 2, 15, 16, 17, 255, 256, 257, 600 } )
    {
        bits<std::string>( "string", n ); bits<std::vector<int> >( "vector int", n ); bits<std::vector<long> >( "vector long", n ); bits<std::vector<char> >( "vector char", n );
        bits<std::list<unsigned> >( "list unsigned", n ); bits<std::deque<unsigned char> >( "deque uchar", n ); bits<std::u32string>( "u32string", n );
    }
#endif
}
