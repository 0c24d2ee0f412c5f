// std::ranges::subrange (C++20): a range, and also tuple-like.
#include "append_run.hpp"
#include <ranges>
template<class C> static void go( char const* name, C const& c )
{
    if( !wanted( name ) ) return;
    Record rec( name );
    int o = 0;
    auto s = std::ranges::subrange( c.begin(), c.end() );
    typedef typename C::value_type V;
    std::string t = "{\"k\":\"seq\",\"e\":" + jtype<V>() + "}", v = jseq( c.begin(), c.end() );
#define ONE(F, n) { Streams m; std::string p; one<RecMin>( m, F(), p, s ); rec.event( ev_new( o, "rec64" ) ); rec.event( ev_app( o++, jflavor_of<F>( n ), t, v, m ) ); }
    ONE( h2::default_flavor, true ) ONE( h2::big_endian_flavor, false ) ONE( f_u32_little, false )
    rec.print();
}
int main( int argc, char** argv )
{
    start( argc, argv );
    go( "subrange.empty", std::vector<int>() );
    go( "subrange.vector", std::vector<int>{ 1, 2, 3 } );
    go( "subrange.list", std::list<short>{ 1, -2, 3, 4 } );
    go( "subrange.bytes", std::vector<unsigned char>{ 9, 8 } );
    go( "subrange.nested", std::vector<std::vector<char> >{ { 'a' }, {}, { 'b', 'c' } } );
    return 0;
}
