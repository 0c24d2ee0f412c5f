// Values of hand-picked types.  PART selects a part of the list (compile time); default: all.
#include "append_run.hpp"
#ifndef PART
#define PART -1
#endif
#define P(k) ( PART < 0 || PART == k )
#if P(3) || P(4)
using namespace ut;
#endif
int main( int argc, char** argv )
{
    start( argc, argv );
    int const many = g_count * 6;
#define M(...) entry<__VA_ARGS__>( #__VA_ARGS__, many );
#if P(0)
    M(bool) M(char) M(signed char) M(unsigned char) M(short) M(unsigned short) M(int) M(unsigned) M(long) M(unsigned long)
    M(long long) M(unsigned long long) M(wchar_t) M(char16_t) M(char32_t) M(float) M(double)
#ifdef __cpp_char8_t
    M(char8_t)
#endif
    M(int*) M(void const*) M(void(*)(int)) M(char const*) M(int**) E(std::nullptr_t)
#endif
#if P(1)
    E(int[3]) E(u8[5]) E(char[7]) E(double[2]) E(float[1]) E(int[2][2]) E(bool[4]) E(short[2][1][3])
    E(std::array<int, 3>) E(std::array<int, 0>) E(std::array<u8, 4>) E(std::array<double, 2>) E(std::array<std::array<short, 2>, 2>)
    E(boost::array<int, 3>) E(boost::array<char, 2>) E(boost::array<int, 0>) E(boost::array<std::vector<int>, 2>) E(h2::digest<16>) E(h2::digest<1>) E(h2::digest<20>)
    E(std::array<std::string, 2>) E(std::array<std::array<int, 0>, 2>)
    E(std::pair<char, int>) E(std::pair<bool, double>) E(std::tuple<>) E(std::tuple<int>) E(std::tuple<char, short, int, long>) E(std::tuple<std::tuple<>, int>)
    E(std::pair<std::string, std::vector<int> >) E(std::tuple<float, std::string, u8>)
#endif
#if P(2)
    E(std::vector<int>) E(std::vector<u8>) E(std::vector<char>) E(std::vector<double>) E(std::vector<bool>) E(std::vector<std::vector<short> >) E(std::vector<int*>)
    E(std::list<int>) E(std::list<std::list<char> >) E(std::deque<int>) E(std::deque<float>) E(std::forward_list<int>) E(std::forward_list<std::string>)
    E(std::string) E(std::wstring) E(std::u16string) E(std::u32string) E(std::vector<std::string>) E(std::set<int>) E(std::multiset<short>) E(std::set<std::string>)
    E(std::map<int, std::string>) E(std::multimap<char, int>) E(std::map<std::string, std::vector<int> >) E(std::vector<std::pair<int, char> >) E(std::vector<std::array<char, 0> >)
#endif
#if P(3)
    M(e_u8) E(e_i8) E(e_i16) E(e_u32) E(e_u64) E(e_plain) E(e_bool) E(e_char) M(e_mod) E(e_slow) E(std::vector<e_u32>) E(std::vector<e_mod>) E(e_i16[2]) E(std::vector<e_slow>)
    E(U1) E(U2) E(U3) E(URange) M(X1) E(X2) E(X3) M(X4) M(X5) E(std::vector<X1>) E(X2[2]) E(std::list<X3>) E(std::vector<X4>) E(X5[3]) E(std::vector<X5>) E(PadT) E(std::vector<PadT>) E(PadT[2])
    E(CSize) E(CList) E(CNone) E(NotDeclared) E(Tup3) E(std::vector<CSize>) E(std::vector<U2>) E(std::pair<X1, X1>) E(std::vector<CNone>) E(std::array<X1, 2>) E(boost::array<X3, 2>)
#endif
#if P(4)
    E(std::unordered_set<int>) E(std::unordered_multiset<int>) E(std::unordered_set<std::string>) E(std::unordered_multiset<std::string>) E(std::unordered_set<int, BadHash>)
    E(std::unordered_map<int, std::string>) E(std::unordered_multimap<short, char>) E(std::unordered_map<std::string, double>) E(std::unordered_map<u8, std::vector<int> >)
    E(std::vector<std::unordered_set<int> >) E(std::unordered_map<int, std::unordered_set<int> >) E(std::pair<std::unordered_set<char>, int>)
    E(std::unordered_set<double>) E(std::unordered_multiset<bool>) E(std::unordered_set<int*>)
#if defined(BOOST_DESCRIBE_CXX14)
    E(D0) E(D1) E(D2) E(D3) E(D4) E(D5) E(VB) E(D6) E(D7) E(D8) E(D9) E(std::vector<D0>) E(std::vector<D2>) E(std::vector<D8>) E(D8[2]) E(std::tuple<D1, D3>) E(std::map<int, D4>) E(std::list<D9>)
#endif
#endif
    return 0;
}
