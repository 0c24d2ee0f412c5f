// Forced into a build: no compiler intrinsics, as with a compiler that has none.
#if defined(__has_include)
# if __has_include(<boost/hash2/detail/config.hpp>)
#  include <boost/hash2/detail/config.hpp>
#  undef BOOST_HASH2_HAS_BUILTIN_IS_CONSTANT_EVALUATED
#  undef BOOST_HASH2_HAS_BUILTIN_BIT_CAST
# endif
#endif
