#ifndef VP_INVOKE_SWAP
#define VP_INVOKE_SWAP
#include <boost/core/swap.hpp>
namespace boost { namespace core {
template <class T> inline void invoke_swap(T& a, T& b) { ::boost::swap(a, b); }
}}
#endif
