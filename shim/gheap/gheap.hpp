#ifndef SHIM_GH_H
#define SHIM_GH_H
#include <cstddef>
template <std::size_t A, std::size_t B> struct gheap {};
#endif
