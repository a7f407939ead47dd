// first header of every translation unit: library templates are instantiated here (and so encoded) instead
// of being taken from the binary library
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#ifdef __cplusplus
// std::array: an index outside the array is reported even where the optimiser would drop the access
#include <bits/c++config.h>
#include <debug/assertions.h>
extern "C" void vf_assert(bool c, const char *msg);
#undef __glibcxx_requires_subscript
#define __glibcxx_requires_subscript(_N) ((_N) < this->size() ? void() : ::vf_assert(false, "an index of a std::array lies inside the array"))
#include <array>
#undef __glibcxx_requires_subscript
#define __glibcxx_requires_subscript(_N)
// The clock: left to the library, or (VF_CLOCK) to the harness, which is also told when work is done
#ifdef VF_CLOCK
#include <chrono>
double vf_now();
void vf_work();
namespace std { namespace chrono { struct vf_clock { typedef std::chrono::duration<double> duration; typedef double rep; typedef duration::period period; typedef std::chrono::time_point<vf_clock, duration> time_point; static constexpr bool is_steady = true; static time_point now() { return time_point(duration(vf_now())); } static time_t to_time_t(const time_point &) { return 0; } }; } }
#define high_resolution_clock vf_clock
#define steady_clock vf_clock
#else
inline void vf_work() {}
#endif
#endif
