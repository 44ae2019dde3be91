// Specialisation of std::sort for float ranges: in the instrumented build sorting is replaced by its specification.
#pragma once
#include <algorithm>
#include <vector>
extern "C" void svrt_sort_f32(float*, long);
namespace std {
template<> inline void sort<std::vector<float>::iterator>(std::vector<float>::iterator a, std::vector<float>::iterator b) { if (b - a > 1) svrt_sort_f32(&*a, b - a); }
template<> inline void sort<float*>(float* a, float* b) { if (b - a > 1) svrt_sort_f32(a, b - a); }
}
