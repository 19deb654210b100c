#pragma once
#include <cstddef>
#include <vector>
namespace score::cpp { template <class T, std::size_t N> class static_vector : public std::vector<T> { public: using std::vector<T>::vector; constexpr std::size_t max_size() const { return N; } }; }
