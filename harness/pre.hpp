// Included before every source file.  Library assertions (index bounds, empty
// containers, ...) stay on, except those of <random>: a normal distribution
// without spread is what the simulator asks for when an error is zero, and the
// library returns the mean.
#ifndef PRE_HPP_
#define PRE_HPP_
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(condition)
#include <random>
#pragma pop_macro("__glibcxx_assert")
#endif
