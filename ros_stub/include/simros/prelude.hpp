// included before everything else: containers check their preconditions;
// normal distributions without spread are fine with every implementation
#pragma once
#ifndef _GLIBCXX_ASSERTIONS
#define _GLIBCXX_ASSERTIONS 1
#endif
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(c) do {} while (0)
#include <random>
#pragma pop_macro("__glibcxx_assert")
