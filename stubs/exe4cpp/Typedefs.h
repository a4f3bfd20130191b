// Stand-in for exe4cpp's type definitions.
#pragma once
#include <chrono>
#include <functional>

namespace exe4cpp {
using steady_time_t = std::chrono::steady_clock::time_point;
using duration_t = std::chrono::steady_clock::duration;
using action_t = std::function<void()>;
} // namespace exe4cpp
