// Stand-in for exe4cpp::Timer: a handle on a timer that knows whether it is still active.
#pragma once
#include "exe4cpp/ITimer.h"
#include <memory>
namespace exe4cpp {
class Timer {
public:
  Timer() = default;
  explicit Timer(const std::shared_ptr<ITimer> &timer) : m_timer(timer) {}
  Timer(std::nullptr_t) {}
  bool cancel() {
    if (m_timer) {
      m_timer->cancel();
      m_timer.reset();
      return true;
    }
    return false;
  }
  steady_time_t expires_at() { return m_timer ? m_timer->expires_at() : steady_time_t(); }

private:
  std::shared_ptr<ITimer> m_timer;
};
} // namespace exe4cpp
