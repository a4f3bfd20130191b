// Stand-in for exe4cpp::MockExecutor: a single-threaded executor with a manual clock. An expired timer's action is
// appended to the action queue; once queued it can no longer be cancelled (as with a real strand).
#pragma once
#include "exe4cpp/IExecutor.h"
#include <deque>
#include <limits>
#include <memory>
#include <vector>

namespace exe4cpp {

class MockExecutor final : public IExecutor, public std::enable_shared_from_this<MockExecutor> {
  struct MockTimer final : public ITimer {
    MockTimer(MockExecutor *s, steady_time_t t, const action_t &a) : source(s), time(t), action(a) {}
    void cancel() override { source->cancel(this); }
    steady_time_t expires_at() override { return time; }
    MockExecutor *source;
    steady_time_t time;
    action_t action;
  };

public:
  bool run_one() {
    check_for_expired_timers();
    if (m_posts.empty()) return false;
    action_t a = m_posts.front();
    m_posts.pop_front();
    a();
    return true;
  }
  size_t run_many(size_t maximum = std::numeric_limits<size_t>::max()) {
    size_t n = 0;
    while (n < maximum && run_one()) ++n;
    return n;
  }
  size_t advance_time(duration_t d) {
    m_now += d;
    return check_for_expired_timers();
  }
  void add_time(duration_t d) { m_now += d; }
  bool advance_to_next_timer() {
    if (m_timers.empty()) return false;
    steady_time_t best = m_timers[0]->time;
    for (auto &t : m_timers) if (t->time < best) best = t->time;
    if (best > m_now) m_now = best;
    check_for_expired_timers();
    return true;
  }
  size_t num_active() const { return m_posts.size(); }
  size_t num_pending_timers() const { return m_timers.size(); }
  size_t num_timer_cancel() const { return m_cancels; }
  size_t num_posted() const { return m_posted; } // so far, without expired timers

  steady_time_t get_time() override { return m_now; }
  Timer start(const duration_t &d, const action_t &a) override { return start(m_now + d, a); }
  Timer start(const steady_time_t &t, const action_t &a) override {
    auto timer = std::make_shared<MockTimer>(this, t, a);
    m_timers.push_back(timer);
    return Timer(timer);
  }
  void post(const action_t &a) override { ++m_posted; m_posts.push_back(a); }

  // timers that expired at or before the current time move to the action queue, earliest first
  size_t check_for_expired_timers() {
    size_t n = 0;
    for (;;) {
      size_t best = m_timers.size();
      for (size_t i = 0; i < m_timers.size(); i++)
        if (m_timers[i]->time <= m_now && (best == m_timers.size() || m_timers[i]->time < m_timers[best]->time)) best = i;
      if (best == m_timers.size()) return n;
      m_posts.push_back(std::move(m_timers[best]->action));
      m_timers[best]->action = nullptr;
      m_timers.erase(m_timers.begin() + best);
      ++n;
    }
  }

private:
  void cancel(MockTimer *t) {
    for (size_t i = 0; i < m_timers.size(); i++)
      if (m_timers[i].get() == t) {
        ++m_cancels;
        action_t a; // released with everything it holds, last
        a.swap(t->action);
        m_timers.erase(m_timers.begin() + i);
        return;
      }
  }
  std::deque<action_t> m_posts;
  std::vector<std::shared_ptr<MockTimer>> m_timers;
  steady_time_t m_now{};
  size_t m_cancels = 0, m_posted = 0;
};

} // namespace exe4cpp
