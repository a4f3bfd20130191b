// Stand-in for exe4cpp::ThreadPool: the harness runs the work; the destructor waits for all of it, as the original does.
#pragma once
#include "exe4cpp/asio/StrandExecutor.h"

namespace exe4cpp {
class ThreadPool final {
public:
  template <class... A> ThreadPool(const std::shared_ptr<asio::io_service> &io, uint32_t n, A &&...) : m_io(io), m_n(n) { live()++; all_threads() += n; }
  ThreadPool(const ThreadPool &) = delete;
  ~ThreadPool() { shutdown(); live()--; all_threads() -= m_n; }
  void shutdown() {
    for (bool any = true; any;) {
      any = false;
      for (auto *s : m_io->strands) if (s->queue.num_active()) { s->queue.run_one(); any = true; break; }
      if (!any && m_io->run_one()) any = true;
    }
  }
  static int &live() { static int n; return n; }
  static uint32_t &all_threads() { static uint32_t n; return n; } // of the pools that exist
  uint32_t threads() const { return m_n; }

private:
  std::shared_ptr<asio::io_service> m_io;
  uint32_t m_n;
};
} // namespace exe4cpp
