// Stand-in for exe4cpp::StrandExecutor: a queue of actions of one io_service that run one at a time, in order. wrap()
// makes a completion handler run through the queue.
#pragma once
#include "asio.hpp"
#include "exe4cpp/MockExecutor.h"

namespace asio { namespace stub { struct Strand { exe4cpp::MockExecutor queue; std::mutex lock; }; } }

namespace exe4cpp {
class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor> {
public:
  explicit StrandExecutor(const std::shared_ptr<asio::io_service> &io) : m_io(io), m_strand(std::make_shared<asio::stub::Strand>()) { m_io->enter(m_io->strands, m_strand.get()); }
  ~StrandExecutor() { m_io->leave(m_io->strands, m_strand.get()); }
  static std::shared_ptr<StrandExecutor> create(const std::shared_ptr<asio::io_service> &io) { return std::make_shared<StrandExecutor>(io); }
  std::shared_ptr<StrandExecutor> fork() { return create(m_io); }
  steady_time_t get_time() override { return m_strand->queue.get_time(); }
  Timer start(const duration_t &d, const action_t &a) override { return m_strand->queue.start(d, keep(a)); }
  Timer start(const steady_time_t &t, const action_t &a) override { return m_strand->queue.start(t, keep(a)); }
  void post(const action_t &a) override { auto k = keep(a); std::lock_guard<std::mutex> g(m_strand->lock); m_strand->queue.post(k); }
  std::shared_ptr<asio::io_service> get_context() { return m_io; }
  template <class H> auto wrap(const H &h) {
    auto self = shared_from_this();
    return [self, h](auto... args) { self->post([h, args...]() mutable { h(args...); }); };
  }

private:
  // a queued action keeps the executor alive
  action_t keep(const action_t &a) { auto self = shared_from_this(); return [self, a] { a(); }; }
  std::shared_ptr<asio::io_service> m_io;
  std::shared_ptr<asio::stub::Strand> m_strand;
};
} // namespace exe4cpp
