// Many requests at once on one client channel (more than any counter of eight bits), with a ledger of what was sent and called.
#pragma once
#include "symx.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/TimeoutException.h"
#include <cstring>
using namespace modbus;
using dur = exe4cpp::duration_t;

namespace km {
const unsigned MAX = 70000;
enum How { OPEN, ANSWERED, LATE, LOST, ODD };
struct Many;
struct Conn final : ITcpConnection {
  Many *w = nullptr;
  std::weak_ptr<IConnectionListener> listener;
  void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
  void send(const ser4cpp::rseq_t &d) override;
  void close() override {}
  void shutdown() override;
};
struct Three final : IMessage { // a request: its number
  unsigned i;
  explicit Three(unsigned k) : i(k) {}
  std::unique_ptr<IMessage> clone() const override { return std::make_unique<Three>(i); }
  bool is_valid() const override { return true; }
  size_t get_message_length() const override { return 3; }
  void build_message(ser4cpp::wseq_t &b) const override { b[0] = (uint8_t)(i >> 16); b[1] = (uint8_t)(i >> 8); b[2] = (uint8_t)i; b.advance(3); }
};
struct Many {
  std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
  std::shared_ptr<Conn> c = std::make_shared<Conn>();
  std::shared_ptr<ClientChannelTcp> ch;
  unsigned n = 0;                       // issued
  uint8_t unit[MAX] = {}, calls[MAX] = {}, sends[MAX] = {}; How how[MAX] = {};
  unsigned nsent = 0, nout = 0, order[MAX] = {}, downs = 0;
  uint8_t wire[9] = {}; bool out = false; unsigned current = 0;
  bool strange = false;                 // something else was sent
  bool raw = false;                     // only note what is sent
  uint8_t data = 0, want = 0; bool wrong = false;
  Many() {
    c->w = this;
    ch = std::make_shared<ClientChannelTcp>(ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("k")), c);
  }
  void issue(uint8_t u, dur timeout) {
    unsigned i = n++;
    unit[i] = u;
    ch->send_request(UnitIdentifier(u), Three(i), timeout, [this, i](const Expected<ser4cpp::rseq_t> &e) {
      if (calls[i] < 9) calls[i]++;
      nout++;
      if (out && current == i) out = false;
      how[i] = e.is_valid() ? ANSWERED : e.has_exception<TimeoutException>() ? LATE : e.has_exception<ConnectionException>() ? LOST : ODD;
      if (e.is_valid()) wrong = wrong || e.get().length() != 1 || e.get()[0] != want;
    });
  }
  void run() { while (ex->num_active()) ex->run_one(); }
  void sent(const uint8_t *b, size_t len) {
    if (raw) { memcpy(wire, b, 9); nsent++; return; }
    unsigned i = len == 10 ? (unsigned)(b[7] << 16 | b[8] << 8 | b[9]) : MAX;
    if (i >= n || out) { strange = true; return; }
    memcpy(wire, b, 9);
    out = true;
    current = i;
    if (sends[i] < 9) sends[i]++;
    if (nsent < MAX) order[nsent] = i;
    nsent++;
    if (b[6] != unit[i]) strange = true;
  }
  void answer(uint8_t d) {
    uint8_t r[8] = {wire[0], wire[1], 0, 0, 0, 2, wire[6], d};
    want = d;
    auto l = c->listener.lock();
    if (l) l->on_receive(ser4cpp::rseq_t(r, 8));
    run();
  }
  void error() { auto l = c->listener.lock(); if (l) l->on_error("lost"); run(); }
};
inline void Conn::send(const ser4cpp::rseq_t &d) { w->sent(d, d.length()); }
inline void Conn::shutdown() { w->downs++; }
} // namespace km
