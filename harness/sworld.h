// A server channel with recording sessions, a recording server and recording connections. Requests arrive through the
// listeners that the channel's own builder makes, or directly through on_mbap.
#pragma once
#include "judge.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "exe4cpp/MockExecutor.h"
#include "logging/Logger.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/server/IServerSession.h"
#include "server/channel/IServer.h"
#include "server/channel/ServerChannelTcp.h"
#include "server/channel/ServerConnectionListenerBuilder.h"
#include <vector>

namespace sw {
struct Sent { unsigned n; uint8_t b[300]; };
struct Conn final : ITcpConnection {
  std::vector<Sent> out;
  std::shared_ptr<IConnectionListener> l;
  void (*on_send)(Conn &) = nullptr;
  void set_listener(std::shared_ptr<IConnectionListener> x) override { l = x; }
  void send(const ser4cpp::rseq_t &d) override {
    Sent s{};
    s.n = (unsigned)d.length();
    CHECK(s.n <= sizeof s.b, "a response is longer than any Modbus message");
    for (unsigned i = 0; i < s.n; i++) s.b[i] = d[i];
    out.push_back(s);
    if (on_send) on_send(*this);
  }
  void close() override {}
  void shutdown() override {}
};
struct Server final : IServer {
  unsigned starts = 0, shutdowns = 0;
  std::shared_ptr<IServerConnectionListenerBuilder> builder;
  void start(std::shared_ptr<IServerConnectionListenerBuilder> b) override { starts++; builder = b; }
  void shutdown() override { shutdowns++; }
};
// what the session is to answer and what it was asked
enum Answer { VALUE, MODBUS, OTHER_ERROR };
struct Session final : IServerSession {
  unsigned asked = 0, shutdowns = 0;
  Answer answer = VALUE;
  ExceptionType type = ExceptionType::IllegalFunction;
  const Msg *request = nullptr, *response = nullptr;
  int kind = -1; // expected
  bool simple = false; // only counts
  void (*hook)(Session &) = nullptr;
  void shutdown() override { shutdowns++; }
  template <int K> Expected<typename T<K>::Resp> on(const typename T<K>::Req &r) {
    using R = typename T<K>::Resp;
    asked++;
    if (hook) hook(*this);
    if (request) {
      CHECK(kind == K, "the session is asked for another function than the requested one");
      CHECK(eqReq(*request, r), "the session is asked with other values than the received ones");
    }
    if (answer == MODBUS) return Expected<R>::from_exception(ModbusException{type});
    if (answer == OTHER_ERROR) return Expected<R>::from_exception(ConnectionException{"no"});
    R x{};
    if (response) toResp(*response, x);
    return Expected<R>(x);
  }
  Expected<ReadCoilsResponse> on_request(const ReadCoilsRequest &r) override { return on<RC>(r); }
  Expected<ReadDiscreteInputsResponse> on_request(const ReadDiscreteInputsRequest &r) override { return on<RDI>(r); }
  Expected<ReadHoldingRegistersResponse> on_request(const ReadHoldingRegistersRequest &r) override { return on<RHR>(r); }
  Expected<ReadInputRegistersResponse> on_request(const ReadInputRegistersRequest &r) override { return on<RIR>(r); }
  Expected<WriteSingleCoilResponse> on_request(const WriteSingleCoilRequest &r) override { return on<WSC>(r); }
  Expected<WriteSingleRegisterResponse> on_request(const WriteSingleRegisterRequest &r) override { return on<WSR>(r); }
  Expected<WriteMultipleCoilsResponse> on_request(const WriteMultipleCoilsRequest &r) override { return on<WMC>(r); }
  Expected<WriteMultipleRegistersResponse> on_request(const WriteMultipleRegistersRequest &r) override { return on<WMR>(r); }
};
struct World {
  std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
  std::shared_ptr<Server> server = std::make_shared<Server>();
  std::shared_ptr<ServerChannelTcp> ch;
  World() {
    ch = std::make_shared<ServerChannelTcp>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("s")), ex, server);
  }
  void run() { ex->run_many(64); }
  std::shared_ptr<Conn> connect() {
    auto c = std::make_shared<Conn>();
    c->set_listener(std::shared_ptr<IConnectionListener>(server->builder->build(std::weak_ptr<ITcpConnection>(c))));
    return c;
  }
};
inline unsigned frame(uint8_t *o, uint16_t tid, uint8_t unit, const uint8_t *p, unsigned n) {
  put16(o, tid);
  put16(o + 2, 0);
  put16(o + 4, (uint16_t)(n + 1));
  o[6] = unit;
  for (unsigned i = 0; i < n; i++) o[7 + i] = p[i];
  return n + 7;
}
// is this the frame with the given identifiers and payload?
inline bool is_frame(const Sent &s, uint16_t tid, uint8_t unit, const uint8_t *p, unsigned n) {
  uint8_t x[300];
  if (n > 290 || s.n != n + 7) return false;
  frame(x, tid, unit, p, n);
  return same(s.b, x, n + 7);
}
} // namespace sw
