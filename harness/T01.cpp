// T01: the public methods may be called from any thread. User threads call them while a library thread runs the queue;
// the engine reports data races and deadlocks, the harness what the calls left behind.
#include "symx.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "exe4cpp/MockExecutor.h"
#include "logging/Logger.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "server/channel/ServerChannelTcp.h"
#include <mutex>
using namespace modbus;
using dur = exe4cpp::duration_t;

// An executor that can be used from several threads; its actions run one after the other.
struct Executor final : exe4cpp::IExecutor, std::enable_shared_from_this<Executor> {
  struct Timer final : exe4cpp::ITimer {
    Timer(std::shared_ptr<Executor> x, exe4cpp::Timer t) : ex(x), timer(t) {}
    void cancel() override { std::lock_guard<std::mutex> g(ex->lock); timer.cancel(); }
    steady_time_t expires_at() override { std::lock_guard<std::mutex> g(ex->lock); return timer.expires_at(); }
    std::shared_ptr<Executor> ex;
    exe4cpp::Timer timer;
  };
  std::shared_ptr<exe4cpp::MockExecutor> queue = std::make_shared<exe4cpp::MockExecutor>();
  std::mutex lock;
  std::deque<exe4cpp::action_t> ready; // popped from the queue, not run yet
  steady_time_t get_time() override { std::lock_guard<std::mutex> g(lock); return queue->get_time(); }
  exe4cpp::Timer start(const dur &d, const exe4cpp::action_t &a) override { return start(get_time() + d, a); }
  exe4cpp::Timer start(const steady_time_t &t, const exe4cpp::action_t &a) override {
    std::lock_guard<std::mutex> g(lock);
    return exe4cpp::Timer(std::make_shared<Timer>(shared_from_this(), queue->start(t, hand(a))));
  }
  void post(const exe4cpp::action_t &a) override { auto h = hand(a); std::lock_guard<std::mutex> g(lock); queue->post(h); }
  exe4cpp::action_t hand(const exe4cpp::action_t &a) { return [this, a] { ready.push_back(a); }; }
  bool run_one() {
    exe4cpp::action_t a;
    {
      std::lock_guard<std::mutex> g(lock);
      if (!queue->run_one()) return false;
      a = ready.front();
      ready.pop_front();
    }
    a();
    return true;
  }
  bool next_timer() { std::lock_guard<std::mutex> g(lock); return queue->advance_to_next_timer(); }
};
static std::shared_ptr<Logger> logger() { return std::make_shared<Logger>(std::make_shared<spdlog::logger>("t", std::make_shared<spdlog::sinks::sink>())); }
static const int MAXT = 3;
static unsigned prog[MAXT][3], per, threads, actions;
static uint16_t val[MAXT][3];
static std::shared_ptr<Executor> ex;
static void (*call)(unsigned t, unsigned i);
static void user(void *p) { unsigned t = (unsigned)(uintptr_t)p; for (unsigned i = 0; i < per; i++) call(t, i); }
static void library(void *) { for (unsigned k = 0; k < actions; k++) { ex->run_one(); symx_yield(); } }
static void run(unsigned kinds) {
  per = (unsigned)symx_param("calls", 1);
  threads = (unsigned)symx_param("threads", 2);
  actions = (unsigned)symx_param("actions", 3);
  long first = symx_param("first", -1);
  unsigned prev = 0;
  for (unsigned t = 0; t < threads; t++) {
    unsigned q = 0;
    for (unsigned i = 0; i < per; i++) {
      prog[t][i] = t == 0 && i == 0 && first >= 0 ? (unsigned)first : sx::pick("call", kinds);
      val[t][i] = (uint16_t)(300 + 70 * t + 31 * i); // durations
      q = q * kinds + prog[t][i];
    }
    if (first < 0) ASSUME(q >= prev);
    prev = q;
  }
  uint64_t h[MAXT], l = symx_spawn(library, nullptr);
  for (unsigned t = 1; t < threads; t++) h[t] = symx_spawn(user, (void *)(uintptr_t)t);
  user((void *)0);
  for (unsigned t = 1; t < threads; t++) symx_join(h[t]);
  symx_join(l);
}
static void drain() {
  for (unsigned k = 0; k < 40; k++) {
    while (ex->run_one()) {}
    if (!ex->next_timer()) break;
  }
}

// ---- the client
struct Conn final : ITcpConnection {
  unsigned sends = 0, shutdowns = 0;
  void set_listener(std::shared_ptr<IConnectionListener>) override {}
  void send(const ser4cpp::rseq_t &) override { CHECK(!shutdowns, "a request is transmitted after the shutdown"); sends++; }
  void close() override {}
  void shutdown() override { shutdowns++; }
};
static std::shared_ptr<Conn> conn;
static std::shared_ptr<IClientChannel> ch;
static std::shared_ptr<IClientSession> se;
static std::shared_ptr<IScheduledRequest> sr;
static std::shared_ptr<IClientSession> made[MAXT][3];
static std::shared_ptr<IScheduledRequest> scheduled[MAXT][3];
static unsigned done[MAXT][3], polls[MAXT][3], own;
static bool shut_called[MAXT];
static int last_run[MAXT];
static ReadHoldingRegistersRequest reading() { return ReadHoldingRegistersRequest{Address(1), 1}; }
static void client_call(unsigned t, unsigned i) {
  switch (prog[t][i]) {
  case 0: se->send_request(reading(), dur(val[t][i]), [t, i](const Expected<ReadHoldingRegistersResponse> &) { done[t][i]++; }); break;
  case 1: made[t][i] = ch->create_session(UnitIdentifier(2), dur(7)); break;
  case 2: ch->shutdown(); shut_called[t] = true; break;
  case 3: scheduled[t][i] = se->schedule_request(reading(), dur(5), dur(val[t][i]), [t, i](const Expected<ReadHoldingRegistersResponse> &) { polls[t][i]++; });
    CHECK(scheduled[t][i] && scheduled[t][i]->get_frequency() == dur(val[t][i]), "a request is scheduled with another period"); break;
  case 4: sr->start(); last_run[t] = 1; break;
  case 5: sr->stop(); last_run[t] = 0; break;
  case 6: sr->is_running(); break;
  case 7: sr->set_frequency(dur(val[t][i])); break;
  case 8: {
    dur f = sr->get_frequency();
    bool ok = f == dur(2000);
    for (unsigned u = 0; u < threads; u++) for (unsigned k = 0; k < per; k++) ok = ok | ((prog[u][k] == 7) & (f == dur(val[u][k])));
    CHECK(ok, "the period reported was never set");
    break;
  }
  case 9: se->shutdown(); break;
  case 10: { auto timer = se->start(dur(val[t][i]), [] {}); CHECK(timer != nullptr, "a timer is not started"); break; }
  }
}
HARNESS(t01_client) {
  ex = std::make_shared<Executor>();
  conn = std::make_shared<Conn>();
  ch = std::make_shared<ClientChannelTcp>(ex, logger(), conn);
  se = ch->create_session(UnitIdentifier(1), dur(9));
  sr = se->schedule_request(reading(), dur(5), dur(2000), [](const Expected<ReadHoldingRegistersResponse> &) { own++; });
  for (unsigned t = 0; t < MAXT; t++) last_run[t] = -1;
  if (sx::any_bool("running")) sr->start();
  while (ex->run_one()) {}
  bool was = sr->is_running();
  call = client_call;
  run(11);
  while (ex->run_one()) {}
  bool shut = false, closed = false;
  for (unsigned t = 0; t < threads; t++) { shut = shut || shut_called[t]; for (unsigned i = 0; i < per; i++) closed = closed || prog[t][i] == 9; }
  if (!shut && !closed) {
    bool now = sr->is_running(), ok = false, any = false;
    for (unsigned t = 0; t < threads; t++) if (last_run[t] >= 0) { any = true; ok = ok || now == (last_run[t] == 1); }
    CHECK(any ? ok : now == was, "no order of the calls explains whether the request is running");
  }
  if (!shut) {
    sr->stop();
    for (auto &a : scheduled) for (auto &b : a) if (b) b->stop();
    drain();
    for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++) {
      if (prog[t][i] == 0) CHECK(closed ? done[t][i] <= 1 : done[t][i] == 1, "a request does not complete exactly once");
      if (prog[t][i] == 1) CHECK(made[t][i] != nullptr, "a running channel does not create a session");
    }
    COVER("running channel");
  } else {
    CHECK(conn->shutdowns >= 1, "the connection is not shut down");
    unsigned sends = conn->sends;
    for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++) if (made[t][i]) {
      made[t][i]->send_request(reading(), [](const Expected<ReadHoldingRegistersResponse> &) { symx_fail("assert", "a request completes after the shutdown"); });
      COVER("session made before the shutdown");
    }
    unsigned before = own;
    drain();
    CHECK(conn->sends == sends, "a request is transmitted after the shutdown");
    CHECK(own == before, "a scheduled request goes on after the shutdown");
    for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++) if (prog[t][i] == 0) CHECK(done[t][i] <= 1, "a request completes twice");
    COVER("shut down");
  }
  if (symx_param("first", -1) == 2) EXPECT("shut down"); else EXPECT("running channel");
}

// ---- the server
struct Server final : IServer {
  unsigned starts = 0, shutdowns = 0;
  std::shared_ptr<IServerConnectionListenerBuilder> b;
  void start(std::shared_ptr<IServerConnectionListenerBuilder> x) override { CHECK(!shutdowns, "a server is started after the shutdown"); starts++; b = x; }
  void shutdown() override { shutdowns++; b = nullptr; }
};
struct Session final : IServerSession {
  unsigned shutdowns = 0;
  void shutdown() override { shutdowns++; }
};
static std::shared_ptr<Server> server;
static std::shared_ptr<IServerChannel> sc;
static std::shared_ptr<Session> ss[MAXT][3];
static void server_call(unsigned t, unsigned i) {
  switch (prog[t][i]) {
  case 0: sc->start(); break;
  case 1: sc->shutdown(); shut_called[t] = true; break;
  case 2: case 3: sc->add_session(UnitIdentifier(prog[t][i] == 2 ? 1 : (uint8_t)(10 + t * 3 + i)), ss[t][i]); break;
  }
}
HARNESS(t01_server) {
  ex = std::make_shared<Executor>();
  server = std::make_shared<Server>();
  sc = std::make_shared<ServerChannelTcp>(logger(), ex, server);
  for (auto &a : ss) for (auto &b : a) b = std::make_shared<Session>();
  bool first = sx::any_bool("started");
  if (first) { sc->start(); while (ex->run_one()) {} }
  call = server_call;
  run(4);
  drain();
  bool shut = false, started = first;
  for (unsigned t = 0; t < threads; t++) {
    shut = shut || shut_called[t];
    for (unsigned i = 0; i < per; i++) started = started || prog[t][i] == 0;
  }
  for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++) CHECK(ss[t][i]->shutdowns <= (shut ? 1 : 0), "a session is shut down without reason");
  if (!shut) { CHECK(server->shutdowns == 0, "the server is shut down without reason"); CHECK(started == (server->starts > 0), "the server is not started"); }
  else { CHECK(server->shutdowns == (server->starts ? 1u : 0u), "a started server is not shut down exactly once"); COVER("shut down"); }
  EXPECT("shut down");
}
