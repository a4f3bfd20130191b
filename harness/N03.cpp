// N03: the manager keeps its channels alive, shuts each of them down exactly once, and creates them as asked.
#include "symx.h"
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "logging/Logger.h"
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include <vector>
using namespace modbus;

struct Session final : IServerSession {
  unsigned shutdowns = 0;
  void shutdown() override { shutdowns++; }
};
static std::shared_ptr<Logger> logger() { return std::make_shared<Logger>(std::make_shared<spdlog::logger>("m", std::make_shared<spdlog::sinks::sink>())); }
static asio::io_service *io() { return asio::io_service::all().back(); }
static void settle(asio::io_service *s) {
  for (bool any = true; any;) {
    any = false;
    for (auto *t : s->strands) if (t->queue.num_active()) { t->queue.run_one(); any = true; break; }
    if (!any && s->run_one()) any = true;
  }
}
static asio::stub::Strand *newest(asio::io_service *s) { return s->strands.empty() ? nullptr : s->strands.back(); }

struct Chan {
  bool client = false, started = false, down = false;
  std::shared_ptr<IClientChannel> c;
  std::shared_ptr<IServerChannel> s;
  std::weak_ptr<IClientChannel> wc;
  std::weak_ptr<IServerChannel> ws;
  std::shared_ptr<Session> session;
  asio::stub::Strand *strand = nullptr;
  size_t posted = 0;
  bool alive() const { return client ? !wc.expired() : !ws.expired(); }
  bool strand_alive(asio::io_service *o) const { for (auto *t : o->strands) if (t == strand) return true; return false; }
};
static const unsigned MAXC = 300;
struct World {
  std::unique_ptr<IModbusManager> m;
  asio::io_service *o;
  Chan ch[MAXC];
  unsigned n = 0;
  size_t once[2]; // what one shutdown of a server, a client channel posts
  World() {
    // a reference, shut down by hand
    {
      auto r = IModbusManager::create(logger(), 1);
      asio::io_service *x = io();
      auto c = r->create_client_tcp_channel("r", Ipv4Endpoint("h", 1));
      auto *cs = newest(x);
      auto s = r->create_server_tcp_channel("r", Ipv4Endpoint("0.0.0.0", 1));
      auto *ss = newest(x);
      size_t a = cs->queue.num_posted(), b = ss->queue.num_posted();
      c->shutdown();
      s->shutdown();
      once[1] = cs->queue.num_posted() - a;
      once[0] = ss->queue.num_posted() - b;
    }
    m = IModbusManager::create(logger(), 2);
    o = io();
  }
  void create(bool client, bool release, int start = -1) {
    Chan &x = ch[n++];
    x.client = client;
    if (client) {
      x.c = m->create_client_tcp_channel("client", Ipv4Endpoint("device", 502), "", LoggingLevel::Error);
      x.wc = x.c;
    } else {
      x.s = m->create_server_tcp_channel("server", Ipv4Endpoint("0.0.0.0", (uint16_t)(502 + n)), 4, LoggingLevel::Error);
      x.ws = x.s;
      x.session = std::make_shared<Session>();
      x.s->add_session(UnitIdentifier(1), x.session);
      if (start < 0 ? sx::any_bool("start") : start) { x.s->start(); x.started = true; }
    }
    x.strand = newest(o);
    if (release) { x.c.reset(); x.s.reset(); }
  }
  void before() { for (unsigned i = 0; i < n; i++) ch[i].posted = ch[i].strand_alive(o) ? ch[i].strand->queue.num_posted() : 0; }
  void after() {
    for (unsigned i = 0; i < n; i++) {
      Chan &x = ch[i];
      if (!x.strand_alive(o)) { CHECK(x.down, "a channel is gone before it was shut down"); continue; }
      size_t p = x.strand->queue.num_posted() - x.posted;
      CHECK(!x.down || p == 0, "a channel is shut down again");
      CHECK(x.down || p >= once[x.client], "a channel is not shut down");
      CHECK(x.down || p <= once[x.client], "a channel is shut down twice");
      x.down = true;
    }
  }
  void shutdown() { before(); m->shutdown(); after(); COVER("shut down"); }
  void run() { settle(o); check(); }
  // the queues have run dry
  void check() {
    for (unsigned i = 0; i < n; i++) {
      Chan &x = ch[i];
      CHECK(x.down || x.alive(), "the manager does not keep a channel alive");
      if (!x.client) CHECK(x.session->shutdowns == (x.down ? 1u : 0u), x.down ? "the shutdown does not reach a channel once" : "a channel is shut down although the manager is not");
      if (x.client && x.c) {
        auto s = x.c->create_session(UnitIdentifier(1), exe4cpp::duration_t(1000));
        CHECK((s == nullptr) == x.down, x.down ? "a client channel is not shut down" : "a client channel is shut down although the manager is not");
      }
      if (x.down && !x.c && !x.s) CHECK(!x.alive(), "a channel that was shut down and released is kept");
    }
    unsigned accepting = 0, expected = 0;
    for (auto *a : o->acceptors) accepting += !a->accepts.empty();
    for (unsigned i = 0; i < n; i++) expected += ch[i].started && !ch[i].down;
    CHECK(accepting == expected, "a server that was not shut down does not accept, or one that was does");
  }
  void destroy() {
    bool had = false;
    for (unsigned i = 0; i < n; i++) had |= !ch[i].down;
    m.reset();
    if (had) COVER("shut down by the destructor");
    for (unsigned i = 0; i < n; i++) {
      Chan &x = ch[i];
      if (!x.client) CHECK(x.session->shutdowns == 1, "the destruction does not shut every channel down once");
      if (x.c) CHECK(x.c->create_session(UnitIdentifier(1), exe4cpp::duration_t(1)) == nullptr, "the destruction does not shut every channel down once");
      if (!x.c && !x.s) CHECK(!x.alive(), "a channel outlives the manager");
    }
    CHECK(exe4cpp::ThreadPool::live() == 0, "the threads outlive the manager");
  }
};

HARNESS(n03_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  for (unsigned k = 0; k < steps; k++) {
    switch (sx::pick("event", 4)) {
    case 0: w.create(true, sx::any_bool("release")); break;
    case 1: w.create(false, sx::any_bool("release")); break;
    case 2: w.shutdown(); break;
    case 3: w.run(); break;
    }
  }
  if (sx::any_bool("finally shut down")) { w.shutdown(); w.run(); }
  w.destroy();
  EXPECT("shut down");
  EXPECT("shut down by the destructor");
}

// more channels than any counter of eight bits
HARNESS(n03_many) {
  World w;
  unsigned n = sx::pick("size", 2) ? 280 : 20, kinds = sx::pick("kinds", 3);
  bool release = sx::any_bool("release"), start = sx::any_bool("start"), twice = sx::any_bool("twice");
  for (unsigned i = 0; i < n; i++) w.create(kinds == 2 ? i % 2 : kinds, release, start);
  w.run();
  if (sx::any_bool("shut down")) { w.shutdown(); w.run(); }
  if (twice) { for (unsigned i = 0; i < 10; i++) w.create(i % 2, release, start); w.run(); }
  w.destroy();
  COVER("many");
  EXPECT("many");
}

// two threads: creation against creation or shutdown
static World *W;
static void make_client(void *) { W->ch[0].client = true; W->ch[0].wc = W->m->create_client_tcp_channel("a", Ipv4Endpoint("device", 502), "", LoggingLevel::Error); }
static void make_server(void *) {
  auto s = W->m->create_server_tcp_channel("b", Ipv4Endpoint("0.0.0.0", 503), 4, LoggingLevel::Error);
  W->ch[1].ws = s;
  s->add_session(UnitIdentifier(1), W->ch[1].session);
}
static void stop(void *) { W->m->shutdown(); }
HARNESS(n03_threads) {
  World w;
  W = &w;
  w.ch[1].session = std::make_shared<Session>();
  unsigned what = sx::pick("threads", 4);
  void (*f)(void *) = what == 0 ? make_client : what == 1 ? make_client : what == 2 ? make_server : stop;
  void (*g)(void *) = what == 0 ? make_server : stop;
  uint64_t a = symx_spawn(f, nullptr), b = symx_spawn(g, nullptr);
  symx_join(a);
  symx_join(b);
  if (what == 0) CHECK(!w.ch[0].wc.expired() && !w.ch[1].ws.expired(), "the manager does not keep a channel alive");
  // in another thread's shutdown or in the destructor
  w.m.reset();
  CHECK(w.ch[0].wc.expired() && w.ch[1].ws.expired(), "a channel outlives the manager");
  if (what == 0 || what == 2) CHECK(w.ch[1].session->shutdowns <= 1, "a channel is shut down twice");
  if (what == 0) CHECK(w.ch[1].session->shutdowns == 1, "the destruction does not shut every channel down once");
  COVER("both");
  EXPECT("both");
}

// created as asked
HARNESS(n03_arguments) {
  static const char *const names[] = {"", "plant", "a - b"};
  static const char *const hosts[] = {"10.0.0.7", "device.example"};
  static const char *const adapters[] = {"", "192.168.1.20"};
  static const uint16_t ports[] = {1, 502, 65535};
  const bool dflt = sx::any_bool("number of threads not given");
  unsigned threads = dflt ? 4 : sx::pick("threads", 4);
  auto before = exe4cpp::ThreadPool::all_threads();
  auto m = dflt ? IModbusManager::create(logger()) : IModbusManager::create(logger(), threads);
  uint32_t got = exe4cpp::ThreadPool::all_threads() - before;
  CHECK(got >= 1, "a manager without threads");
  CHECK(threads == 0 || dflt || got == threads, "another number of threads than asked for");
  asio::io_service *o = io();
  std::string name = names[sx::pick("name", 3)], host = hosts[sx::pick("host", 2)];
  uint16_t port = ports[sx::pick("port", 3)];
  unsigned lv = sx::pick("level", 6);
  static const LoggingLevel levels[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};
  size_t logs = spdlog::logger::all().size();
  auto named = [&] {
    auto &l = spdlog::logger::all();
    unsigned found = 0;
    for (size_t i = logs; i < l.size(); i++)
      if (l[i]->name().size() >= name.size() && l[i]->name().compare(0, name.size(), name) == 0) {
        found++;
        CHECK((int)l[i]->level() == (int)lv, "a channel does not log at the given level");
        CHECK(l[i]->sinks().size() == 1, "a channel does not log where the manager does");
      }
    CHECK(found >= 1 && l.size() - logs == found, "a channel is not given the name it should have in the log");
  };
  if (sx::any_bool("client")) {
    std::string adapter = adapters[sx::pick("adapter", 2)];
    auto c = m->create_client_tcp_channel(name, Ipv4Endpoint(host, port), adapter, levels[lv]);
    named();
    auto s = c->create_session(UnitIdentifier(7), exe4cpp::duration_t(1000));
    CHECK(s != nullptr, "a new channel is not usable");
    s->send_request(ReadCoilsRequest{0, 1}, [](const Expected<ReadCoilsResponse> &) {});
    settle(o);
    CHECK(o->resolvers.size() == 1 && o->resolvers.front()->queries.size() == 1, "a new channel is not usable");
    auto &q = o->resolvers.front()->queries.front();
    unsigned p = 0;
    for (char x : q.service) p = p * 10 + (unsigned)(x - '0');
    CHECK(q.host == host && p == port, "a client channel connects to another endpoint than the given one");
    o->resolvers.front()->resolved(1);
    settle(o);
    auto *k = o->sockets.front();
    CHECK(k->connects.size() == 1, "a new channel is not usable");
    CHECK(adapter.empty() ? k->bound.empty() || k->bound == "0.0.0.0" : k->bound == adapter, "a client channel does not use the given adapter");
    COVER("client");
  } else {
    unsigned limit = sx::pick("limit", 3);
    auto s = m->create_server_tcp_channel(name, Ipv4Endpoint(host, port), limit, levels[lv]);
    named();
    CHECK(o->acceptors.size() == 1 && o->acceptors.front()->at.m_address.text == host && o->acceptors.front()->at.m_port == port, "a server channel listens to another endpoint than the given one");
    settle(o);
    CHECK(o->acceptors.front()->accepts.empty(), "a server channel accepts before it is started");
    s->start();
    settle(o);
    for (unsigned k = 0; k <= limit; k++) {
      CHECK(!o->acceptors.front()->accepts.empty(), "a new channel is not usable");
      o->acceptors.front()->accepted(asio::error_code());
      settle(o);
    }
    unsigned open = 0;
    for (auto *k : o->sockets) open += k->opened;
    CHECK(open == limit, "a server channel does not have the given limit of connections");
    COVER("server");
  }
  m.reset();
  EXPECT("client");
  EXPECT("server");
}
