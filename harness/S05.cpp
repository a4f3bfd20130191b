// S05: a server never serves more connections than its limit, and never stops accepting.
#include "svnet.h"
using namespace sn;

static void final_state(World &w, unsigned limit) {
  unsigned open = 0, failed = 0, closed = 0, first_open = MAXC;
  for (unsigned c = 0; c < w.nc; c++) {
    Conn &x = w.conns[c];
    if (x.open()) { open++; if (first_open == MAXC) first_open = c; }
    if (x.failed || x.asked_close) { failed++; CHECK(!x.open(), "a lost connection stays open"); }
  }
  CHECK(open <= limit, "more connections than the maximum are open");
  CHECK(w.server->get_num_connections() == open, "the number of connections reported is not the number of open ones");
  for (unsigned c = 0; c < w.nc; c++) {
    Conn &x = w.conns[c];
    if (x.open() || x.failed || x.asked_close) continue;
    closed++;
    CHECK(c < first_open, "a connection is closed although an older one is open");
    COVER("closed the oldest");
  }
  CHECK(closed <= (w.nc > limit ? w.nc - limit : 0), "a connection is closed although the maximum is not exceeded");
  CHECK(w.accepting(), "the server has stopped accepting");
}
HARNESS(s05_history) {
  unsigned steps = (unsigned)symx_param("steps", 5), limit = (unsigned)sx::range("limit", (uint32_t)symx_param("from", 1), (uint32_t)symx_param("to", 2)), l[NEV], m = 0;
  limit = (unsigned)symx_concretize(limit);
  bool eager = symx_param("eager", 0) != 0;
  World w(limit, (unsigned)symx_param("conns", 0));
  unsigned events = M_READ | M_CLOSE | M_ACCEPT | (symx_param("writes", 0) ? (unsigned)(M_SEND | M_WRITE) : 0u) | (eager ? 0u : (unsigned)(M_RUN | M_IO));
  for (unsigned e = 0; e < NEV; e++) if (events >> e & 1) l[m++] = e;
  bool model[MAXC] = {}; // open according to the rule, exact if the queues run dry after every event
  if (eager) for (unsigned c = 0; c < w.nc; c++) model[c] = c + limit >= w.nc;
  for (unsigned k = 0; k < steps; k++) {
    unsigned before = w.nc;
    w.step(l[sx::pick("event", m)]);
    if (!eager) continue;
    w.settle();
    if (w.nc > before) model[before] = true;
    unsigned open = 0;
    for (unsigned c = 0; c < w.nc; c++) { if (w.conns[c].failed || w.conns[c].asked_close) model[c] = false; open += model[c]; }
    for (unsigned c = 0; c < w.nc && open > limit; c++) if (model[c]) { model[c] = false; open--; }
    for (unsigned c = 0; c < w.nc; c++) CHECK(w.conns[c].open() == model[c], model[c] ? "a connection is closed that should stay open" : "a connection stays open that should be closed");
    CHECK(w.server->get_num_connections() == open, "the number of connections reported is not the number of open ones");
  }
  w.settle();
  final_state(w, limit);
  // further connections are served
  for (unsigned k = 0; k < 2 && w.accepting(); k++) {
    w.accept(true);
    w.settle();
    CHECK(limit == 0 || (w.conns[w.nc - 1].open() && !w.conns[w.nc - 1].sock()->reads.empty()), "a new connection is not served");
    final_state(w, limit);
  }
  if (limit) EXPECT("closed the oldest");
}
// after the shutdown nothing is open, accepted or reported
HARNESS(s05_shutdown) {
  unsigned steps = (unsigned)symx_param("steps", 4), l[NEV], m = 0;
  World w(2, (unsigned)symx_param("conns", 1));
  for (unsigned e = 0; e < NEV; e++) if ((M_READ | M_CLOSE | M_ACCEPT | M_SHUT | M_RUN | M_IO) >> e & 1) l[m++] = e;
  for (unsigned k = 0; k < steps; k++) w.step(l[sx::pick("event", m)]);
  if (!w.asked_shut) { w.asked_shut = true; w.server->shutdown(); }
  w.settle();
  for (unsigned c = 0; c < w.nc; c++) CHECK(!w.conns[c].open(), "a connection is open after the shutdown");
  CHECK(!w.acceptor().opened && !w.accepting(), "connections are accepted after the shutdown");
  CHECK(w.server->get_num_connections() == 0, "connections are reported after the shutdown");
}
// limits beyond eight bits
struct Quiet final : IConnectionListener { void on_receive(const ser4cpp::rseq_t &) override {} void on_error(const std::string &) override {} };
struct Quiets final : IServerConnectionListenerBuilder { std::unique_ptr<IConnectionListener> build(std::weak_ptr<ITcpConnection>) override { return std::unique_ptr<IConnectionListener>(new Quiet); } };
HARNESS(s05_many) {
  static const unsigned L[] = {20, 255, 256, 257, 400};
  unsigned limit = L[sx::pick("limit", 5)], lose = sx::pick("lost", 4);
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto server = std::make_shared<AsioServer>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("0.0.0.0", 502), limit);
  server->start(std::make_shared<Quiets>());
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  settle();
  static asio::stub::Socket *s[500];
  unsigned n = 0;
  auto accept = [&] { auto &a = *ios->acceptors.front(); CHECK(!a.accepts.empty(), "the server has stopped accepting"); s[n++] = a.accepted(asio::error_code()); settle(); };
  for (unsigned i = 0; i < limit; i++) {
    accept();
    CHECK(server->get_num_connections() == n, "the number of connections reported is not the number of open ones");
  }
  for (unsigned i = 0; i < n; i++) CHECK(s[i]->opened && !s[i]->reads.empty(), "a connection is closed although the maximum is not exceeded");
  unsigned which = lose == 1 ? 0 : lose == 2 ? n / 2 : n - 1; // 0: none is lost
  if (lose) {
    s[which]->read_failed(asio::error::eof);
    settle();
    CHECK(server->get_num_connections() == n - 1, "the number of connections reported is not the number of open ones");
    accept();
    CHECK(server->get_num_connections() == limit, "the number of connections reported is not the number of open ones");
  }
  unsigned oldest = lose == 1 ? 1 : 0;
  for (unsigned i = 0; i < 3; i++) {
    asio::stub::Socket *o = s[oldest], *next = s[oldest + 1];
    unsigned id = o->id;
    accept();
    CHECK(server->get_num_connections() == limit, "more connections than the maximum are open");
    bool open = false;
    for (auto *x : ios->sockets) if (x == o && x->id == id) open = x->opened;
    CHECK(!open, "the connection that is closed is not the oldest one");
    CHECK(next->opened, "a connection is closed although an older one is open");
    oldest++;
  }
  COVER("closed the oldest");
  server->shutdown();
  settle();
  CHECK(server->get_num_connections() == 0, "connections are reported after the shutdown");
  EXPECT("closed the oldest");
}
// more than a thousand connections come and go
HARNESS(s05_long) {
  unsigned n = (unsigned)symx_param("n", 1100), limit = 2 + sx::pick("limit", 2), how = sx::pick("what happens", 5);
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto server = std::make_shared<AsioServer>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("0.0.0.0", 502), limit);
  server->start(std::make_shared<Quiets>());
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  settle();
  static asio::stub::Socket *s[4]; // the open ones, oldest first
  unsigned ids[4], open = 0;
  auto is_open = [&](unsigned k, asio::stub::Socket *x, unsigned id) { (void)k; for (auto *y : ios->sockets) if (y == x && y->id == id) return y->opened; return false; };
  for (unsigned i = 0; i < n; i++) {
    unsigned o = how == 4 ? i % 4 : how;
    auto &a = *ios->acceptors.front();
    CHECK(!a.accepts.empty(), "the server has stopped accepting");
    if (o == 3) { a.accepted(asio::error::connection_aborted); settle(); CHECK(server->get_num_connections() == open, "the number of connections reported is not the number of open ones"); if (how == 4 || i + 1 < n) continue; }
    CHECK(!a.accepts.empty(), "the server has stopped accepting");
    asio::stub::Socket *x = a.accepted(asio::error_code());
    settle();
    if (open == limit) {
      CHECK(!is_open(0, s[0], ids[0]), "the connection that is closed is not the oldest one");
      for (unsigned k = 1; k < open; k++) { s[k - 1] = s[k]; ids[k - 1] = ids[k]; }
      open--;
    }
    s[open] = x;
    ids[open++] = x->id;
    for (unsigned k = 0; k < open; k++) CHECK(is_open(k, s[k], ids[k]), "a connection is closed although the maximum is not exceeded");
    CHECK(server->get_num_connections() == open, "the number of connections reported is not the number of open ones");
    if (o == 1 || o == 2) { // the newest or the oldest one is lost
      unsigned k = o == 1 ? open - 1 : 0;
      CHECK(!s[k]->reads.empty(), "a connection does not read");
      s[k]->read_failed(i % 2 ? asio::error_code(asio::error::eof) : asio::error_code(asio::error::connection_reset));
      settle();
      CHECK(!is_open(k, s[k], ids[k]), "a failed connection is not closed");
      for (k++; k < open; k++) { s[k - 1] = s[k]; ids[k - 1] = ids[k]; }
      open--;
      CHECK(server->get_num_connections() == open, "the number of connections reported is not the number of open ones");
    }
  }
  COVER("all");
  server->shutdown();
  settle();
  CHECK(server->get_num_connections() == 0, "connections are reported after the shutdown");
  EXPECT("all");
}
