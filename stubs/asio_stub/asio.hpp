// Stand-in for the parts of asio that the library uses: sockets, acceptors and resolvers whose operations stay pending
// until the harness (through asio::stub) decides how they end. Completion handlers are queued in the io_service, never
// called from within the call that starts or aborts an operation. The bytes of a write are fetched from the caller's
// buffer when they are transmitted; a composed write continues after every partial transmission behind the writes that
// were started in the meantime.
#pragma once
#include <array>
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <string>
#include <system_error>
#include <utility>
#include <vector>

namespace asio {
using error_code = std::error_code;
using error_category = std::error_category;

struct stub_category final : std::error_category {
  const char *name() const noexcept override { return "asio.stub"; }
  std::string message(int v) const override { std::string s("failure "); s += (char)('0' + v % 10); return s; }
};
inline const std::error_category &stub_cat() { static stub_category c; return c; }

namespace error {
enum basic_errors {
  access_denied = EACCES, address_in_use = EADDRINUSE, already_connected = EISCONN, already_started = EALREADY, broken_pipe = EPIPE,
  connection_aborted = ECONNABORTED, connection_refused = ECONNREFUSED, connection_reset = ECONNRESET, bad_descriptor = EBADF,
  host_unreachable = EHOSTUNREACH, in_progress = EINPROGRESS, interrupted = EINTR, invalid_argument = EINVAL, message_size = EMSGSIZE,
  network_down = ENETDOWN, network_reset = ENETRESET, network_unreachable = ENETUNREACH, no_descriptors = EMFILE, no_memory = ENOMEM,
  not_connected = ENOTCONN, not_socket = ENOTSOCK, operation_aborted = ECANCELED, operation_not_supported = EOPNOTSUPP, shut_down = ESHUTDOWN,
  timed_out = ETIMEDOUT, try_again = EAGAIN, would_block = EWOULDBLOCK
};
enum misc_errors { already_open = 1001, eof, not_found, fd_set_failure };
enum netdb_errors { host_not_found = 2001, host_not_found_try_again, no_data = 2004, no_recovery = 2003 };
inline error_code make_error_code(basic_errors e) { return error_code((int)e, stub_cat()); }
inline error_code make_error_code(misc_errors e) { return error_code((int)e, stub_cat()); }
inline error_code make_error_code(netdb_errors e) { return error_code((int)e, stub_cat()); }
} // namespace error
} // namespace asio
namespace std {
template <> struct is_error_code_enum<asio::error::basic_errors> { static const bool value = true; };
template <> struct is_error_code_enum<asio::error::misc_errors> { static const bool value = true; };
template <> struct is_error_code_enum<asio::error::netdb_errors> { static const bool value = true; };
} // namespace std

namespace asio {
struct system_error : std::runtime_error {
  explicit system_error(const error_code &e) : std::runtime_error("asio"), m_code(e) {}
  error_code code() const { return m_code; }
  error_code m_code;
};

struct mutable_buffer {
  mutable_buffer(void *p, size_t n) : m_p(p), m_n(n) {}
  void *data() const { return m_p; }
  size_t size() const { return m_n; }
  void *m_p; size_t m_n;
};
struct const_buffer {
  const_buffer(const void *p, size_t n) : m_p(p), m_n(n) {}
  const_buffer(const mutable_buffer &b) : m_p(b.m_p), m_n(b.m_n) {}
  const void *data() const { return m_p; }
  size_t size() const { return m_n; }
  const void *m_p; size_t m_n;
};
using const_buffers_1 = const_buffer;
using mutable_buffers_1 = mutable_buffer;
inline mutable_buffer buffer(void *p, size_t n) { return {p, n}; }
inline const_buffer buffer(const void *p, size_t n) { return {p, n}; }
inline const_buffer buffer(const const_buffer &b, size_t n) { return {b.m_p, n < b.m_n ? n : b.m_n}; }
inline const_buffer buffer(const const_buffer &b) { return b; }
template <size_t N> mutable_buffer buffer(std::array<uint8_t, N> &a) { return {a.data(), N}; }
template <size_t N> mutable_buffer buffer(std::array<uint8_t, N> &a, size_t n) { return {a.data(), n < N ? n : N}; }
template <size_t N> const_buffer buffer(const std::array<uint8_t, N> &a) { return {a.data(), N}; }
inline mutable_buffer buffer(std::vector<uint8_t> &v) { return {v.data(), v.size()}; }
inline const_buffer buffer(const std::vector<uint8_t> &v) { return {v.data(), v.size()}; }
inline mutable_buffer buffer(std::vector<uint8_t> &v, size_t n) { return {v.data(), n < v.size() ? n : v.size()}; }
inline const_buffer buffer(const std::vector<uint8_t> &v, size_t n) { return {v.data(), n < v.size() ? n : v.size()}; }
inline const_buffer buffer(const std::string &v) { return {v.data(), v.size()}; }

namespace stub {
struct Socket;
struct Acceptor;
struct Resolver;
struct Strand;
// how calls that can fail on the spot behave; set by the harness
struct Faults { bool (*fails)(const char *what) = nullptr; };
inline Faults faults;
inline bool fails(const char *what) { return faults.fails && faults.fails(what); }
} // namespace stub

class io_service {
public:
  io_service() { all().push_back(this); }
  ~io_service() { all().remove(this); }
  static std::list<io_service *> &all() { static std::list<io_service *> l; return l; } // for the harness
  io_service(const io_service &) = delete;
  template <class F> void post(F f) { completions.push_back(std::function<void()>(f)); }
  template <class F> void dispatch(F f) { completions.push_back(std::function<void()>(f)); }
  // for the harness
  std::deque<std::function<void()>> completions;
  std::list<stub::Socket *> sockets;
  std::list<stub::Acceptor *> acceptors;
  std::list<stub::Resolver *> resolvers;
  std::list<stub::Strand *> strands;
  unsigned ids = 0;
  std::mutex lock; // of the lists
  template <class L, class T> unsigned enter(L &l, T *x) { std::lock_guard<std::mutex> g(lock); l.push_back(x); return ++ids; }
  template <class L, class T> void leave(L &l, T *x) { std::lock_guard<std::mutex> g(lock); l.remove(x); }
  bool run_one() {
    if (completions.empty()) return false;
    auto f = completions.front();
    completions.pop_front();
    f();
    return true;
  }
};
using io_context = io_service;

namespace ip {
struct address {
  std::string text = "0.0.0.0";
  bool six = false;
  bool is_v4() const { return !six; }
  bool is_v6() const { return six; }
  bool operator==(const address &o) const { return text == o.text && six == o.six; }
  bool operator!=(const address &o) const { return !(*this == o); }
  static address from_string(const std::string &s, error_code &ec) {
    if (stub::fails("address")) { ec = error::invalid_argument; return {}; }
    ec = error_code();
    address a;
    a.text = s;
    for (char c : s) if (c == ':') a.six = true;
    return a;
  }
  static address from_string(const std::string &s) { error_code ec; auto a = from_string(s, ec); if (ec) throw system_error(ec); return a; }
  std::string to_string() const { return text; }
};
inline address make_address(const std::string &s, error_code &ec) { return address::from_string(s, ec); }
inline address make_address(const std::string &s) { return address::from_string(s); }
using address_v4 = address;
inline address make_address_v4(const std::string &s, error_code &ec) { return address::from_string(s, ec); }
inline address make_address_v4(const std::string &s) { return address::from_string(s); }
struct tcp {
  struct no_delay { explicit no_delay(bool = true) {} };
  bool six = false;
  static tcp v4() { return {}; }
  static tcp v6() { tcp t; t.six = true; return t; }
  bool operator==(const tcp &o) const { return six == o.six; }
  bool operator!=(const tcp &o) const { return six != o.six; }
  struct endpoint {
    endpoint() = default;
    endpoint(const ip::address &a, unsigned short p) : m_address(a), m_port(p) {}
    endpoint(const tcp &, unsigned short p) : m_port(p) {}
    void address(const ip::address &a) { m_address = a; }
    const ip::address &address() const { return m_address; }
    void port(unsigned short p) { m_port = p; }
    unsigned short port() const { return m_port; }
    tcp protocol() const { return m_address.six ? tcp::v6() : tcp::v4(); }
    bool operator==(const endpoint &o) const { return m_address == o.m_address && m_port == o.m_port; }
    bool operator!=(const endpoint &o) const { return !(*this == o); }
    ip::address m_address;
    unsigned short m_port = 0;
  };
  class socket;
  class acceptor;
  class resolver;
};
} // namespace ip

struct socket_base {
  enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
  struct reuse_address { explicit reuse_address(bool = true) {} };
  struct keep_alive { explicit keep_alive(bool = true) {} };
  static const int max_listen_connections = 128, max_connections = 128;
};

namespace stub {
struct Write { const uint8_t *p; size_t n, sent; bool all; std::function<void(const error_code &, size_t)> done; };
struct Read { uint8_t *p; size_t n, got; bool all; std::function<void(const error_code &, size_t)> done; };
struct Socket {
  io_service &ios;
  unsigned id, session = 0;        // counts the connections made with this socket
  bool opened = false, connected = false, six = false;
  std::string bound;               // the local address, if one was chosen
  std::deque<Write> writes;
  std::deque<Read> reads;
  std::deque<std::function<void(const error_code &)>> connects;
  std::string host; unsigned port = 0; // of the connection attempt
  explicit Socket(io_service &i) : ios(i), id(i.enter(i.sockets, this)) {}
  ~Socket() { abort(); ios.leave(ios.sockets, this); }
  void finish(std::function<void(const error_code &, size_t)> f, error_code ec, size_t n) { ios.completions.push_back([f, ec, n] { f(ec, n); }); }
  void abort() {
    for (auto &c : connects) { auto f = c; ios.completions.push_back([f] { f(error::operation_aborted); }); }
    for (auto &r : reads) finish(r.done, error::operation_aborted, r.got);
    for (auto &w : writes) finish(w.done, error::operation_aborted, w.sent);
    connects.clear(); reads.clear(); writes.clear();
  }
  void close() { abort(); opened = connected = six = false; bound.clear(); }
  // for the harness
  void established(const error_code &ec) {
    auto f = connects.front();
    connects.pop_front();
    if (!ec) { connected = true; session++; }
    ios.completions.push_back([f, ec] { f(ec); });
  }
  // n bytes of the first write leave; returns where they are
  const uint8_t *transmit(size_t n) {
    Write w = writes.front();
    const uint8_t *p = w.p + w.sent;
    return p;
  }
  void transmitted(size_t n) {
    Write w = writes.front();
    writes.pop_front();
    w.sent += n;
    if (w.all && w.sent < w.n) writes.push_back(w);
    else finish(w.done, error_code(), w.sent);
  }
  void write_failed(const error_code &ec) { Write w = writes.front(); writes.pop_front(); finish(w.done, ec, w.sent); }
  size_t room() const { return reads.front().n - reads.front().got; }
  void received(const uint8_t *b, size_t n) {
    Read r = reads.front();
    for (size_t i = 0; i < n; i++) r.p[r.got + i] = b[i];
    r.got += n;
    if (r.all && r.got < r.n) { reads.front() = r; return; }
    reads.pop_front();
    finish(r.done, error_code(), r.got);
  }
  void read_failed(const error_code &ec) { Read r = reads.front(); reads.pop_front(); finish(r.done, ec, r.got); }
};
struct Acceptor {
  io_service &ios;
  bool opened = true;
  ip::tcp::endpoint at;
  struct Pending { Socket *socket; std::function<void(const error_code &)> done; };
  std::deque<Pending> accepts;
  explicit Acceptor(io_service &i) : ios(i) { ios.enter(ios.acceptors, this); }
  ~Acceptor() { abort(); ios.leave(ios.acceptors, this); }
  void abort() {
    for (auto &a : accepts) { auto f = a.done; ios.completions.push_back([f] { f(error::operation_aborted); }); }
    accepts.clear();
  }
  // for the harness: returns the accepted socket
  Socket *accepted(const error_code &ec) {
    Pending a = accepts.front();
    accepts.pop_front();
    if (!ec) { a.socket->opened = a.socket->connected = true; a.socket->session++; }
    auto f = a.done;
    ios.completions.push_back([f, ec] { f(ec); });
    return ec ? nullptr : a.socket;
  }
};
} // namespace stub

class ip::tcp::socket : public socket_base {
public:
  using endpoint_type = ip::tcp::endpoint;
  using protocol_type = ip::tcp;
  explicit socket(io_service &i) : s(i) {}
  void open(const tcp &t, error_code &ec) {
    if (s.opened) { ec = error::already_open; return; }
    if (stub::fails("open")) { ec = error::no_descriptors; return; }
    ec = error_code();
    s.opened = true;
    s.six = t.six;
  }
  void open(const tcp &t) { error_code ec; open(t, ec); if (ec) throw system_error(ec); }
  void bind(const endpoint &e, error_code &ec) {
    if (!s.opened) { ec = error::bad_descriptor; return; }
    if (stub::fails("bind")) { ec = error::address_in_use; return; }
    if (e.m_address.six != s.six) { ec = error::invalid_argument; return; }
    ec = error_code();
    s.bound = e.m_address.text;
  }
  void bind(const endpoint &e) { error_code ec; bind(e, ec); if (ec) throw system_error(ec); }
  bool is_open() const { return s.opened; }
  void shutdown(shutdown_type) { if (!s.connected) throw system_error(error::not_connected); }
  void shutdown(shutdown_type, error_code &ec) { ec = s.connected ? error_code() : error_code(error::not_connected); }
  void close(error_code &ec) { ec = error_code(); s.close(); }
  void close() { s.close(); }
  void cancel(error_code &ec) { ec = s.opened ? error_code() : error_code(error::bad_descriptor); s.abort(); }
  void cancel() { s.abort(); }
  template <class O> void set_option(const O &, error_code &ec) { ec = error_code(); }
  template <class O> void set_option(const O &) {}
  endpoint remote_endpoint(error_code &ec) const { ec = s.connected ? error_code() : error_code(error::not_connected); return {}; }
  endpoint remote_endpoint() const { if (!s.connected) throw system_error(error::not_connected); return {}; }
  endpoint local_endpoint(error_code &ec) const { ec = error_code(); return {}; }
  template <class H> void async_connect(const endpoint &e, H h) {
    if (!s.opened) { error_code ec; open(e.protocol(), ec); if (ec) { H f = h; s.ios.completions.push_back([f, ec]() mutable { f(ec); }); return; } }
    s.host = e.m_address.text; s.port = e.m_port;
    s.connects.push_back([h](const error_code &ec) { H f = h; f(ec); });
  }
  template <class H> void async_read_some(const mutable_buffer &b, H h) {
    auto done = [h](const error_code &ec, size_t n) { H f = h; f(ec, n); };
    if (!s.opened) { s.finish(done, error::bad_descriptor, 0); return; }
    s.reads.push_back({(uint8_t *)b.m_p, b.m_n, 0, false, done});
  }
  template <class H> void async_receive(const mutable_buffer &b, H h) { async_read_some(b, h); }
  template <class H> void async_write_some(const const_buffer &b, H h) { write(b, h, false); }
  template <class H> void async_send(const const_buffer &b, H h) { write(b, h, false); }
  template <class H> void write(const const_buffer &b, H h, bool all) {
    auto done = [h](const error_code &ec, size_t n) { H f = h; f(ec, n); };
    if (b.m_n == 0) { s.finish(done, error_code(), 0); return; }
    if (!s.opened) { s.finish(done, error::bad_descriptor, 0); return; }
    s.writes.push_back({(const uint8_t *)b.m_p, b.m_n, 0, all, done});
  }
  stub::Socket s;
};

class ip::tcp::acceptor : public socket_base {
public:
  using protocol_type = ip::tcp;
  using endpoint_type = ip::tcp::endpoint;
  void open(const tcp &, error_code &ec) { ec = a.opened ? error_code(error::already_open) : error_code(); a.opened = true; }
  void open(const tcp &) { a.opened = true; }
  template <class O> void set_option(const O &, error_code &ec) { ec = error_code(); }
  template <class O> void set_option(const O &) {}
  void bind(const endpoint &e, error_code &ec) { ec = error_code(); a.at = e; }
  void bind(const endpoint &e) { a.at = e; }
  void listen(int, error_code &ec) { ec = error_code(); }
  void listen(int = 0) {}
  endpoint local_endpoint(error_code &ec) const { ec = error_code(); return a.at; }
  endpoint local_endpoint() const { return a.at; }
  acceptor(io_service &i, const endpoint &e, bool = true) : a(i) { a.at = e; }
  explicit acceptor(io_service &i) : a(i) { a.opened = false; }
  template <class H> void async_accept(socket &s, H h) {
    auto done = [h](const error_code &ec) { H f = h; f(ec); };
    if (!a.opened || s.s.opened) {
      error_code ec = a.opened ? error_code(error::already_open) : error_code(error::bad_descriptor);
      a.ios.completions.push_back([done, ec] { done(ec); });
      return;
    }
    a.accepts.push_back({&s.s, done});
  }
  bool is_open() const { return a.opened; }
  void close() { a.abort(); a.opened = false; }
  void close(error_code &ec) { ec = error_code(); close(); }
  void cancel() { a.abort(); }
  void cancel(error_code &ec) { ec = error_code(); a.abort(); }
  stub::Acceptor a;
};

class ip::tcp::resolver {
public:
  struct query {
    query(const std::string &h, const std::string &p) : host(h), service(p) {}
    std::string host, service;
  };
  struct entry {
    tcp::endpoint e;
    const tcp::endpoint &endpoint() const { return e; }
    operator tcp::endpoint() const { return e; }
  };
  struct iterator {
    std::shared_ptr<std::vector<entry>> list;
    size_t at = 0;
    bool none() const { return !list || at >= list->size(); }
    const entry &operator*() const { return (*list)[at]; }
    const entry *operator->() const { return &(*list)[at]; }
    iterator &operator++() { ++at; return *this; }
    iterator operator++(int) { iterator i = *this; ++at; return i; }
    bool operator==(const iterator &o) const { return (none() && o.none()) || (!none() && !o.none() && at == o.at); }
    bool operator!=(const iterator &o) const { return !(*this == o); }
  };
  struct results_type : iterator {
    using iterator = resolver::iterator;
    using const_iterator = iterator;
    results_type() = default;
    results_type(const iterator &i) : iterator(i) {}
    const iterator &begin() const { return *this; }
    const iterator &cbegin() const { return *this; }
    iterator end() const { return {}; }
    iterator cend() const { return {}; }
    size_t size() const { return list ? list->size() : 0; }
    bool empty() const { return none(); }
  };
  explicit resolver(io_service &i);
  ~resolver();
  template <class H> void async_resolve(const query &q, H h);
  template <class H> void async_resolve(const std::string &host, const std::string &service, H h) { async_resolve(query(host, service), h); }
  template <class H> void async_resolve(const tcp &, const std::string &host, const std::string &service, H h) { async_resolve(query(host, service), h); }
  void cancel();
  std::unique_ptr<stub::Resolver> r;
};

namespace stub {
struct Resolver {
  io_service &ios;
  struct Pending { std::string host, service; std::function<void(const error_code &, ip::tcp::resolver::results_type)> done; };
  std::deque<Pending> queries;
  explicit Resolver(io_service &i) : ios(i) { ios.enter(ios.resolvers, this); }
  ~Resolver() { abort(); ios.leave(ios.resolvers, this); }
  void finish(const error_code &ec, ip::tcp::resolver::iterator it) {
    Pending q = queries.front();
    queries.pop_front();
    auto f = q.done;
    ios.completions.push_back([f, ec, it] { f(ec, ip::tcp::resolver::results_type(it)); });
  }
  void abort() { while (!queries.empty()) finish(error::operation_aborted, {}); }
  // for the harness
  // the addresses are "HOST", "HOST/1", ...; bit k of six: the k-th one belongs to the other protocol
  void resolved(unsigned endpoints, unsigned six = 0) {
    ip::tcp::resolver::iterator it;
    it.list = std::make_shared<std::vector<ip::tcp::resolver::entry>>();
    unsigned port = 0;
    for (char c : queries.front().service) port = port * 10 + (unsigned)(c - '0');
    for (unsigned k = 0; k < endpoints; k++) {
      ip::tcp::resolver::entry e;
      e.e.m_address.text = queries.front().host;
      if (k) { e.e.m_address.text += '/'; e.e.m_address.text += (char)('0' + k); }
      e.e.m_address.six = six >> k & 1;
      e.e.m_port = (unsigned short)port;
      it.list->push_back(e);
    }
    finish(error_code(), it);
  }
  void failed(const error_code &ec) { finish(ec, {}); }
};
} // namespace stub
inline ip::tcp::resolver::resolver(io_service &i) : r(new stub::Resolver(i)) {}
inline ip::tcp::resolver::~resolver() = default;
inline void ip::tcp::resolver::cancel() { r->abort(); }
template <class H> void ip::tcp::resolver::async_resolve(const query &q, H h) {
  r->queries.push_back({q.host, q.service, [h](const error_code &ec, results_type it) { H f = h; f(ec, it); }});
}

// one attempt after the other, each with a fresh socket, as asio does
namespace stub {
template <class H> struct Connect {
  ip::tcp::socket *sock;
  ip::tcp::resolver::iterator it;
  H h;
  bool range; // the handler is given the endpoint instead of the iterator
  static void call(H &f, bool, const error_code &ec, const ip::tcp::resolver::iterator &i) {
    if constexpr (std::is_invocable<H &, const error_code &, ip::tcp::resolver::iterator>::value) f(ec, i);
    else f(ec, ec ? ip::tcp::endpoint() : i->endpoint());
  }
  void start() {
    if (it.none()) { H f = h; auto i = it; bool r = range; sock->s.ios.completions.push_back([f, i, r]() mutable { call(f, r, error_code(error::not_found), i); }); return; }
    sock->close();
    Connect c = *this;
    sock->async_connect(it->endpoint(), [c](const error_code &ec) mutable { c.ended(ec); });
  }
  void ended(const error_code &ec) {
    if (!sock->is_open()) { call(h, range, error_code(error::operation_aborted), it); return; }
    if (!ec || ec == error::operation_aborted) { call(h, range, ec, it); return; }
    ++it;
    if (it.none()) { call(h, range, ec, it); return; }
    start();
  }
};
} // namespace stub
template <class H> void async_connect(ip::tcp::socket &s, const ip::tcp::resolver::iterator &it, H h) { stub::Connect<H>{&s, it, h, false}.start(); }
template <class H> void async_connect(ip::tcp::socket &s, const ip::tcp::resolver::iterator &it, const ip::tcp::resolver::iterator &, H h) { stub::Connect<H>{&s, it, h, false}.start(); }
struct transfer_all_t {};
inline transfer_all_t transfer_all() { return {}; }
template <class H> void async_write(ip::tcp::socket &s, const const_buffer &b, transfer_all_t, H h) { s.write(b, h, true); }
template <class F> void post(io_service &i, F f) { i.post(f); }
template <class F> void dispatch(io_service &i, F f) { i.dispatch(f); }
template <class H> void async_write(ip::tcp::socket &s, const const_buffer &b, H h) { s.write(b, h, true); }
template <class H> void async_read(ip::tcp::socket &s, const mutable_buffer &b, H h) {
  s.s.reads.push_back({(uint8_t *)b.m_p, b.m_n, 0, true, [h](const error_code &ec, size_t n) { H f = h; f(ec, n); }});
}
} // namespace asio
