#pragma once
#include "spdlog/common.h"
#include <mutex>
namespace spdlog {
class logger {
public:
  // those that exist, in the order of their creation (for the harness)
  static std::vector<logger *> &all() { static std::vector<logger *> l; return l; }
  static std::mutex &lock() { static std::mutex m; return m; }
  void enter() { std::lock_guard<std::mutex> g(lock()); all().push_back(this); }
  logger(std::string name, sink_ptr s) : m_name(std::move(name)) { m_sinks.push_back(std::move(s)); enter(); }
  template <class It> logger(std::string name, It b, It e) : m_name(std::move(name)), m_sinks(b, e) { enter(); }
  explicit logger(std::string name) : m_name(std::move(name)) { enter(); }
  virtual ~logger() { std::lock_guard<std::mutex> g(lock()); auto &l = all(); for (size_t i = 0; i < l.size(); i++) if (l[i] == this) { l.erase(l.begin() + (long)i); break; } }
  template <class F, class... A> void trace(const F &f, const A &...a) { log(level::trace, f, a...); }
  template <class F, class... A> void debug(const F &f, const A &...a) { log(level::debug, f, a...); }
  template <class F, class... A> void info(const F &f, const A &...a) { log(level::info, f, a...); }
  template <class F, class... A> void warn(const F &f, const A &...a) { log(level::warn, f, a...); }
  template <class F, class... A> void error(const F &f, const A &...a) { log(level::err, f, a...); }
  template <class F, class... A> void critical(const F &f, const A &...a) { log(level::critical, f, a...); }
  template <class F, class... A> void log(level::level_enum l, const F &f, const A &...a) { if (should_log(l)) emit(l, text(f), {number(a)...}); }
  std::shared_ptr<logger> clone(std::string name) {
    auto c = std::make_shared<logger>(std::move(name), m_sinks.begin(), m_sinks.end());
    c->m_level = m_level;
    c->m_flush = m_flush;
    return c;
  }
  void flush() { for (auto &s : m_sinks) if (s) s->flush(); }
  void flush_on(level::level_enum l) { m_flush = l; }
  level::level_enum flush_level() const { return m_flush; }
  void set_pattern(std::string) {}
  void set_level(level::level_enum l) { m_level = l; }
  level::level_enum level() const { return m_level; }
  bool should_log(level::level_enum l) const { return l >= m_level; }
  const std::string &name() const { return m_name; }
  const std::vector<sink_ptr> &sinks() const { return m_sinks; }
  std::vector<sink_ptr> &sinks() { return m_sinks; }

private:
  static const char *text(const char *s) { return s; }
  static const char *text(const std::string &s) { return s.c_str(); }
  template <class T> static const char *text(const T &) { return ""; }
  template <class T> static typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, long>::type number(const T &v) { return (long)v; }
  template <class T> static typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value, long>::type number(const T &) { return 0; }
  void emit(level::level_enum l, const char *text, std::initializer_list<long> a) {
    for (auto &s : m_sinks) if (s && s->should_log(l)) s->on_message(m_name, l, text, a);
    if (l >= m_flush) flush();
  }
  std::string m_name;
  std::vector<sink_ptr> m_sinks;
  level::level_enum m_level = level::info, m_flush = level::off;
};
} // namespace spdlog
