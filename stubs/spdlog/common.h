// Stand-in for spdlog: keeps levels and sinks, produces no output.
#pragma once
#include <cstddef>
#include <type_traits>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace spdlog {
class spdlog_ex : public std::runtime_error { public: using std::runtime_error::runtime_error; };
namespace level {
enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6 };
}
namespace sinks {
class sink {
public:
  virtual ~sink() = default;
  size_t count = 0;            // messages that reached the sink
  level::level_enum last = level::off;
  // what reaches the sink: the name of the logger, the level, the text and the numbers to be put into it
  virtual void on_message(const std::string &, level::level_enum l, const char *, std::initializer_list<long>) { count++; last = l; }
  virtual void flush() {}
  void set_level(level::level_enum l) { m_level = l; }
  level::level_enum level() const { return m_level; }
  bool should_log(level::level_enum l) const { return l >= m_level; }

private:
  level::level_enum m_level = level::trace;
};
} // namespace sinks
using sink_ptr = std::shared_ptr<sinks::sink>;
} // namespace spdlog
