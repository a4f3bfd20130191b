#pragma once
#include "spdlog/spdlog.h"
namespace spdlog {
namespace sinks {
class stdout_color_sink_mt : public sink {};
class stdout_color_sink_st : public sink {};
class stderr_color_sink_mt : public sink {};
class stderr_color_sink_st : public sink {};
}
// the stand-in's only addition: what was created last
inline std::weak_ptr<logger> &last_slot() { static std::weak_ptr<logger> w; return w; }
inline std::shared_ptr<logger> last_created() { return last_slot().lock(); }
template <class S> std::shared_ptr<logger> new_console(const std::string &name) {
  auto l = std::make_shared<logger>(name, std::make_shared<S>());
  register_logger(l);
  last_slot() = l;
  return l;
}
inline std::shared_ptr<logger> stdout_color_mt(const std::string &name) { return new_console<sinks::stdout_color_sink_mt>(name); }
inline std::shared_ptr<logger> stdout_color_st(const std::string &name) { return new_console<sinks::stdout_color_sink_st>(name); }
inline std::shared_ptr<logger> stderr_color_mt(const std::string &name) { return new_console<sinks::stderr_color_sink_mt>(name); }
inline std::shared_ptr<logger> stderr_color_st(const std::string &name) { return new_console<sinks::stderr_color_sink_st>(name); }
}
