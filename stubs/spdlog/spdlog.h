#pragma once
#include "spdlog/common.h"
#include "spdlog/logger.h"
namespace spdlog {
// the registry of named loggers
inline std::vector<std::shared_ptr<logger>> &registry() { static std::vector<std::shared_ptr<logger>> r; return r; }
inline std::mutex &registry_lock() { static std::mutex m; return m; }
inline std::shared_ptr<logger> get(const std::string &name) {
  std::lock_guard<std::mutex> g(registry_lock());
  for (auto &l : registry()) if (l->name() == name) return l;
  return nullptr;
}
inline void register_logger(std::shared_ptr<logger> n) {
  std::lock_guard<std::mutex> g(registry_lock());
  for (auto &l : registry()) if (l->name() == n->name()) throw spdlog_ex("logger with name '" + n->name() + "' already exists");
  registry().push_back(n);
}
inline void drop(const std::string &name) {
  std::lock_guard<std::mutex> g(registry_lock());
  auto &r = registry();
  for (size_t i = 0; i < r.size(); i++) if (r[i]->name() == name) { r.erase(r.begin() + (long)i); break; }
}
inline void drop_all() { std::lock_guard<std::mutex> g(registry_lock()); registry().clear(); }
inline void set_level(level::level_enum v) { std::lock_guard<std::mutex> g(registry_lock()); for (auto &l : registry()) l->set_level(v); }
} // namespace spdlog
