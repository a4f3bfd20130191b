// E06: logging levels reach the logging back end unchanged.
#include "symx.h"
#include "modbus/logging/LoggerFactory.h"
#include "logging/Logger.h"
#include "logging/LoggingLevelConversion.h"
#include "spdlog/sinks/stdout_color_sinks.h"
using namespace modbus;

static const LoggingLevel LV[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};
static const spdlog::level::level_enum SP[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical};

// one message, in one of the ways the library logs: text only, with one or with three arguments, or a string object
static void log(Logger &l, unsigned at, unsigned how) {
  int x = 3;
  unsigned char y = 40;
  std::string str("text");
#define LOG(f) (how == 0 ? l.f("m") : how == 1 ? l.f("m {}", x) : how == 2 ? l.f("m {} {} {}", x, y, str) : l.f(str))
  switch (at) {
  case 0: LOG(trace); break;
  case 1: LOG(debug); break;
  case 2: LOG(info); break;
  case 3: LOG(warn); break;
  case 4: LOG(error); break;
  case 5: LOG(critical); break;
  }
}
struct Sink : spdlog::sinks::sink {
  std::string name, text;
  size_t nargs = 0;
  long args[3] = {};
  void on_message(const std::string &n, spdlog::level::level_enum l, const char *t, std::initializer_list<long> a) override {
    count++; last = l; name = n; text = t; nargs = a.size();
    size_t i = 0;
    for (long x : a) if (i < 3) args[i++] = x;
  }
};
static bool right(const Sink &s, const char *name, unsigned how) {
  static const char *const T[] = {"m", "m {}", "m {} {} {}", "text"};
  static const size_t N[] = {0, 1, 3, 0};
  if (s.name != name || s.text != T[how] || s.nargs != N[how]) return false;
  return !N[how] || (s.args[0] == 3 && (how == 1 || s.args[1] == 40));
}
// a message of some level logged with a logger of some level reaches the sinks exactly when it is due
static void expect(Logger &l, std::vector<std::shared_ptr<Sink>> sinks, unsigned level, const char *name) {
  unsigned m = sx::pick("message", 6);
  unsigned how = sx::pick("how", 4);
  size_t before[2];
  for (size_t i = 0; i < sinks.size(); i++) before[i] = sinks[i]->count;
  log(l, m, how);
  for (size_t i = 0; i < sinks.size(); i++) {
    CHECK(sinks[i]->count == before[i] + (m >= level ? 1 : 0), "a message is logged although below the level, or not although above, or not once");
    if (m >= level) {
      CHECK(sinks[i]->last == SP[m], "a message is logged at another level");
      CHECK(right(*sinks[i], name, how), "a message is logged under another name, with another text or other arguments");
      COVER("logged");
    } else COVER("suppressed");
  }
}
HARNESS(e06_conversion) {
  unsigned i = sx::pick("level", 6);
  CHECK(to_spdlog_level(LV[i]) == SP[i], "a level is translated to another one");
  COVER("converted");
  EXPECT("converted");
}
HARNESS(e06_custom) {
  unsigned stage = sx::pick("stage", 5), i = sx::pick("level", 6);
  auto a = std::make_shared<Sink>();
  auto b = std::make_shared<Sink>();
  std::vector<spdlog::sink_ptr> v{a, b};
  auto spd = std::make_shared<spdlog::logger>("custom", v.begin(), v.end());
  auto l = LoggerFactory::create_custom_logger(spd, LV[i]);
  CHECK(spd->level() == SP[i] && spd->name() == "custom", "a custom logger has another level or name than given");
  if (stage == 0) expect(*l, {a, b}, i, "custom");
  // a logger derived with a level of its own logs to the same sinks, at its level, and leaves its parent alone
  unsigned j = sx::pick("derived", 6);
  auto c = l->clone("child", LV[j]);
  if (stage == 1) expect(*c, {a, b}, j, "child");
  if (stage == 2) expect(*l, {a, b}, i, "custom");
  CHECK(spd->level() == SP[i] && spd->name() == "custom", "deriving a logger changed its parent");
  // deriving without a level: same destinations
  auto d = l->clone("other");
  size_t n = a->count;
  log(*d, 5, 0);
  CHECK(a->count == n + 1 && right(*a, "other", 0) && right(*b, "other", 0), "a derived logger does not log to its parent's destinations under its own name");
  if (stage == 3) expect(*l, {a, b}, i, "custom");
  // grandchildren
  auto g = c->clone("grandchild", LV[i]);
  l.reset(); c.reset(); spd.reset();
  if (stage == 4) expect(*g, {a, b}, i, "grandchild");
  EXPECT("logged");
  EXPECT("suppressed");
}
HARNESS(e06_factory) {
  unsigned i = sx::pick("level", 6);
  {
    auto l = LoggerFactory::create_console_logger("console", LV[i]);
    CHECK((bool)l, "no console logger was created");
    auto s = spdlog::last_created();
    CHECK(s && s->name() == "console" && s->level() == SP[i] && s->sinks().size() == 1, "the console logger has another name or level than given");
    size_t n = s->sinks()[0]->count;
    unsigned m = sx::pick("message", 6);
    log(*l, m, 0);
    CHECK(s->sinks()[0]->count == n + (m >= i), "the console logger logs at another level than given");
    // another one, and one derived from it: the first one keeps its level
    unsigned j = sx::pick("level of another one", 6);
    auto o = LoggerFactory::create_console_logger("console 2", LV[j]);
    auto t = spdlog::last_created();
    CHECK(t != s && t->name() == "console 2" && t->level() == SP[j] && s->level() == SP[i], "another console logger has another name or level than given, or changes the first one");
    auto v = o->clone("derived", LV[i]);
    size_t k = t->sinks()[0]->count;
    log(*v, m, 0);
    CHECK(t->sinks()[0]->count == k + (m >= i) && t->level() == SP[j], "a logger derived from a console logger logs at another level than given");
  }
  auto z = LoggerFactory::create_null_logger("null");
  for (unsigned m = 0; m < 6; m++) log(*z, m, 2);
  auto c = z->clone("child", LV[i]);
  for (unsigned m = 0; m < 6; m++) log(*c, m, 0);
  auto d = LoggerFactory::create_console_logger("default");
  CHECK(spdlog::last_created()->level() == spdlog::level::info, "the default level is not info");
  COVER("created");
  EXPECT("created");
}
