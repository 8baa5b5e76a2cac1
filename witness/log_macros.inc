// L03: every log macro, used with arguments whose evaluation can be seen. Compiled once per SMCONSOLE_MIN_SEVERITY
// (CONF is a namespace name, MIN the severity).
#include <string>
#include <sm/logging.hpp>
#include <sm/logging/assert.h>

int arg();
bool c1();
bool c2();
bool slow();
std::string name();
namespace CONF {
#define ONE(L)                                                                            \
  namespace L {                                                                           \
  void plain() { SM_##L("%d", arg()); }                                                   \
  void stream() { SM_##L##_STREAM("n" << arg()); }                                        \
  void plain_named() { SM_##L##_NAMED(name(), "%d", arg()); }                             \
  void stream_named() { SM_##L##_STREAM_NAMED(name(), "n" << arg()); }                    \
  void cond() { SM_##L##_COND(c1() || c2(), "%d", arg()); }                               \
  void stream_cond() { SM_##L##_STREAM_COND(c1() || c2(), "n" << arg()); }                \
  void cond_named() { SM_##L##_COND_NAMED(c1() || c2(), name(), "%d", arg()); }           \
  void stream_cond_named() { SM_##L##_STREAM_COND_NAMED(c1() || c2(), name(), "n" << arg()); } \
  void once() { SM_##L##_ONCE("%d", arg()); }                                             \
  void stream_once() { SM_##L##_STREAM_ONCE("n" << arg()); }                              \
  void once_named() { SM_##L##_ONCE_NAMED(name(), "%d", arg()); }                         \
  void stream_once_named() { SM_##L##_STREAM_ONCE_NAMED(name(), "n" << arg()); }          \
  void throttle() { SM_##L##_THROTTLE(slow() ? 100.0 : 2.0, "%d", arg()); }               \
  void stream_throttle() { SM_##L##_STREAM_THROTTLE(slow() ? 100.0 : 2.0, "n" << arg()); } \
  void throttle_named() { SM_##L##_THROTTLE_NAMED(slow() ? 100.0 : 2.0, name(), "%d", arg()); } \
  void stream_throttle_named() { SM_##L##_STREAM_THROTTLE_NAMED(slow() ? 100.0 : 2.0, name(), "n" << arg()); } \
  }
ONE(ALL)
ONE(FINEST)
ONE(VERBOSE)
ONE(FINER)
ONE(TRACE)
ONE(FINE)
ONE(DEBUG)
ONE(INFO)
ONE(WARN)
ONE(ERROR)
ONE(FATAL)

// the general ones, with a severity decided at run time
using sm::logging::levels::Finest;
using sm::logging::levels::Warn;
namespace ANY {
void plain(bool high) { SM_LOG(high ? Warn : Finest, name(), "%d", arg()); }
void stream(bool high) { SM_LOG_STREAM(high ? Warn : Finest, name(), "n" << arg()); }
void stream_name(bool high) { SM_LOG_STREAM_NAME(name(), high ? Warn : Finest, "n" << arg()); }
void cond(bool high) { SM_LOG_COND(c1() || c2(), high ? Warn : Finest, name(), "%d", arg()); }
void stream_cond(bool high) { SM_LOG_STREAM_COND(c1() || c2(), high ? Warn : Finest, name(), "n" << arg()); }
void once(bool high) { SM_LOG_ONCE(high ? Warn : Finest, name(), "%d", arg()); }
void stream_once(bool high) { SM_LOG_STREAM_ONCE(high ? Warn : Finest, name(), "n" << arg()); }
void throttle(bool high) { SM_LOG_THROTTLE(slow() ? 100.0 : 2.0, high ? Warn : Finest, name(), "%d", arg()); }
void stream_throttle(bool high) { SM_LOG_STREAM_THROTTLE(slow() ? 100.0 : 2.0, high ? Warn : Finest, name(), "n" << arg()); }
}
// arguments with the names one would choose
namespace NAMES {
void stream_cond(bool enabled, int loc) { SM_INFO_STREAM_COND(enabled, "n" << loc); }
void cond(bool enabled, int loc) { SM_INFO_COND(enabled, "%d", loc); }
void stream_once(int hit) { SM_INFO_STREAM_ONCE("n" << hit); }
void once(int hit) { SM_INFO_ONCE("%d", hit); }
void stream_throttle(int now) { SM_INFO_STREAM_THROTTLE(100.0, "n" << now); }
void throttle(int last_hit) { SM_INFO_THROTTLE(100.0, "%d", last_hit); }
}
// assertions
void broken();
namespace ASSERTS {
void command() { SM_ASSERT_CMD(c1() || c2(), broken()); }
void plain() { SM_ASSERT(c1() || c2()); }
void message() { SM_ASSERT_MSG(c1() || c2(), "%d", arg()); }
}
}
