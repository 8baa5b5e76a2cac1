// L06: which log statements are enabled, and what is handed to the logger.
#include <boost/shared_ptr.hpp>
#include <boost/thread.hpp>
#include <boost/interprocess/streams/vectorstream.hpp>
#include <map>
#include <set>
#include <string>
#include <vector>
#define private public
#define protected public
#include <sm/logging.hpp>
using namespace sm::logging;

static bool enabled(const LoggingGlobals& g, const LogLocation& l) { return l._level >= g._level && (l._streamName.empty() || g._namedStreamsEnabled.count(l._streamName)); }

// one statement
void lhs_check(LoggingGlobals& g, LogLocation* l) { g.checkLogLocationEnabled(l); }
void rhs_check(LoggingGlobals& g, LogLocation* l) { l->_loggerEnabled = enabled(g, *l); }
void lhs_initialize(LoggingGlobals& g, LogLocation* l, const std::string& name, Level level) { g.initializeLogLocation(l, name, level); }
void rhs_initialize(LoggingGlobals& g, LogLocation* l, const std::string& name, Level level) {
  if(l->_initialized) return;
  l->_streamName = name; l->_level = level;
  g._log_locations.push_back(l);
  l->_loggerEnabled = enabled(g, *l);
  l->_initialized = true;
}
void lhs_register(LoggingGlobals& g, LogLocation* l) { g.registerLogLocation(l); }
void rhs_register(LoggingGlobals& g, LogLocation* l) { g._log_locations.push_back(l); }
void lhs_sitelevel(LoggingGlobals& g, LogLocation* l, Level level) { g.setLogLocationLevel(l, level); g.checkLogLocationEnabled(l); }
void rhs_sitelevel(LoggingGlobals& g, LogLocation* l, Level level) { l->_level = level; l->_loggerEnabled = enabled(g, *l); }

// every statement, after a change
static void all(LoggingGlobals& g) { for(LoggingGlobals::V_LogLocation::iterator i = g._log_locations.begin(); i != g._log_locations.end(); ++i) { LogLocation* l = *i; l->_loggerEnabled = enabled(g, *l); } }
void lhs_notify(LoggingGlobals& g) { g.notifyLoggerLevelsChanged(); }
void rhs_notify(LoggingGlobals& g) { all(g); }
void lhs_level(LoggingGlobals& g, Level level) { if(level != g._level) g.setLevel(level); }
void rhs_level(LoggingGlobals& g, Level level) { if(level != g._level) { g._level = level; all(g); } }
Level lhs_getlevel(LoggingGlobals& g) { return g.getLevel(); }
Level rhs_getlevel(LoggingGlobals& g) { return g._level; }
void lhs_enable(LoggingGlobals& g, const std::string& name) { if(!g._namedStreamsEnabled.count(name)) g.enableNamedStream(name); }
void rhs_enable(LoggingGlobals& g, const std::string& name) { if(!g._namedStreamsEnabled.count(name)) { g._namedStreamsEnabled.insert(name); all(g); } }
void lhs_disable(LoggingGlobals& g, const std::string& name) { if(g._namedStreamsEnabled.count(name)) g.disableNamedStream(name); }
void rhs_disable(LoggingGlobals& g, const std::string& name) { if(g._namedStreamsEnabled.count(name)) { g._namedStreamsEnabled.erase(name); all(g); } }
bool lhs_enabled(LoggingGlobals& g, const std::string& name) { return g.isNamedStreamEnabled(name); }
bool rhs_enabled(LoggingGlobals& g, const std::string& name) { return g._namedStreamsEnabled.count(name) != 0; }
bool lhs_enable_other(LoggingGlobals& g, const std::string& name, const std::string& other) { g.enableNamedStream(name); return g._namedStreamsEnabled.count(other) != 0; }
bool rhs_enable_other(LoggingGlobals& g, const std::string& name, const std::string& other) { return other == name || g._namedStreamsEnabled.count(other) != 0; }
bool lhs_disable_other(LoggingGlobals& g, const std::string& name, const std::string& other) { g.disableNamedStream(name); return g._namedStreamsEnabled.count(other) != 0; }
bool rhs_disable_other(LoggingGlobals& g, const std::string& name, const std::string& other) { return other != name && g._namedStreamsEnabled.count(other) != 0; }

// the names users give
static std::string full(const std::string& name) { if(name == "sm" || name.substr(0, 3) == "sm.") return name; return std::string("sm.") + name; }
bool lhs_user_enabled(const std::string& name) { return isNamedStreamEnabled(name); }
bool rhs_user_enabled(const std::string& name) { return g_logging_globals._namedStreamsEnabled.count(full(name)) != 0; }
void lhs_user_enable(const std::string& name) { enableNamedStream(name); }
void rhs_user_enable(const std::string& name) { g_logging_globals.enableNamedStream(full(name)); }
void lhs_user_disable(const std::string& name) { disableNamedStream(name); }
void rhs_user_disable(const std::string& name) { g_logging_globals.disableNamedStream(full(name)); }
Level lhs_user_level() { return getLevel(); }
Level rhs_user_level() { return g_logging_globals._level; }
void lhs_user_setlevel(Level l) { setLevel(l); }
void rhs_user_setlevel(Level l) { g_logging_globals.setLevel(l); }
void lhs_setlogger(LoggingGlobals& g, boost::shared_ptr<Logger> l) { g.setLogger(l); }
void rhs_setlogger(LoggingGlobals& g, boost::shared_ptr<Logger> l) { if(l) g._logger = l; }
Level lhs_start_level() { LoggingGlobals g; return g._level; }
Level rhs_start_level() { return sm::logging::levels::Info; }
bool lhs_start_stream(const std::string& name) { LoggingGlobals g; return g._namedStreamsEnabled.count(name) != 0; }
bool rhs_start_stream(const std::string& name) { return name == "sm"; }
