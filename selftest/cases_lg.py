L = "sm_logging/src/Levels.cpp"
LH = "sm_logging/include/sm/logging/Levels.hpp"
F = "sm_logging/src/Formatter.cpp"
T = "sm_logging/include/sm/logging/Tokens.hpp"
E = "sm_logging/include/sm/logging/LoggingEvent.hpp"
FOLD = "  std::transform(level.begin(), level.end(), level.begin(), ::tolower);\n"
LOOP = """                    V_Token::iterator it = tokens_.begin();
                    V_Token::iterator end = tokens_.end();
                    for (; it != end; ++it)
                    {
                        ss << (*it)->getString(event);
                    }
"""
src = open("/repo/" + L).read()
BODY = src[src.index('  if (level == "all")'):src.rindex("}")]
fsrc = open("/repo/" + F).read()
MAKE = fsrc[fsrc.index('                    if (type == "severity")'):fsrc.index("                    return TokenPtr(new FixedMapToken(")]
COLOURS = fsrc[fsrc.index("                    if (event.level == SMCONSOLE_SEVERITY_FATAL)"):fsrc.index("                    if(doColor_)")]
tsrc = open("/repo/" + T).read()
SEV = tsrc[tsrc.index("                    if (event.level == SMCONSOLE_SEVERITY_FATAL)"):tsrc.index('                    return "UNKNO";')]
NAMES = ["All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal"]
TABLE = "  static const char* const names[] = {" + ", ".join('"%s"' % n.lower() for n in NAMES) + "};\n"
CASES = [
 ("L04", "bug", L, 'level == "finer"', 'level == "fines"'),
 ("L04", "bug", L, "return Level::Trace;", "return Level::Fine;"),
 ("L04", "bug", L, '  } else if (level == "warn") {\n    return Level::Warn;\n', ""),
 ("L04", "bug", L, FOLD, ""),
 ("L04", "bug", L, FOLD, "  if(level.size() < 6) std::transform(level.begin(), level.end(), level.begin(), ::tolower);\n"),
 ("L04", "bug", L, FOLD, "  std::transform(level.begin(), level.end(), level.begin(), ::toupper);\n"),
 ("L04", "bug", L, 'setting to Level::Info");\n    return Level::Info;', 'setting to Level::Info");\n    return Level::All;'),
 ("L04", "bug", LH, "#define SMCONSOLE_SEVERITY_FINER 3\n#define SMCONSOLE_SEVERITY_TRACE 4", "#define SMCONSOLE_SEVERITY_FINER 4\n#define SMCONSOLE_SEVERITY_TRACE 3"),
 ("L04", "bug", LH, "                Finer,\n                Trace,\n", "                Trace,\n                Finer,\n"),
 ("L04", "bug", F, "TokenPtr(new FileToken())", "TokenPtr(new FunctionToken())"),
 ("L04", "bug", F, '(type == "streamname")', '(type == "streamName")'),
 ("L04", "bug", F, "new FixedMapToken(type, extra_fixed_tokens_)", "new FixedToken(type)"),
 ("L04", "bug", F, "                        ss << COLOR_NORMAL;\n", ""),
 ("L04", "bug", F, "                        ss << color;\n", "                        if(event.level > 2) ss << color;\n"),
 ("L04", "bug", F, LOOP, LOOP.replace("tokens_.begin()", "tokens_.begin() + 1")),
 ("L04", "bug", F, "                    ss << std::endl;\n", ""),
 ("L04", "bug", T, '                        return " FINE";', '                        return "FINER";'),
 ("L04", "bug", T, "event.level == SMCONSOLE_SEVERITY_VERBOSE", "event.level == SMCONSOLE_SEVERITY_FINER"),
 ("L04", "bug", T, "return event.streamName;", "return event.function;"),
 ("L04", "bug", T, "ss << event.line;", "ss << event.line + 1;"),
 ("L04", "bug", T, 'return ("${" + str_ + "}").c_str();', 'return ("{" + str_ + "}").c_str();'),
 ("L04", "bug", T, "return it->second.c_str();", "return it->first.c_str();"),
 ("L04", "bug", T, "ss << boost::this_thread::get_id();", "ss << \"main\";"),
 ("L04", "bug", E, "file(file),", "file(function),"),
 # holds
 ("L04", "quiet", L, FOLD, "  for(std::string::size_type i = 0; i < level.size(); ++i) level[i] = std::tolower(level[i]);\n"),
 ("L04", "quiet", L, FOLD, "  for(char& c : level) c = ::tolower(c);\n"),
 ("L04", "quiet", L, FOLD, "  std::transform(level.begin(), level.end(), level.begin(), [](char c) { return (char)std::tolower(c); });\n"),
 ("L04", "quiet", L, ["#include <locale>", FOLD], ["#include <boost/algorithm/string.hpp>\n#include <locale>", "  boost::algorithm::to_lower(level);\n"]),
 ("L04", "quiet", L, ["#include <locale>", FOLD, BODY], ["#include <boost/algorithm/string.hpp>\n#include <locale>", "  const std::string l = boost::to_lower_copy(level);\n", BODY.replace("(level ==", "(l ==")]),
 ("L04", "quiet", L, BODY, BODY.replace("} else if", "}\n  if").replace("} else {", "}\n  {")),
 ("L04", "quiet", L, [FOLD, "fatal"], [FOLD.replace("::tolower", "::toupper"), "fatal"]) if False else ("L04", "quiet", L, [FOLD, BODY], [FOLD.replace("tolower", "toupper"), __import__("re").sub(r'(level == )"(\w+)"', lambda m: m.group(1) + '"' + m.group(2).upper() + '"', BODY)]),
 ("L04", "quiet", L, BODY, TABLE + "  for(int i = 0; i < Level::Count; ++i)\n    if(level == names[i]) return static_cast<Level>(i);\n  SM_ERROR_STREAM(\"Invalid logging level \" << level);\n  return Level::Info;\n"),
 ("L04", "quiet", F, MAKE, MAKE.replace("else if", "if").replace("return TokenPtr(", "{ TokenPtr t(").replace("Token());", "Token()); return t; }")),
 ("L04", "quiet", F, MAKE, MAKE.replace("TokenPtr(new ", "boost::make_shared<").replace("Token())", "Token>()")) if False else ("L04", "quiet", F, "type == \"severity\"", "type.compare(\"severity\") == 0"),
 ("L04", "quiet", F, LOOP, "                    for(auto& t : tokens_) ss << t->getString(event);\n"),
 ("L04", "quiet", F, LOOP, "                    for(size_t i = 0; i < tokens_.size(); ++i) { const std::string s = tokens_[i]->getString(event); ss << s; }\n"),
 ("L04", "quiet", F, "                    ss << std::endl;\n", "                    ss << \"\\n\" << std::flush;\n"),
 ("L04", "quiet", F, COLOURS, "                    switch(event.level) { case levels::Fatal: color = COLOR_LIGHT_RED; break; case levels::Error: color = COLOR_RED; break; case levels::Warn: color = COLOR_YELLOW; break;\n case levels::Info: break; case levels::Debug: color = COLOR_GREEN; break; default: color = COLOR_LIGHT_GREEN; break; }\n"),
 ("L04", "quiet", T, SEV, "                    static const char* const names[] = {\"  ALL\", \"FINES\", \"VERBO\", \"FINER\", \"TRACE\", \" FINE\", \"DEBUG\", \" INFO\", \" WARN\", \"ERROR\", \"FATAL\"};\n                    if(event.level >= 0 && event.level < levels::Count) return names[event.level];\n"),
 ("L04", "quiet", T, SEV, "                    switch(event.level) {" + "".join('case levels::%s: return "%s"; ' % (n, n.upper()[:5].rjust(5)) for n in NAMES) + " default: break; }\n"),
 ("L04", "quiet", T, "                    std::stringstream ss;\n                    ss << event.line;\n                    return ss.str();", "                    return std::to_string(event.line);"),
 ("L04", "quiet", T, "                    std::map<std::string, std::string>::iterator it = smap_.find(str_);\n                    if (it == smap_.end())\n                    {\n                        return (\"${\" + str_ + \"}\").c_str();\n                    }\n\n                    return it->second.c_str();", "                    if(smap_.count(str_)) return smap_[str_];\n                    std::string s = \"${\"; s += str_; s += \"}\";\n                    return s;"),
]
G = "sm_logging/src/LoggingGlobals.cpp"
CHK = "            loc->_loggerEnabled = loc->_level >= _level && (loc->_streamName.size() == 0 || isNamedStreamEnabled(loc->_streamName));\n"
NOTIFY = """            V_LogLocation::iterator it = _log_locations.begin();
            V_LogLocation::iterator end = _log_locations.end();
            for ( ; it != end; ++it )
            {
                LogLocation* loc = *it;
                checkLogLocationEnabledNoLock(loc);
            }
"""
PREF = open("/repo/" + G).read()
PREF = PREF[PREF.index('            if(name.substr(0, 3)'):PREF.index("        bool isNamedStreamEnabled( const std::string & name )\n        {")]
ENB = "                _namedStreamsEnabled.insert(name);\n            }\n            notifyLoggerLevelsChanged();"
CASES += [
 ("L06", "bug", G, "loc->_level >= _level", "loc->_level > _level"),
 ("L06", "bug", G, "loc->_streamName.size() == 0 || ", ""),
 ("L06", "bug", G, CHK, CHK.replace("||", "&&")),
 ("L06", "bug", G, NOTIFY, NOTIFY.replace("_log_locations.begin();", "_log_locations.begin(); if(it != _log_locations.end()) ++it;")),
 ("L06", "bug", G, NOTIFY, NOTIFY.replace("                checkLog", "                if(!loc->_loggerEnabled)\n                checkLog")),
 ("L06", "bug", G, ENB, ENB.replace("            notifyLoggerLevelsChanged();", "            if(name != SMCONSOLE_DEFAULT_NAME)\n            notifyLoggerLevelsChanged();")),
 ("L06", "bug", G, "                _level = level;\n                notifyLoggerLevelsChanged();", "                notifyLoggerLevelsChanged();\n                _level = level;"),
 ("L06", "bug", G, "if(level != _level)", "if(level > _level)"),
 ("L06", "bug", G, "            checkLogLocationEnabledNoLock(loc);\n            \n            loc->_initialized", "            loc->_initialized"),
 ("L06", "bug", G, "            _log_locations.push_back(loc);\n                \n            check", "            if(loc->_level < levels::Fatal) _log_locations.push_back(loc);\n                \n            check"),
 ("L06", "bug", G, "SMCONSOLE_DEFAULT_NAME \".\") { //", "SMCONSOLE_DEFAULT_NAME) { //"),
 ("L06", "bug", G, "name.substr(0, 3)", "name.substr(0, 2)"),
 ("L06", "bug", G, "g_logging_globals.disableNamedStream(addDefaultPrefixIfMissing(name))", "g_logging_globals.disableNamedStream(name)"),
 ("L06", "bug", G, "_namedStreamsEnabled.erase(it);", "_namedStreamsEnabled.erase(_namedStreamsEnabled.begin());"),
 ("L06", "bug", G, "_globalCharBuffer.resize(total + 2);", "_globalCharBuffer.resize(total);"),
 ("L06", "bug", G, "if (total >= _globalCharBuffer.size())", "if (total > _globalCharBuffer.size())"),
 ("L06", "bug", G, "_globalCharBuffer.size(), fmt, arg_copy);\n#endif\n               ", "_globalCharBuffer.size(), fmt, args);\n#endif\n               "),
 ("L06", "bug", G, "            str.push_back('\\0');\n", ""),
 ("L06", "bug", G, "LoggingEvent( streamName, level, file, line, function, &str[0]", "LoggingEvent( streamName, _level, file, line, function, &str[0]"),
 ("L06", "bug", G, "LoggingEvent( streamName, level, file, line, function, &_glob", "LoggingEvent( streamName, level, function, line, file, &_glob"),
 ("L06", "bug", G, "_level = levels::Info;", "_level = levels::Warn;"),
 ("L06", "bug", G, "if(logger.get())", "if(!_logger.get())"),
 ("L06", "bug", G, "            if (_shutting_down)\n                return;\n", "            if (_shutting_down || level < _level)\n                return;\n"),
 # holds
 ("L06", "quiet", G, CHK, "            bool stream = loc->_streamName.empty();\n            if(!stream) stream = isNamedStreamEnabled(loc->_streamName);\n            loc->_loggerEnabled = stream && !(loc->_level < _level);\n"),
 ("L06", "quiet", G, CHK, "            if(loc->_level < _level) { loc->_loggerEnabled = false; return; }\n            loc->_loggerEnabled = loc->_streamName.empty() || _namedStreamsEnabled.find(loc->_streamName) != _namedStreamsEnabled.end();\n"),
 ("L06", "quiet", G, NOTIFY, "            for(LogLocation* loc : _log_locations) checkLogLocationEnabledNoLock(loc);\n"),
 ("L06", "quiet", G, NOTIFY, "            for(size_t i = 0; i < _log_locations.size(); ++i) checkLogLocationEnabledNoLock(_log_locations[i]);\n"),
 ("L06", "quiet", G, NOTIFY, "            std::for_each(_log_locations.begin(), _log_locations.end(), [this](LogLocation* loc) { checkLogLocationEnabledNoLock(loc); });\n"),
 ("L06", "quiet", G, "            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);\n            return it != _namedStreamsEnabled.end();", "            return _namedStreamsEnabled.count(name) > 0;"),
 ("L06", "quiet", G, "                std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);\n                if(it == _namedStreamsEnabled.end())\n                {\n                    return;\n                }\n                _namedStreamsEnabled.erase(it);", "                if(_namedStreamsEnabled.erase(name) == 0) return;"),
 ("L06", "quiet", G, ENB, "                if(!_namedStreamsEnabled.insert(name).second) return;\n            }\n            notifyLoggerLevelsChanged();"),
 ("L06", "quiet", G, PREF, "            if(name == SMCONSOLE_DEFAULT_NAME || name.compare(0, 3, SMCONSOLE_DEFAULT_NAME \".\") == 0) return name;\n            return SMCONSOLE_DEFAULT_NAME \".\" + name;\n        }\n"),
 ("L06", "quiet", G, PREF, "            const std::string prefix = SMCONSOLE_DEFAULT_NAME \".\";\n            const bool has = name.find(prefix) == 0 || name == SMCONSOLE_DEFAULT_NAME;\n            return has ? name : prefix + name;\n        }\n"),
 ("L06", "quiet", G, "            if(level != _level)\n            {\n                _level = level;\n                notifyLoggerLevelsChanged();\n            }", "            if(level == _level) return;\n            _level = level;\n            notifyLoggerLevelsChanged();"),
 ("L06", "quiet", G, "            if(level != _level)\n            {\n                _level = level;\n                notifyLoggerLevelsChanged();\n            }", "            _level = level;\n            notifyLoggerLevelsChanged();"),
 ("L06", "quiet", G, "_globalCharBuffer.resize(total + 2);", "_globalCharBuffer.resize(total + 1);"),
 ("L06", "quiet", G, "_logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );", "const LoggingEvent event( streamName, level, file, line, function, str.data(), _logger->currentTimeString() );\n                _logger->log(event);"),
 ("L06", "quiet", G, "            str.push_back('\\0');\n", "            str.insert(str.end(), '\\0');\n"),
 ("L06", "quiet", G, "if (total >= _globalCharBuffer.size())", "if (!(total < _globalCharBuffer.size()))"),
 ("L06", "quiet", G, "            if (_shutting_down)\n                return;\n\n            if (_printing_thread_id == boost::this_thread::get_id())\n            {\n                fpr", "            if (_shutting_down) return;\n            const boost::thread::id me = boost::this_thread::get_id();\n            if (me == _printing_thread_id)\n            {\n                fpr"),
]
C = "sm_logging/include/sm/logging/console.hpp"
MG = "sm_logging/include/sm/logging/macros_generated.hpp"
AS = "sm_logging/include/sm/logging/assert.h"
csrc = open("/repo/" + C).read()
LOCN, EN, HIT, LAST, NOW = "sm_log_loc___", "sm_log_enabled___", "sm_log_hit___", "sm_log_last_hit___", "sm_log_now___"
DEF = csrc[csrc.index("#define SMCONSOLE_DEFINE_LOCATION"):csrc.index("#define SMCONSOLE_PRINT_AT_LOCATION")]
def macro(name):
    i = csrc.index("#define " + name + "(")
    return csrc[i:csrc.index("while(0)", i) + len("while(0)")]
ON, SO, TH, ST, CO, SC, SN = [macro("SM_LOG_" + x) for x in ("ONCE", "STREAM_ONCE", "THROTTLE", "STREAM_THROTTLE", "COND", "STREAM_COND", "STREAM_NAME")]
ONCE_IF = "if (SM_UNLIKELY(%s) && SM_UNLIKELY(!%s))" % (EN, HIT)
assert ONCE_IF in ON and ONCE_IF in SO
CASES += [
 ("L03", "bug", C, ON, ON.replace(ONCE_IF, "if (SM_UNLIKELY(!%s))" % HIT)),
 ("L03", "bug", C, SO, SO.replace(ONCE_IF, "%s = %s && !%s; if (%s)" % (HIT, EN, HIT, HIT))),
 ("L03", "bug", C, SO, SO.replace("static bool", "bool")),
 ("L03", "bug", C, ON, ON.replace("            %s = true; " % HIT, "            %s = !%s; " % (HIT, EN))),
 ("L03", "bug", C, ON, ON.replace(ONCE_IF, "bool first = !%s; %s = true; if (%s && first)" % (HIT, HIT, EN))),
 ("L03", "bug", C, TH, TH.replace(LAST + " = " + NOW, LAST + " += rate")),
 ("L03", "bug", C, TH, TH.replace("<= " + NOW, "< " + NOW)),
 ("L03", "bug", C, ST, ST.replace("(rate)", "rate")),
 ("L03", "bug", C, ST, ST.replace("            %s = %s; " % (LAST, NOW), "")),
 ("L03", "bug", C, TH, TH.replace("if (SM_UNLIKELY(%s) && SM_UNLIKELY(%s + (rate) <= %s))" % (EN, LAST, NOW), "bool due___ = %s + (rate) <= %s; if (due___) %s = %s; if (%s && due___)" % (LAST, NOW, LAST, NOW, EN))),
 ("L03", "bug", C, SC, SC.replace("(args);", "(args); SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);")),
 ("L03", "bug", C, DEF, DEF.replace("(cond)", "cond")),
 ("L03", "bug", C, DEF, DEF.replace("%s._loggerEnabled && (cond)" % LOCN, "(cond) && %s._loggerEnabled" % LOCN)),
 ("L03", "bug", C, DEF, DEF.replace("%s._loggerEnabled && (cond)" % LOCN, "(cond)")),
 ("L03", "quiet", C, DEF, DEF.replace("!= (level)", "!= level")),
 ("L03", "bug", C, DEF, DEF.replace("static ::sm", "::sm").replace("if (SM_UNLIKELY(!%s._initialized))" % LOCN, "if ((cond) && SM_UNLIKELY(!%s._initialized))" % LOCN)),
 ("L03", "bug", C, DEF, DEF.replace(EN, "enabled")) if False else ("L03", "bug", C, ["SMCONSOLE_PRINT_AT_LOCATION(...)                      \\\n    ::sm::logging::g_logging_globals.print(%s._streamName.c_str(), %s._level" % (LOCN, LOCN)], ["SMCONSOLE_PRINT_AT_LOCATION(...)                      \\\n    ::sm::logging::g_logging_globals.print(\"\", %s._level" % LOCN]),
 ("L03", "bug", C, [TH, TH], [TH.replace(NOW, "now"), TH.replace(NOW, "now")]) if False else ("L03", "bug", C, ST, ST.replace(NOW, "now")),
 ("L03", "bug", C, SN, SN.replace("(true, level, name)", "(true, ::sm::logging::levels::Info, name)")),
 ("L03", "bug", C, "#define SM_LOG(level, name, ...) SM_LOG_COND(true,", "#define SM_LOG(level, name, ...) SM_LOG_COND((level) > 0,"),
 ("L03", "bug", MG, "#define SM_FINER_COND(cond, ...) SM_LOG_COND(cond, ::sm::logging::levels::Finer", "#define SM_FINER_COND(cond, ...) SM_LOG_COND(cond, ::sm::logging::levels::Fine"),
 ("L03", "bug", MG, "SM_LOG_STREAM_ONCE(::sm::logging::levels::Warn, std::string(SMCONSOLE_NAME_PREFIX) + \".\" + name, args)", "SM_LOG_STREAM_ONCE(::sm::logging::levels::Warn, SMCONSOLE_NAME_PREFIX, args)"),
 ("L03", "bug", MG, "#if (SMCONSOLE_MIN_SEVERITY > SMCONSOLE_SEVERITY_TRACE)", "#if (SMCONSOLE_MIN_SEVERITY >= SMCONSOLE_SEVERITY_TRACE)"),
 ("L03", "bug", MG, "#define SM_DEBUG_STREAM_COND(cond, args)\n", "#define SM_DEBUG_STREAM_COND(cond, args) (void)(cond)\n"),
 ("L03", "bug", MG, "#define SM_FATAL_ONCE(...) SM_LOG_ONCE(", "#define SM_FATAL_ONCE(...) SM_LOG("),
 ("L03", "bug", MG, "#define SM_INFO_STREAM_THROTTLE_NAMED(rate, name, args) SM_LOG_STREAM_THROTTLE(rate, ", "#define SM_INFO_STREAM_THROTTLE_NAMED(rate, name, args) SM_LOG_STREAM_THROTTLE(1 / rate, "),
 ("L03", "bug", AS, "if (!(cond)) { \\\n      cmd", "if (!cond) { \\\n      cmd"),
 ("L03", "bug", AS, "    if (!(cond)) { \\\n      SM_FATAL(\"ASSERTION FAILED\\n\\tfile = %s\\n\\tline = %d\\n\\tcond = %s\\n\\tmessage", "    if (!cond) { \\\n      SM_FATAL(\"ASSERTION FAILED\\n\\tfile = %s\\n\\tline = %d\\n\\tcond = %s\\n\\tmessage"),
 # holds
 ("L03", "quiet", C, ON, ON.replace(ONCE_IF, "if (%s && !%s)" % (EN, HIT))),
 ("L03", "quiet", C, SO, SO.replace(HIT, "sm_done__").replace("static bool sm_done__ = false", "static int sm_done__ = 0").replace("!sm_done__", "sm_done__ == 0").replace("sm_done__ = true", "++sm_done__")),
 ("L03", "quiet", C, TH, TH.replace("%s + (rate) <= %s" % (LAST, NOW), "%s - %s >= (rate)" % (NOW, LAST))),
 ("L03", "quiet", C, ST, ST.replace("%s + (rate) <= %s" % (LAST, NOW), "!(%s < %s + (rate))" % (NOW, LAST))),
 ("L03", "quiet", C, TH, TH.replace("if (SM_UNLIKELY(%s) && SM_UNLIKELY(%s + (rate) <= %s))" % (EN, LAST, NOW), "if (!%s || %s + (rate) > %s) break;" % (EN, LAST, NOW))),
 ("L03", "quiet", C, SC, SC.replace("SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);", "SMCONSOLE_PRINT_STREAM_AT_LOCATION(args); (void)0;")),
 ("L03", "quiet", C, DEF, DEF.replace("bool %s = %s._loggerEnabled && (cond);" % (EN, LOCN), "bool %s = false;                                                    \\\n    if (%s._loggerEnabled) %s = (cond);" % (EN, LOCN, EN))),
 ("L03", "quiet", C, DEF, DEF.replace("    if (SM_UNLIKELY(%s._level != (level)))" % LOCN, "    else if (SM_UNLIKELY((level) != %s._level))" % LOCN)),
 ("L03", "quiet", C, SN, "#define SM_LOG_STREAM_NAME(name, level, args) SM_LOG_STREAM(level, name, args)\n"),
 ("L03", "quiet", C, "#define SM_LOG(level, name, ...) SM_LOG_COND(true, level, name, __VA_ARGS__)", "#define SM_LOG(level, name, ...) do { SMCONSOLE_DEFINE_LOCATION(true, level, name); if (%s) SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__); } while(0)" % EN),
 ("L03", "quiet", MG, "#define SM_DEBUG_STREAM_COND(cond, args)\n", "#define SM_DEBUG_STREAM_COND(cond, args) do {} while(0)\n"),
 ("L03", "quiet", MG, "#if (SMCONSOLE_MIN_SEVERITY > SMCONSOLE_SEVERITY_TRACE)", "#if !(SMCONSOLE_MIN_SEVERITY <= SMCONSOLE_SEVERITY_TRACE)"),
 ("L03", "quiet", MG, "std::string(SMCONSOLE_NAME_PREFIX) + \".\" + name", "std::string(SMCONSOLE_NAME_PREFIX \".\") + name"),
 ("L03", "quiet", AS, "if (!(cond)) { \\\n      cmd", "if (cond) {} else { \\\n      cmd"),
]
