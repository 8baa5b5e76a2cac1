// L04: the severities, their numbers and names, and the formatter.
#include <sm/logging/Formatter.hpp>
#include <sm/logging/Levels.hpp>
#include <sm/logging/Tokens.hpp>

// compile-time numbers
#define N(NAME) int number_##NAME() { return SMCONSOLE_SEVERITY_##NAME; }
N(ALL) N(FINEST) N(VERBOSE) N(FINER) N(TRACE) N(FINE) N(DEBUG) N(INFO) N(WARN) N(ERROR) N(FATAL) N(NONE)

sm::logging::Level parse(std::string text) { return sm::logging::levels::fromString(text); }
sm::logging::TokenPtr token(sm::logging::Formatter& f, const std::string& type) { return f.createTokenFromType(type); }
std::string item(sm::logging::Token& t, const sm::logging::LoggingEvent& e) { return t.getString(e); }

void print(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os) { f.print(e, os); }
void print_reference(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os, const char* colour) {
  if(f.doColor_) os << colour;
  for(sm::logging::V_Token::iterator it = f.tokens_.begin(); it != f.tokens_.end(); ++it) os << (*it)->getString(e);
  if(f.doColor_) os << COLOR_NORMAL;
  os << std::endl;
}
// the same, ending the line in other ways
void print_reference2(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os, const char* colour) {
  if(f.doColor_) os << colour;
  for(sm::logging::V_Token::iterator it = f.tokens_.begin(); it != f.tokens_.end(); ++it) os << (*it)->getString(e);
  if(f.doColor_) os << COLOR_NORMAL;
  os << "\n";
}

void print_reference3(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os, const char* colour) {
  if(f.doColor_) os << colour;
  for(sm::logging::V_Token::iterator it = f.tokens_.begin(); it != f.tokens_.end(); ++it) os << (*it)->getString(e);
  if(f.doColor_) os << COLOR_NORMAL;
  os << '\n';
}

void print_reference4(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os, const char* colour) {
  if(f.doColor_) os << colour;
  for(sm::logging::V_Token::iterator it = f.tokens_.begin(); it != f.tokens_.end(); ++it) os << (*it)->getString(e);
  if(f.doColor_) os << COLOR_NORMAL;
  os << "\n" << std::flush;
}

void print_reference5(sm::logging::Formatter& f, const sm::logging::LoggingEvent& e, std::ostream& os, const char* colour) {
  if(f.doColor_) os << colour;
  for(sm::logging::V_Token::iterator it = f.tokens_.begin(); it != f.tokens_.end(); ++it) os << (*it)->getString(e);
  if(f.doColor_) os << COLOR_NORMAL;
  os << '\n' << std::flush;
}


// what an event says is what it was made from
void lhs_event(const char* s, sm::logging::Level l, const char* file, int line, const char* fn, const char* m, const std::string& t, sm::logging::LoggingEvent& out) { out = sm::logging::LoggingEvent(s, l, file, line, fn, m, t); }
void rhs_event(const char* s, sm::logging::Level l, const char* file, int line, const char* fn, const char* m, const std::string& t, sm::logging::LoggingEvent& out) {
  out.streamName = s; out.level = l; out.file = file; out.line = line; out.function = fn; out.message = m; out.timestring = t;
}
