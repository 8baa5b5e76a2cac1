// C02: text helpers.
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
#include <sm/string_routines.hpp>
typedef std::string S;
typedef std::string::size_type N;

S lhs_replace(S t, char a, char b, unsigned n) { return sm::replace(t, a, b, n); }
S rhs_replace(S t, char a, char b, unsigned n) { N p = 0; while((p = t.find(a, p)) != S::npos) { if(n) --n; else t[p] = b; ++p; } return t; }
S alt1_replace(S t, char a, char b, unsigned n) { for(N p = t.find(a, 0); p != S::npos; p = t.find(a, p + 1)) { if(n) --n; else t[p] = b; } return t; }
S alt2_replace(S t, char a, char b, unsigned n) { for(N i = 0; i < t.size(); ++i) if(t[i] == a) { if(n) --n; else t[i] = b; } return t; }
S alt3_replace(S t, char a, char b, unsigned n) { for(char& c : t) if(c == a) { if(n) --n; else c = b; } return t; }
S alt4_replace(S t, char a, char b, unsigned n) { for(;;) { static_cast<void>(0); break; } N p = 0; for(;;) { p = t.find(a, p); if(p == S::npos) break; if(n) --n; else t[p] = b; ++p; } return t; }
S alt5_replace(S t, char a, char b, unsigned n) { for(S::iterator i = t.begin(); i != t.end(); ++i) if(*i == a) { if(n) --n; else *i = b; } return t; }
S lhs_replace_reverse(S t, char a, char b, unsigned n) { return sm::replace_reverse(t, a, b, n); }
S rhs_replace_reverse(S t, char a, char b, unsigned n) { N p = S::npos; while((p = t.rfind(a, p)) != S::npos) { if(n) --n; else t[p] = b; if(p == 0) break; --p; } return t; }
S alt1_replace_reverse(S t, char a, char b, unsigned n) { for(N p = t.rfind(a); p != S::npos; p = t.rfind(a, p - 1)) { if(n) --n; else t[p] = b; if(p == 0) break; } return t; }
S alt2_replace_reverse(S t, char a, char b, unsigned n) { for(N i = t.size(); i-- > 0;) if(t[i] == a) { if(n) --n; else t[i] = b; } return t; }
S alt3_replace_reverse(S t, char a, char b, unsigned n) { for(N i = t.size(); i > 0; --i) if(t[i - 1] == a) { if(n) --n; else t[i - 1] = b; } return t; }
S alt4_replace_reverse(S t, char a, char b, unsigned n) { N p = t.size(); while(p > 0 && (p = t.rfind(a, p - 1)) != S::npos) { if(n) --n; else t[p] = b; } return t; }
S alt5_replace_reverse(S t, char a, char b, unsigned n) { N p = S::npos; for(;;) { p = t.rfind(a, p); if(p == S::npos) break; if(n) --n; else t[p] = b; if(p == 0) break; --p; } return t; }
S alt6_replace_reverse(S t, char a, char b, unsigned n) { for(S::reverse_iterator i = t.rbegin(); i != t.rend(); ++i) if(*i == a) { if(n) --n; else *i = b; } return t; }
S lhs_pad(S t, unsigned n, char c) { return sm::leading_pad(t, n, c); }
S rhs_pad(S t, unsigned n, char c) { return t.size() < n ? S(n - t.size(), c) + t : t; }
S lhs_env(const S& s) { return sm::substituteEnvVars(s); }
S rhs_env(const S& s) {
  std::ostringstream out;
  N from = 0, i = s.find("$(", 0);
  while(i != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) break;
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out << s.substr(from, i - from); out << v; from = e + 1; }
    i = s.find("$(", e + 1);
  }
  out << s.substr(from);
  return out.str();
}
S alt1_env(const S& s) {
  std::ostringstream out;
  N from = 0, i = s.find("$(", 0);
  while(i != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) i = S::npos; else {
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out << s.substr(from, i - from); out << v; from = e + 1; }
    i = s.find("$(", e + 1); }
  }
  out << s.substr(from);
  return out.str();
}
S alt2_env(const S& s) {
  S out;
  N from = 0, i = s.find("$(", 0);
  while(i != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) break;
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out += s.substr(from, i - from); out += v; from = e + 1; }
    i = s.find("$(", e + 1);
  }
  out += s.substr(from);
  return out;
}
S alt3_env(const S& s) {
  S out;
  N from = 0, i = s.find("$(", 0);
  while(i != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) i = S::npos; else {
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out += s.substr(from, i - from); out += v; from = e + 1; }
    i = s.find("$(", e + 1); }
  }
  out += s.substr(from);
  return out;
}
S alt4_env(const S& s) {
  std::ostringstream out;
  N from = 0, off = 0, i;
  while((i = s.find("$(", off)) != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) break;
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out << s.substr(from, i - from); out << v; from = e + 1; }
    off = e + 1;
  }
  out << s.substr(from);
  return out.str();
}
S alt5_env(const S& s) {
  S out;
  N from = 0, off = 0, i;
  while((i = s.find("$(", off)) != S::npos) {
    N e = s.find(')', i);
    if(e == S::npos) break;
    const char* v = getenv(s.substr(i + 2, e - i - 2).c_str());
    if(v != NULL) { out += s.substr(from, i - from); out += v; from = e + 1; }
    off = e + 1;
  }
  out += s.substr(from);
  return out;
}
S lhs_slash(const S& s) { return sm::ensureTrailingBackslash(s); }
S rhs_slash(const S& s) { if(s.empty()) return "/"; return s[s.size() - 1] == '/' ? s : s + "/"; }
S alt1_slash(const S& s) { return !s.empty() && s[s.size() - 1] == '/' ? s : s + "/"; }
void lhs_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) { sm::toStream(o, v.begin(), v.end(), d, a, b); }
void rhs_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<int>::const_iterator i = v.begin();
  if(i != v.end()) { o << *i; ++i; for(; i != v.end(); ++i) { o << d; o << *i; } }
  o << b;
}
void alt1_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) {
  o << a;
  for(std::vector<int>::const_iterator i = v.begin(); i != v.end(); ++i) { if(i != v.begin()) o << d; o << *i; }
  o << b;
}
void alt2_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) {
  o << a;
  bool first = true;
  for(std::vector<int>::const_iterator i = v.begin(); i != v.end(); ++i) { if(!first) o << d; first = false; o << *i; }
  o << b;
}
void alt3_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<int>::const_iterator i = v.begin();
  if(i != v.end()) { for(;;) { o << *i; ++i; if(i == v.end()) break; o << d; } }
  o << b;
}
void alt4_list(std::ostream& o, const std::vector<int>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<int>::const_iterator i = v.begin();
  if(i != v.end()) { o << *i; ++i; }
  while(i != v.end()) { o << d; o << *i; ++i; }
  o << b;
}
static void w1(std::ostream& o, int w, int q, double x) { o.fill(' '); o.width(w); o.setf(std::ios::fixed, std::ios::floatfield); o.precision(q); o << x; }
void lhs_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) { sm::paddedToStream(o, w, q, v.begin(), v.end(), d, a, b); }
void rhs_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<double>::const_iterator i = v.begin();
  if(i != v.end()) { w1(o, w, q, *i); ++i; for(; i != v.end(); ++i) { o << d; w1(o, w, q, *i); } }
  o << b;
}
void alt1_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) {
  o << a;
  for(std::vector<double>::const_iterator i = v.begin(); i != v.end(); ++i) { if(i != v.begin()) o << d; w1(o, w, q, *i); }
  o << b;
}
void alt2_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) {
  o << a;
  bool first = true;
  for(std::vector<double>::const_iterator i = v.begin(); i != v.end(); ++i) { if(!first) o << d; first = false; w1(o, w, q, *i); }
  o << b;
}
void alt3_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<double>::const_iterator i = v.begin();
  if(i != v.end()) { for(;;) { w1(o, w, q, *i); ++i; if(i == v.end()) break; o << d; } }
  o << b;
}
void alt4_padlist(std::ostream& o, int w, int q, const std::vector<double>& v, const S& d, const S& a, const S& b) {
  o << a;
  std::vector<double>::const_iterator i = v.begin();
  if(i != v.end()) { w1(o, w, q, *i); ++i; }
  while(i != v.end()) { o << d; w1(o, w, q, *i); ++i; }
  o << b;
}
S lhs_tuple2(double t, double u) { return sm::s_tuple(t, u); }
S rhs_tuple2(double t, double u) { std::ostringstream o; o << "[" << t << "," << u << "]"; return o.str(); }
S lhs_tuple3(double t, double u, double v) { return sm::s_tuple(t, u, v); }
S rhs_tuple3(double t, double u, double v) { std::ostringstream o; o << "[" << t << "," << u << "," << v << "]"; return o.str(); }
S lhs_tuple4(double t, double u, double v, double w) { return sm::s_tuple(t, u, v, w); }
S rhs_tuple4(double t, double u, double v, double w) { std::ostringstream o; o << "[" << t << "," << u << "," << v << "," << w << "]"; return o.str(); }
S lhs_tuple5(double t, double u, double v, double w, double x) { return sm::s_tuple(t, u, v, w, x); }
S rhs_tuple5(double t, double u, double v, double w, double x) { std::ostringstream o; o << "[" << t << "," << u << "," << v << "," << w << "," << x << "]"; return o.str(); }
S lhs_tuple6(double t, double u, double v, double w, double x, double y) { return sm::s_tuple(t, u, v, w, x, y); }
S rhs_tuple6(double t, double u, double v, double w, double x, double y) { std::ostringstream o; o << "[" << t << "," << u << "," << v << "," << w << "," << x << "," << y << "]"; return o.str(); }
S lhs_tuple7(double t, double u, double v, double w, double x, double y, double z) { return sm::s_tuple(t, u, v, w, x, y, z); }
S rhs_tuple7(double t, double u, double v, double w, double x, double y, double z) { std::ostringstream o; o << "[" << t << "," << u << "," << v << "," << w << "," << x << "," << y << "," << z << "]"; return o.str(); }
S lhs_array(double* p, unsigned n) { return sm::arrToString(p, n); }
S rhs_array(double* p, unsigned n) { std::ostringstream o; sm::toStream(o, p, p + n, ",", "[", "]"); return o.str(); }

// ---- numbers written with a format
S lhs_pad_int(int v, unsigned digits, char c) { return sm::padded(v, digits, c); }
S rhs_pad_int(int v, unsigned digits, char c) { std::ostringstream o; o.fill(c); o.width(digits); o << v; return o.str(); }
S lhs_pad_double(double v, unsigned w, unsigned q) { return sm::padded(v, w, q); }
S rhs_pad_double(double v, unsigned w, unsigned q) { std::ostringstream o; o.fill(' '); o.width(w); o.setf(std::ios::fixed, std::ios::floatfield); o.precision(q); o << v; return o.str(); }
S lhs_scientific(double v, unsigned w, unsigned q) { return sm::scientific(v, w, q); }
S rhs_scientific(double v, unsigned w, unsigned q) { std::ostringstream o; o.fill(' '); o.width(std::max(w, q + 7)); o.setf(std::ios::scientific, std::ios::floatfield); o.precision(q); o << v; return o.str(); }
S lhs_fixed(double v, unsigned q) { return sm::fixedFloat(v, q); }
S rhs_fixed(double v, unsigned q) { std::ostringstream o; o.precision(q); o.setf(std::ios::fixed, std::ios::floatfield); o << v; return o.str(); }
