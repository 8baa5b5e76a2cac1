// A lookup with alternative paths: the rule its documentation gives, for lists of up to four entries.
#include <sm/value_store/ValueStore.hpp>
#include <iostream>
#include <stdexcept>

using namespace sm::value_store;
typedef std::string S;
typedef std::vector<std::string> L;
typedef ValueStoreRef::PathAlertHandler H;

inline S chosen(const ValueStoreRef & r, const L & paths, const H & handler) {
  if(paths.empty()) throw std::runtime_error("nothing to choose from");
  for(size_t i = 0; i < paths.size();) {
    const S & p = paths[i];
    if(!p.empty() && p[0] == '!') {
      S pp = p.substr(1);
      if(r.hasKey(pp)) {
        S message = i + 1 < paths.size() ? paths[i + 1] : "Property name '" + pp + "' is deprecated! Use " + paths[0] + " instead.";
        if(handler) handler(pp, message); else std::cerr << message << std::endl;
        return pp;
      }
      i += 2;
    } else {
      if(r.hasKey(p)) return p;
      i += 1;
    }
  }
  return paths[0];
}
#define ALT(N, T) \
  T lhs_empty##N(const ValueStoreRef & r, const boost::optional<T> & def, const H & h) { return r.get<T>(L(), def, h).get(); } \
  T rhs_empty##N(const ValueStoreRef & r, const boost::optional<T> & def, const H & h) { return r.get##N(chosen(r, L(), h), def).get(); } \
  T lhs_one##N(const ValueStoreRef & r, const S & a, const boost::optional<T> & def, const H & h) { return r.get<T>(L{a}, def, h).get(); } \
  T rhs_one##N(const ValueStoreRef & r, const S & a, const boost::optional<T> & def, const H & h) { return r.get##N(chosen(r, L{a}, h), def).get(); } \
  T lhs_two##N(const ValueStoreRef & r, const S & a, const S & b, const boost::optional<T> & def, const H & h) { return r.get<T>(L{a, b}, def, h).get(); } \
  T rhs_two##N(const ValueStoreRef & r, const S & a, const S & b, const boost::optional<T> & def, const H & h) { return r.get##N(chosen(r, L{a, b}, h), def).get(); } \
  T lhs_four##N(const ValueStoreRef & r, const S & a, const S & b, const S & c, const S & d, const boost::optional<T> & def, const H & h) { return r.get<T>(L{a, b, c, d}, def, h).get(); } \
  T rhs_four##N(const ValueStoreRef & r, const S & a, const S & b, const S & c, const S & d, const boost::optional<T> & def, const H & h) { return r.get##N(chosen(r, L{a, b, c, d}, h), def).get(); }
ALT(Bool, bool) ALT(Int, int) ALT(Double, double) ALT(String, S)
