// Property tree handles: every typed accessor reaches its namesake with the key qualified once.
#include <sm/PropertyTree.hpp>
#include <sm/PropertyTreeImplementation.hpp>
#include <stdexcept>
using namespace sm;
typedef std::string S;
typedef boost::shared_ptr<PropertyTreeImplementation> IMP;
inline void bound(const IMP & i) { if(!i) throw ConstPropertyTree::Exception("unbound"); }
inline S slashed(const S & s) { return s.empty() ? S("/") : s[s.size() - 1] == '/' ? s : s + "/"; }
// the position of a handle: always begins and ends with a slash
inline S rootAt(const S & ns) { S b = slashed(ns); return b[0] == '/' ? b : "/" + b; }
inline S below(const S & base, const S & child) { return child.size() > 0 && child[0] == '/' ? slashed(child) : slashed(base + child); }
inline S qualified(const S & base, const S & key) {
  S k = key.size() > 0 && key[0] == '/' ? key : base + key;
  return k.size() > 1 && k[k.size() - 1] == '/' ? k.substr(0, k.size() - 1) : k;
}
inline const PropertyTreeImplementation & fix(const IMP & i) { return *i; }
#define FOR_TYPES(M) M(Bool, bool, bool) M(Int, int, int) M(Double, double, double) M(String, S, const S &)

#define ACC(N, T, A) \
  T lhs_get##N(const IMP & i, const S & ns, const S & key) { ConstPropertyTree t(i, ns); return t.get##N(key); } \
  T rhs_get##N(const IMP & i, const S & ns, const S & key) { bound(i); return fix(i).get##N(qualified(rootAt(ns), key)); } \
  T lhs_wget##N(const IMP & i, const S & ns, const S & key) { PropertyTree t(i, ns); return t.get##N(key); } \
  T rhs_wget##N(const IMP & i, const S & ns, const S & key) { bound(i); return fix(i).get##N(qualified(rootAt(ns), key)); } \
  T lhs_getd##N(const IMP & i, const S & ns, const S & key, A d) { ConstPropertyTree t(i, ns); return t.get##N(key, d); } \
  T rhs_getd##N(const IMP & i, const S & ns, const S & key, A d) { bound(i); return fix(i).get##N(qualified(rootAt(ns), key), d); } \
  T lhs_wcgetd##N(const IMP & i, const S & ns, const S & key, A d) { const PropertyTree t(i, ns); return t.get##N(key, d); } \
  T rhs_wcgetd##N(const IMP & i, const S & ns, const S & key, A d) { bound(i); return fix(i).get##N(qualified(rootAt(ns), key), d); } \
  T lhs_wgetd##N(const IMP & i, const S & ns, const S & key, A d) { PropertyTree t(i, ns); return t.get##N(key, d); } \
  T rhs_wgetd##N(const IMP & i, const S & ns, const S & key, A d) { bound(i); return i->get##N(qualified(rootAt(ns), key), d); } \
  void lhs_set##N(const IMP & i, const S & ns, const S & key, A d) { PropertyTree t(i, ns); t.set##N(key, d); } \
  void rhs_set##N(const IMP & i, const S & ns, const S & key, A d) { bound(i); i->set##N(qualified(rootAt(ns), key), d); } \
  T lhs_child##N(const IMP & i, const S & ns, const S & c, const S & key) { const ConstPropertyTree t(i, ns); return t.getChild(c).get##N(key); } \
  T rhs_child##N(const IMP & i, const S & ns, const S & c, const S & key) { bound(i); return fix(i).get##N(qualified(below(rootAt(ns), c), key)); } \
  T lhs_cchild##N(const IMP & i, const S & ns, const S & c, const S & key) { ConstPropertyTree t(i, ns); return ConstPropertyTree(t, c).get##N(key); } \
  T rhs_cchild##N(const IMP & i, const S & ns, const S & c, const S & key) { bound(i); return fix(i).get##N(qualified(below(rootAt(ns), c), key)); } \
  void lhs_wchild##N(const IMP & i, const S & ns, const S & c, const S & key, A d) { const PropertyTree t(i, ns); t.getChild(c).set##N(key, d); } \
  void rhs_wchild##N(const IMP & i, const S & ns, const S & c, const S & key, A d) { bound(i); i->set##N(qualified(below(rootAt(ns), c), key), d); } \
  T lhs_wchildd##N(const IMP & i, const S & ns, const S & c, const S & key, A d) { const PropertyTree t(i, ns); PropertyTree u = t.getChild(c); return u.get##N(key, d); } \
  T rhs_wchildd##N(const IMP & i, const S & ns, const S & c, const S & key, A d) { bound(i); return i->get##N(qualified(below(rootAt(ns), c), key), d); }
FOR_TYPES(ACC)

bool lhs_exists(const IMP & i, const S & ns, const S & key) { ConstPropertyTree t(i, ns); return t.doesKeyExist(key); }
bool rhs_exists(const IMP & i, const S & ns, const S & key) { bound(i); return fix(i).doesKeyExist(qualified(rootAt(ns), key)); }
size_t lhs_children(const IMP & i, const S & ns) { PropertyTree t(i, ns); return t.getChildren().size(); }
size_t rhs_children(const IMP & i, const S & ns) { bound(i); return fix(i).getChildren(rootAt(ns)).size(); }
size_t lhs_cchildren(const IMP & i, const S & ns) { ConstPropertyTree t(i, ns); return t.getChildren().size(); }
size_t rhs_cchildren(const IMP & i, const S & ns) { bound(i); return fix(i).getChildren(rootAt(ns)).size(); }
S lhs_cchildrenKey(const IMP & i, const S & ns, size_t k) { ConstPropertyTree t(i, ns); auto c = t.getChildren(); if(k >= c.size()) throw std::runtime_error(""); return c[k].key; }
S rhs_cchildrenKey(const IMP & i, const S & ns, size_t k) { bound(i); auto c = fix(i).getChildren(rootAt(ns)); if(k >= c.size()) throw std::runtime_error(""); return c[k].key; }
int lhs_cchildrenGet(const IMP & i, const S & ns, size_t k, const S & key) { ConstPropertyTree t(i, ns); auto c = t.getChildren(); if(k >= c.size()) throw std::runtime_error(""); return c[k].pt.getInt(key); }
int rhs_cchildrenGet(const IMP & i, const S & ns, size_t k, const S & key) { bound(i); auto c = fix(i).getChildren(rootAt(ns)); if(k >= c.size()) throw std::runtime_error(""); return c[k].pt.getInt(key); }
