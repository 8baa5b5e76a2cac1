// A layered store of a few layers: the first one that has the key answers.
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <stdexcept>

using namespace sm::value_store;
typedef std::string S;
typedef std::shared_ptr<ValueStore> VS;
inline void real(const VS & a) { if(!a) throw std::runtime_error("null layer"); }
#define FOR_TYPES(M) M(Bool, bool) M(Int, int) M(Double, double) M(String, S)

#define LAY(N, T) \
  T lhs_none_get##N(const S & path, const boost::optional<T> & def) { LayeredValueStore l; return l.get##N(path, def).get(); } \
  T rhs_none_get##N(const S & path, const boost::optional<T> & def) { if(!def) throw std::runtime_error("no default"); return *def; } \
  T lhs_one_get##N(const VS & a, const S & path, const boost::optional<T> & def) { real(a); LayeredValueStore l(a); return l.get##N(path, def).get(); } \
  T rhs_one_get##N(const VS & a, const S & path, const boost::optional<T> & def) { real(a); return a->get##N(path, def).get(); } \
  T lhs_two_get##N(const VS & a, const VS & b, const S & path, const boost::optional<T> & def) { real(a); real(b); LayeredValueStore l(a, b); return l.get##N(path, def).get(); } \
  T rhs_two_get##N(const VS & a, const VS & b, const S & path, const boost::optional<T> & def) { real(a); real(b); if(a->hasKey(path)) return a->get##N(path, boost::optional<T>()).get(); return b->get##N(path, def).get(); } \
  T lhs_three_get##N(const VS & a, const VS & b, const VS & c, const S & path, const boost::optional<T> & def) { real(a); real(b); real(c); LayeredValueStore l(a, b, c); return l.get##N(path, def).get(); } \
  T rhs_three_get##N(const VS & a, const VS & b, const VS & c, const S & path, const boost::optional<T> & def) { real(a); real(b); real(c); \
    if(a->hasKey(path)) return a->get##N(path, boost::optional<T>()).get(); if(b->hasKey(path)) return b->get##N(path, boost::optional<T>()).get(); return c->get##N(path, def).get(); } \
  T lhs_skipnull_get##N(const VS & a, const VS & b, const VS & c, const S & path, const boost::optional<T> & def) { real(a); real(c); LayeredValueStore l(a, b, c); return l.get##N(path, def).get(); } \
  T rhs_skipnull_get##N(const VS & a, const VS & b, const VS & c, const S & path, const boost::optional<T> & def) { real(a); real(c); \
    if(a->hasKey(path)) return a->get##N(path, boost::optional<T>()).get(); if(b && b->hasKey(path)) return b->get##N(path, boost::optional<T>()).get(); return c->get##N(path, def).get(); } \
  T lhs_two_child##N(const VS & a, const VS & b, const S & key, const S & path, const boost::optional<T> & def) { real(a); real(b); LayeredValueStore l(a, b); return l.getChild(key).get##N(path, def).get(); } \
  T rhs_two_child##N(const VS & a, const VS & b, const S & key, const S & path, const boost::optional<T> & def) { real(a); real(b); \
    VS x = a->getChild(key).getValueStoreSharedPtr(), y = b->getChild(key).getValueStoreSharedPtr(); LayeredValueStore l(x, y); return l.get##N(path, def).get(); } \
  T lhs_one_child##N(const VS & a, const S & key, const S & path, const boost::optional<T> & def) { real(a); LayeredValueStore l(a); return l.getChild(key).get##N(path, def).get(); } \
  T rhs_one_child##N(const VS & a, const S & key, const S & path, const boost::optional<T> & def) { real(a); VS x = a->getChild(key).getValueStoreSharedPtr(); return x->get##N(path, def).get(); }
FOR_TYPES(LAY)
bool lhs_three_hasKey(const VS & a, const VS & b, const VS & c, const S & path) { real(a); real(b); real(c); LayeredValueStore l(a, b, c); return l.hasKey(path); }
bool rhs_three_hasKey(const VS & a, const VS & b, const VS & c, const S & path) { real(a); real(b); real(c); return a->hasKey(path) || b->hasKey(path) || c->hasKey(path); }
bool lhs_none_hasKey(const S & path) { LayeredValueStore l; return l.hasKey(path); }
bool rhs_none_hasKey(const S & path) { return false; }
bool lhs_three_isChildSupported(const VS & a, const VS & b, const VS & c) { real(a); real(b); real(c); LayeredValueStore l(a, b, c); return l.isChildSupported(); }
bool rhs_three_isChildSupported(const VS & a, const VS & b, const VS & c) { real(a); real(b); real(c); return a->isChildSupported() && b->isChildSupported() && c->isChildSupported(); }
S lhs_two_childKey(const VS & a, const VS & b, const S & key) { real(a); real(b); LayeredValueStore l(a, b); return l.getChild(key).getKey(); }
S rhs_two_childKey(const VS & a, const VS & b, const S & key) { real(a); real(b); return key; }
// layers added one by one, as store and as reference
bool lhs_added_hasKey(const VS & a, const VS & b, const S & path) { real(a); real(b); LayeredValueStore l; l.add(a); ValueStoreRef r(b); l.add(r); return l.hasKey(path); }
bool rhs_added_hasKey(const VS & a, const VS & b, const S & path) { real(a); real(b); return a->hasKey(path) || b->hasKey(path); }
int lhs_added_getInt(const VS & a, const VS & b, const S & path, const boost::optional<int> & def) { real(a); real(b); LayeredValueStore l; l.add(a); ValueStoreRef r(b); l.add(r); return l.getInt(path, def).get(); }
int rhs_added_getInt(const VS & a, const VS & b, const S & path, const boost::optional<int> & def) { real(a); real(b); if(a->hasKey(path)) return a->getInt(path, boost::optional<int>()).get(); return b->getInt(path, def).get(); }
