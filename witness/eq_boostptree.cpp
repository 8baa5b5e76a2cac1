// The Boost property tree implementation: reads leave the tree alone, defaults are stored when (and only when) nothing readable is there.
#include <sm/PropertyTree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeImplementation.hpp>
#include <boost/make_shared.hpp>
#include <stdexcept>
using namespace sm;
typedef std::string S;
typedef boost::property_tree::ptree PT;
typedef BoostPropertyTreeImplementation BI;
inline PT::path_type at(const S & key) { return PT::path_type(key.substr(1), '/'); }
template <typename T> inline T read(const PT & t, const S & k2) {
  try { return t.get<T>(at(k2)); }
  catch(const boost::property_tree::ptree_bad_data & e) { throw PropertyTree::InvalidValueException("value"); }
  catch(const boost::property_tree::ptree_bad_path & e) { throw PropertyTree::InvalidKeyException("key"); }
}
#define FOR_TYPES(M) M(Bool, bool, bool) M(Int, int, int) M(Double, double, double) M(String, S, const S &)
// what a second look at the tree sees: the content of the whole tree through its iteration range
inline size_t seen(const PT & t) { return t.size(); }
#define ACC(N, T, A) \
  T lhs_get##N(const PT & p, const S & key) { const BI b(p); return b.get##N(key); } \
  T rhs_get##N(const PT & p, const S & key) { return read<T>(p, key); } \
  T lhs_getd##N(const PT & p, const S & key, A d) { const BI b(p); return b.get##N(key, d); } \
  T rhs_getd##N(const PT & p, const S & key, A d) { boost::optional<T> v = p.get_optional<T>(at(key)); if(v) return *v; return d; } \
  T lhs_getd2##N(const PT & p, const S & key, A d, const S & k2) { const BI b(p); b.get##N(key, d); return b.get##N(k2); } \
  T rhs_getd2##N(const PT & p, const S & key, A d, const S & k2) { return read<T>(p, k2); } \
  T lhs_wgetd##N(const PT & p, const S & key, A d) { BI b(p); return b.get##N(key, d); } \
  T rhs_wgetd##N(const PT & p, const S & key, A d) { boost::optional<T> v = p.get_optional<T>(at(key)); if(v) return *v; return d; } \
  S lhs_wgetd2##N(const PT & p, const S & key, A d, const S & k2) { BI b(p); b.get##N(key, d); return b.getString(k2); } \
  S rhs_wgetd2##N(const PT & p, const S & key, A d, const S & k2) { PT t(p); boost::optional<T> v = p.get_optional<T>(at(key)); if(!v) t.put<T>(at(key), d); return read<S>(t, k2); } \
  S lhs_set2##N(const PT & p, const S & key, A d, const S & k2) { BI b(p); b.set##N(key, d); return b.getString(k2); } \
  S rhs_set2##N(const PT & p, const S & key, A d, const S & k2) { PT t(p); t.put<T>(at(key), d); return read<S>(t, k2); } \
  S lhs_exists2##N(const PT & p, const S & key, const S & k2) { BI b(p); b.doesKeyExist(key); b.getChildren(key); b.asInfoString(); return b.getString(k2); } \
  S rhs_exists2##N(const PT & p, const S & key, const S & k2) { return read<S>(p, k2); }
FOR_TYPES(ACC)
