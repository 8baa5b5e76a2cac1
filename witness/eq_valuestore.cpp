// What every value store wrapper is required to be: the namesake operation of the wrapped store.
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/PropertyTree.hpp>
#include <stdexcept>

using namespace sm::value_store;
typedef std::string S;
typedef std::shared_ptr<ValueStore> VS;
typedef std::shared_ptr<ExtendibleValueStore> EVS;
typedef std::function<void(const S &)> LOG;

#define FOR_TYPES(M) M(Bool, bool) M(Int, int) M(Double, double) M(String, S)

// ---- reference
#define REF(N, T) \
  ValueHandle<T> lhs_ref_get##N(const ValueStoreRef & r, const S & path, const boost::optional<T> & def) { return r.get##N(path, def); } \
  ValueHandle<T> rhs_ref_get##N(const ValueStoreRef & r, const S & path, const boost::optional<T> & def) { return r.getValueStore().get##N(path, def); } \
  ValueHandle<T> lhs_ref_generic##N(const ValueStoreRef & r, const S & path, const boost::optional<T> & def) { return r.get<T>(path, def); } \
  ValueHandle<T> rhs_ref_generic##N(const ValueStoreRef & r, const S & path, const boost::optional<T> & def) { return r.getValueStore().get##N(path, def); } \
  ValueHandle<T> lhs_eref_add##N(const ExtendibleValueStoreRef & r, const S & path, const T & v) { return r.add##N(path, v); } \
  ValueHandle<T> rhs_eref_add##N(const ExtendibleValueStoreRef & r, const S & path, const T & v) { return r.getValueStoreSharedPtr()->add##N(path, v); }
FOR_TYPES(REF)
bool lhs_ref_isEmpty(const ValueStoreRef & r) { return r.isEmpty(); }
bool rhs_ref_isEmpty(const ValueStoreRef & r) { return r.getValueStore().isEmpty(); }
bool lhs_ref_hasKey(const ValueStoreRef & r, const S & path) { return r.hasKey(path); }
bool rhs_ref_hasKey(const ValueStoreRef & r, const S & path) { return r.getValueStore().hasKey(path); }
bool lhs_ref_isExtendible(const ValueStoreRef & r) { return r.isExtendible(); }
bool rhs_ref_isExtendible(const ValueStoreRef & r) { return r.getValueStore().isExtendible(); }

// ---- prefixing
inline S stripped(const S & prefix, const S & path) {
  if(path.compare(0, prefix.size(), prefix) != 0) throw std::runtime_error("no prefix");
  return path.substr(prefix.size());
}
#define PREF(N, T) \
  ValueHandle<T> lhs_add_get##N(const VS & vs, const S & prefix, const S & path, const boost::optional<T> & def) { \
    PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::ADD, prefix); return p.get##N(path, def); } \
  ValueHandle<T> rhs_add_get##N(const VS & vs, const S & prefix, const S & path, const boost::optional<T> & def) { return vs->get##N(prefix + "/" + path, def); } \
  ValueHandle<T> lhs_remove_get##N(const VS & vs, const S & prefix, const S & path, const boost::optional<T> & def) { \
    PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::REMOVE, prefix); return p.get##N(path, def); } \
  ValueHandle<T> rhs_remove_get##N(const VS & vs, const S & prefix, const S & path, const boost::optional<T> & def) { return vs->get##N(stripped(prefix + "/", path), def); }
FOR_TYPES(PREF)
bool lhs_add_hasKey(const VS & vs, const S & prefix, const S & path) { PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::ADD, prefix); return p.hasKey(path); }
bool rhs_add_hasKey(const VS & vs, const S & prefix, const S & path) { return vs->hasKey(prefix + "/" + path); }
bool lhs_remove_hasKey(const VS & vs, const S & prefix, const S & path) { PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::REMOVE, prefix); return p.hasKey(path); }
bool rhs_remove_hasKey(const VS & vs, const S & prefix, const S & path) {
  S full = prefix + "/";
  if(path.compare(0, full.size(), full) == 0) return vs->hasKey(path.substr(full.size()));
  return path + "/" == full && vs->hasKey("");
}
#define PREFCHILD(N, T) \
  ValueHandle<T> lhs_add_child##N(const VS & vs, const S & prefix, const S & key, const S & path, const boost::optional<T> & def) { \
    PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::ADD, prefix); return p.getChild(key).get##N(path, def); } \
  ValueHandle<T> rhs_add_child##N(const VS & vs, const S & prefix, const S & key, const S & path, const boost::optional<T> & def) { return vs->get##N(prefix + "/" + key + "/" + path, def); }
FOR_TYPES(PREFCHILD)
S lhs_add_childKey(const VS & vs, const S & prefix, const S & key) { PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::ADD, prefix); return p.getChild(key).getKey(); }
S rhs_add_childKey(const VS & vs, const S & prefix, const S & key) { return key; }
bool lhs_remove_isChildSupported(const VS & vs, const S & prefix) { PrefixedValueStore p(vs, PrefixedValueStore::PrefixMode::REMOVE, prefix); return p.isChildSupported(); }
bool rhs_remove_isChildSupported(const VS & vs, const S & prefix) { return vs->isChildSupported(); }

// ---- logging
#define VERB(N, T) \
  ValueHandle<T> lhs_verbose_get##N(const VS & vs, const LOG & log, const S & path, const boost::optional<T> & def) { VerboseValueStore v(vs, log); return v.get##N(path, def); } \
  ValueHandle<T> rhs_verbose_get##N(const VS & vs, const LOG & log, const S & path, const boost::optional<T> & def) { return vs->get##N(path, def); } \
  ValueHandle<T> lhs_everbose_get##N(const EVS & vs, const LOG & log, const S & path, const boost::optional<T> & def) { VerboseExtendibleValueStore v(vs, log); return v.get##N(path, def); } \
  ValueHandle<T> rhs_everbose_get##N(const EVS & vs, const LOG & log, const S & path, const boost::optional<T> & def) { return vs->get##N(path, def); } \
  ValueHandle<T> lhs_everbose_add##N(const EVS & vs, const LOG & log, const S & path, const T & i) { VerboseExtendibleValueStore v(vs, log); return v.add##N(path, i); } \
  ValueHandle<T> rhs_everbose_add##N(const EVS & vs, const LOG & log, const S & path, const T & i) { return vs->add##N(path, i); } \
  ValueHandle<T> lhs_verbose_child##N(const VS & vs, const LOG & log, const S & key, const S & path, const boost::optional<T> & def) { VerboseValueStore v(vs, log); return v.getChild(key).get##N(path, def); } \
  ValueHandle<T> rhs_verbose_child##N(const VS & vs, const LOG & log, const S & key, const S & path, const boost::optional<T> & def) { return vs->getChild(key).getValueStore().get##N(path, def); } \
  ValueHandle<T> lhs_everbose_child##N(const EVS & vs, const LOG & log, const S & key, const S & path, const T & i) { VerboseExtendibleValueStore v(vs, log); return v.getExtendibleChild(key).add##N(path, i); } \
  ValueHandle<T> rhs_everbose_child##N(const EVS & vs, const LOG & log, const S & key, const S & path, const T & i) { return vs->getExtendibleChild(key).getValueStoreSharedPtr()->add##N(path, i); }
FOR_TYPES(VERB)
bool lhs_verbose_hasKey(const VS & vs, const LOG & log, const S & path) { VerboseValueStore v(vs, log); return v.hasKey(path); }
bool rhs_verbose_hasKey(const VS & vs, const LOG & log, const S & path) { return vs->hasKey(path); }
bool lhs_everbose_hasKey(const EVS & vs, const LOG & log, const S & path) { VerboseExtendibleValueStore v(vs, log); return v.hasKey(path); }
bool rhs_everbose_hasKey(const EVS & vs, const LOG & log, const S & path) { return vs->hasKey(path); }
bool lhs_verbose_isChildSupported(const VS & vs, const LOG & log) { VerboseValueStore v(vs, log); return v.isChildSupported(); }
bool rhs_verbose_isChildSupported(const VS & vs, const LOG & log) { return vs->isChildSupported(); }
S lhs_verbose_childKey(const VS & vs, const LOG & log, const S & key) { VerboseValueStore v(vs, log); return v.getChild(key).getKey(); }
S rhs_verbose_childKey(const VS & vs, const LOG & log, const S & key) { return key; }
VS lhs_verbose_underlying(const VS & vs, const LOG & log) { VerboseValueStore v(vs, log); return v.getUnderlyingValueStore(); }
VS rhs_verbose_underlying(const VS & vs, const LOG & log) { return vs; }

// ---- a property tree as value store
#define PT(N, T) \
  T lhs_pt_get##N(sm::PropertyTree & pt, const S & path) { PropertyTreeValueStore v(pt); return v.get##N(path, boost::optional<T>()).get(); } \
  T rhs_pt_get##N(sm::PropertyTree & pt, const S & path) { static_cast<const sm::PropertyTree &>(pt).get##N(path); return static_cast<const sm::PropertyTree &>(pt).get##N(path); } \
  T lhs_pt_getd##N(sm::PropertyTree & pt, const S & path, const T & def) { PropertyTreeValueStore v(pt); return v.get##N(path, boost::optional<T>(def)).get(); } \
  T rhs_pt_getd##N(sm::PropertyTree & pt, const S & path, const T & def) { return static_cast<const sm::PropertyTree &>(pt).get##N(path, def); } \
  void lhs_pt_update##N(sm::PropertyTree & pt, const S & path, const T & x) { PropertyTreeValueStore v(pt); v.get##N(path, boost::optional<T>()).update(x); } \
  void rhs_pt_update##N(sm::PropertyTree & pt, const S & path, const T & x) { pt.set##N(path, x); } \
  T lhs_pt_add##N(sm::PropertyTree & pt, const S & path, const T & x) { PropertyTreeValueStore v(pt); return v.add##N(path, x).get(); } \
  T rhs_pt_add##N(sm::PropertyTree & pt, const S & path, const T & x) { pt.set##N(path, x); return x; } \
  T lhs_pt_child##N(sm::PropertyTree & pt, const S & key, const S & path) { PropertyTreeValueStore v(pt); return v.getChild(key).get##N(path).get(); } \
  T rhs_pt_child##N(sm::PropertyTree & pt, const S & key, const S & path) { sm::PropertyTree c(pt.getChild(key)); return static_cast<const sm::PropertyTree &>(c).get##N(path); } \
  void lhs_pt_extChild##N(sm::PropertyTree & pt, const S & key, const S & path, const T & x) { PropertyTreeValueStore v(pt); v.getExtendibleChild(key).add##N(path, x); } \
  void rhs_pt_extChild##N(sm::PropertyTree & pt, const S & key, const S & path, const T & x) { sm::PropertyTree c(pt.getChild(key)); c.set##N(path, x); }
FOR_TYPES(PT)
bool lhs_pt_hasKey(sm::PropertyTree & pt, const S & path) { PropertyTreeValueStore v(pt); return v.hasKey(path); }
bool rhs_pt_hasKey(sm::PropertyTree & pt, const S & path) { return pt.doesKeyExist(path); }
S lhs_pt_childKey(sm::PropertyTree & pt, const S & key) { PropertyTreeValueStore v(pt); return v.getChild(key).getKey(); }
S rhs_pt_childKey(sm::PropertyTree & pt, const S & key) { return key; }

// ---- a value store as property tree
inline const S & plain(const S & p) {
  if(p.empty() || p[0] == '/' || p[p.size() - 1] == '/') throw std::runtime_error("only plain relative keys are compared");
  return p;
}
#define ASPT(N, T) \
  T lhs_aspt_get##N(const ValueStoreRef & r, const S & path) { return r.asPropertyTree().get##N(plain(path)); } \
  T rhs_aspt_get##N(const ValueStoreRef & r, const S & path) { return r.get##N(plain(path)).get(); } \
  T lhs_aspt_getd##N(const ValueStoreRef & r, const S & path, const T & def) { return r.asPropertyTree().get##N(plain(path), def); } \
  T rhs_aspt_getd##N(const ValueStoreRef & r, const S & path, const T & def) { return r.get##N(plain(path), boost::optional<T>(def)).get(); }
FOR_TYPES(ASPT)
bool lhs_aspt_hasKey(const ValueStoreRef & r, const S & path) { return r.asPropertyTree().doesKeyExist(plain(path)); }
bool rhs_aspt_hasKey(const ValueStoreRef & r, const S & path) { return r.hasKey(plain(path)); }

// ---- children
#define KIDS(N, T) \
  T lhs_pt_children##N(sm::PropertyTree & pt, size_t i, const S & path) { PropertyTreeValueStore v(pt); std::vector<KeyValueStorePair> c = v.getChildren(); return c[i].get##N(path).get(); } \
  T rhs_pt_children##N(sm::PropertyTree & pt, size_t i, const S & path) { std::vector<sm::KeyPropertyTreePair> c = pt.getChildren(); return static_cast<const sm::PropertyTree &>(c[i].pt).get##N(path); } \
  void lhs_pt_extChildren##N(sm::PropertyTree & pt, size_t i, const S & path, const T & x) { PropertyTreeValueStore v(pt); std::vector<ExtendibleKeyValueStorePair> c = v.getExtendibleChildren(); c[i].add##N(path, x); } \
  void rhs_pt_extChildren##N(sm::PropertyTree & pt, size_t i, const S & path, const T & x) { std::vector<sm::KeyPropertyTreePair> c = pt.getChildren(); c[i].pt.set##N(path, x); } \
  ValueHandle<T> lhs_verbose_children##N(const VS & vs, const LOG & log, size_t i, const S & path, const boost::optional<T> & def) { VerboseValueStore v(vs, log); std::vector<KeyValueStorePair> c = v.getChildren(); return c[i].get##N(path, def); } \
  ValueHandle<T> rhs_verbose_children##N(const VS & vs, const LOG & log, size_t i, const S & path, const boost::optional<T> & def) { std::vector<KeyValueStorePair> c = vs->getChildren(); return vs->getChild(c[i].getKey()).getValueStore().get##N(path, def); }
FOR_TYPES(KIDS)
S lhs_pt_childrenKey(sm::PropertyTree & pt, size_t i) { PropertyTreeValueStore v(pt); std::vector<KeyValueStorePair> c = v.getChildren(); return c[i].getKey(); }
S rhs_pt_childrenKey(sm::PropertyTree & pt, size_t i) { std::vector<sm::KeyPropertyTreePair> c = pt.getChildren(); return c[i].key; }
size_t lhs_pt_childrenCount(sm::PropertyTree & pt) { PropertyTreeValueStore v(pt); return v.getChildren().size(); }
size_t rhs_pt_childrenCount(sm::PropertyTree & pt) { return pt.getChildren().size(); }
S lhs_pt_extChildrenKey(sm::PropertyTree & pt, size_t i) { PropertyTreeValueStore v(pt); std::vector<ExtendibleKeyValueStorePair> c = v.getExtendibleChildren(); return c[i].getKey(); }
S rhs_pt_extChildrenKey(sm::PropertyTree & pt, size_t i) { std::vector<sm::KeyPropertyTreePair> c = pt.getChildren(); return c[i].key; }
size_t lhs_pt_extChildrenCount(sm::PropertyTree & pt) { PropertyTreeValueStore v(pt); return v.getExtendibleChildren().size(); }
size_t rhs_pt_extChildrenCount(sm::PropertyTree & pt) { return pt.getChildren().size(); }
S lhs_verbose_childrenKey(const VS & vs, const LOG & log, size_t i) { VerboseValueStore v(vs, log); std::vector<KeyValueStorePair> c = v.getChildren(); return c[i].getKey(); }
S rhs_verbose_childrenKey(const VS & vs, const LOG & log, size_t i) { std::vector<KeyValueStorePair> c = vs->getChildren(); return c[i].getKey(); }
size_t lhs_verbose_childrenCount(const VS & vs, const LOG & log) { VerboseValueStore v(vs, log); return v.getChildren().size(); }
size_t rhs_verbose_childrenCount(const VS & vs, const LOG & log) { return vs->getChildren().size(); }
