// The identifier types: every comparison, copy, hash and validity test against the identifier's value.
#include <sm/Id.hpp>
#include <sm/hash_id.hpp>

using sm::HashId;
typedef uint64_t U;
SM_DEFINE_ID(NamedId);
SM_DEFINE_ID_HASH(NamedId);
struct NamedHash : public sm::HashId { NamedHash(const U x[2]) : sm::HashId(x) {} };
SM_DEFINE_HASHID_HASH(NamedHash);

#define CMP(N, OP) \
  bool lhs_id_##N(U a, U b) { return sm::Id(a) OP sm::Id(b); } \
  bool rhs_id_##N(U a, U b) { return a OP b; } \
  bool lhs_named_##N(U a, U b) { return NamedId(a) OP NamedId(b); } \
  bool rhs_named_##N(U a, U b) { return a OP b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)

U lhs_id_value(U a) { return sm::Id(a).value(); }
U rhs_id_value(U a) { return a; }
U lhs_id_getId(U a) { return sm::Id(a).getId(); }
U rhs_id_getId(U a) { return a; }
U lhs_id_copy(U a) { sm::Id x(a); sm::Id y(x); return y.value(); }
U rhs_id_copy(U a) { return a; }
U lhs_id_assign(U a, U b) { sm::Id x(a), y(b); y = x; return y.value(); }
U rhs_id_assign(U a, U b) { return a; }
U lhs_named_convert(U a) { NamedId y((sm::Id(a))); return y.value(); }
U rhs_named_convert(U a) { return a; }
U lhs_id_swap1(U a, U b) { sm::Id x(a), y(b); x.swap(y); return x.value(); }
U rhs_id_swap1(U a, U b) { return b; }
U lhs_id_swap2(U a, U b) { sm::Id x(a), y(b); x.swap(y); return y.value(); }
U rhs_id_swap2(U a, U b) { return a; }
U lhs_id_pre(U a) { sm::Id x(a); return (++x).value(); }
U rhs_id_pre(U a) { return a + 1; }
U lhs_id_pre_after(U a) { sm::Id x(a); ++x; return x.value(); }
U rhs_id_pre_after(U a) { return a + 1; }
U lhs_id_post(U a) { sm::Id x(a); return (x++).value(); }
U rhs_id_post(U a) { return a; }
U lhs_id_post_after(U a) { sm::Id x(a); x++; return x.value(); }
U rhs_id_post_after(U a) { return a + 1; }
bool lhs_id_binary(U a, U b) { sm::Id x(a), y(b); return x.isBinaryEqual(y); }
bool rhs_id_binary(U a, U b) { return a == b; }
bool lhs_id_set(U a) { return sm::Id(a).isSet(); }
bool rhs_id_set(U a) { return a != U(-1); }
bool lhs_id_unset() { return sm::Id().isSet(); }
bool rhs_id_unset() { return false; }
bool lhs_named_unset() { return NamedId().isSet(); }
bool rhs_named_unset() { return false; }
bool lhs_id_clear(U a) { sm::Id x(a); x.clear(); return x.isSet(); }
bool rhs_id_clear(U a) { return false; }
size_t lhs_named_hash_std(U a) { return std::hash<NamedId>()(NamedId(a)); }
size_t rhs_named_hash_std(U a) { return std::hash<U>()(a); }
size_t lhs_named_hash_boost(U a) { return boost::hash<NamedId>()(NamedId(a)); }
size_t rhs_named_hash_boost(U a) { return boost::hash<U>()(a); }

bool lhs_hash_eq(const U a[2], const U b[2]) { return HashId(a) == HashId(b); }
bool rhs_hash_eq(const U a[2], const U b[2]) { return a[0] == b[0] && a[1] == b[1]; }
bool lhs_hash_ne(const U a[2], const U b[2]) { return HashId(a) != HashId(b); }
bool rhs_hash_ne(const U a[2], const U b[2]) { return a[0] != b[0] || a[1] != b[1]; }
bool lhs_hash_lt(const U a[2], const U b[2]) { return HashId(a) < HashId(b); }
bool rhs_hash_lt(const U a[2], const U b[2]) { return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); }
bool lhs_hash_gt(const U a[2], const U b[2]) { return HashId(a) > HashId(b); }
bool rhs_hash_gt(const U a[2], const U b[2]) { return a[0] > b[0] || (a[0] == b[0] && a[1] > b[1]); }
U lhs_hash_value0(const U a[2]) { U o[2]; HashId(a).toUint64(o); return o[0]; }
U rhs_hash_value0(const U a[2]) { return a[0]; }
U lhs_hash_value1(const U a[2]) { U o[2]; HashId(a).toUint64(o); return o[1]; }
U rhs_hash_value1(const U a[2]) { return a[1]; }
U lhs_hash_copy0(const U a[2]) { U o[2]; HashId x(a); HashId y(x); y.toUint64(o); return o[0]; }
U rhs_hash_copy0(const U a[2]) { return a[0]; }
U lhs_hash_copy1(const U a[2]) { U o[2]; HashId x(a); HashId y(x); y.toUint64(o); return o[1]; }
U rhs_hash_copy1(const U a[2]) { return a[1]; }
U lhs_hash_assign0(const U a[2], const U b[2]) { U o[2]; HashId x(a), y(b); y = x; y.toUint64(o); return o[0]; }
U rhs_hash_assign0(const U a[2], const U b[2]) { return a[0]; }
U lhs_hash_assign1(const U a[2], const U b[2]) { U o[2]; HashId x(a), y(b); y = x; y.toUint64(o); return o[1]; }
U rhs_hash_assign1(const U a[2], const U b[2]) { return a[1]; }
bool lhs_hash_valid(const U a[2]) { return HashId(a).isValid(); }
bool rhs_hash_valid(const U a[2]) { return a[0] != 0 || a[1] != 0; }
bool lhs_hash_invalid() { return HashId().isValid(); }
bool rhs_hash_invalid() { return false; }
bool lhs_hash_setInvalid(const U a[2]) { HashId x(a); x.setInvalid(); return x.isValid(); }
bool rhs_hash_setInvalid(const U a[2]) { return false; }
bool lhs_hash_invalid_eq(const U a[2]) { HashId x(a); x.setInvalid(); return x == HashId(); }
bool rhs_hash_invalid_eq(const U a[2]) { return true; }

// what a hash may depend on: nothing but the value
size_t val_hash_std(const U a[2]) { return std::hash<HashId>()(HashId(a)); }
size_t val_hash_named(const U a[2]) { return std::hash<NamedHash>()(NamedHash(a)); }
size_t val_hash_fast(const U a[2]) { return HashId(a).hashToSizeTFast(); }
size_t val_id_std(U a) { return std::hash<NamedId>()(NamedId(a)); }
size_t val_id_boost(U a) { return boost::hash<NamedId>()(NamedId(a)); }

// ---- random identifiers: each half is a draw of its own
std::pair<uint64_t, uint64_t> drawn_random() { sm::HashId h = sm::HashId::random(); uint64_t d[2]; h.toUint64(d); return std::make_pair(d[0], d[1]); }
std::pair<uint64_t, uint64_t> drawn_randomize(const sm::HashId& old) { sm::HashId h = old; h.randomize(); uint64_t d[2]; h.toUint64(d); return std::make_pair(d[0], d[1]); }
