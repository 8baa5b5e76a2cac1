// C05: every trait has exactly the value its name states, for types with and without const, reference and pointer
#include <list>
#include <map>
#include <memory>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sm/aligned_allocation.h>
#include <sm/typetraits.hpp>

namespace w {
template <typename T, typename U> struct same { static const bool value = false; };
template <typename T> struct same<T, T> { static const bool value = true; };
struct S { S() {} S(std::unique_ptr<int>, int &, const int &) {} double d[4]; };
enum E { A };
typedef void F(int);
}

#define IS(trait, from, to) static_assert(w::same<sm::common::trait<from>::result_t, to>::value, #trait "<" #from "> is not " #to);
#define HAS(trait, from, to) static_assert(bool(sm::common::trait<from>::value) == to, #trait "<" #from "> is not " #to);
#define ALL(T) \
  IS(StripReference, T, T) IS(StripReference, T &, T) IS(StripReference, const T, const T) IS(StripReference, const T &, const T) \
  IS(StripConstReference, T, T) IS(StripConstReference, T &, T) IS(StripConstReference, const T, T) IS(StripConstReference, const T &, T) \
  IS(StripConstPtr, T, T) IS(StripConstPtr, T *, T) IS(StripConstPtr, const T, T) IS(StripConstPtr, const T *, T) \
  IS(AddReference, T, T &) IS(AddReference, T &, T &) IS(AddReference, const T, const T &) IS(AddReference, const T &, const T &) \
  IS(AddConstReference, T, const T &) IS(AddConstReference, T &, const T &) IS(AddConstReference, const T, const T &) IS(AddConstReference, const T &, const T &) \
  IS(AddPtr, T, T *) IS(AddPtr, T *, T *) IS(AddPtr, const T, const T *) IS(AddPtr, const T *, const T *) \
  IS(AddConstPtr, T, const T *) IS(AddConstPtr, T *, const T *) IS(AddConstPtr, const T, const T *) IS(AddConstPtr, const T *, const T *) \
  HAS(IsReferenceType, T, false) HAS(IsReferenceType, const T, false) HAS(IsReferenceType, T &, true) HAS(IsReferenceType, const T &, true) \
  HAS(IsReferenceType, T *, false) HAS(IsReferenceType, const T *, false) HAS(IsReferenceType, T *&, true) \
  HAS(IsPointerType, T, false) HAS(IsPointerType, const T, false) HAS(IsPointerType, T *, true) HAS(IsPointerType, const T *, true) \
  HAS(IsPointerType, T **, true) HAS(IsPointerType, T &, false) HAS(IsPointerType, const T &, false)
ALL(int)
ALL(bool)
ALL(double)
ALL(w::S)
ALL(w::E)

#define SAME(a, b, to) static_assert(bool(sm::common::SameType<a, b>::value) == to, "SameType<" #a "," #b "> is not " #to);
SAME(int, int, true) SAME(w::S, w::S, true) SAME(const int, const int, true) SAME(int &, int &, true) SAME(int *, int *, true) SAME(w::F, w::F, true)
SAME(int, const int, false) SAME(const int, int, false) SAME(int, int &, false) SAME(int, unsigned, false) SAME(int, long, false) SAME(int *, const int *, false)
SAME(w::S, w::E, false) SAME(float, double, false) SAME(char, signed char, false) SAME(int &, const int &, false) SAME(int, int *, false)

#define TYPE(what, to) static_assert(w::same<what, to>::value, #what " is not " #to);
#define COMMA ,
typedef Eigen::aligned_allocator<w::S> AS;
typedef Eigen::aligned_allocator<Eigen::Vector4d> AV;
typedef Aligned<std::vector, w::S>::type vs_t;
typedef Aligned<std::vector, Eigen::Vector4d>::type vv_t;
typedef Aligned<std::list, Eigen::Vector4d>::type lv_t;
TYPE(vs_t, std::vector<w::S COMMA AS>)
TYPE(vv_t, std::vector<Eigen::Vector4d COMMA AV>)
TYPE(lv_t, std::list<Eigen::Vector4d COMMA AV>)
typedef AlignedMap<int, Eigen::Vector4d>::type m_t;
TYPE(m_t::key_type, int)
TYPE(m_t::mapped_type, Eigen::Vector4d)
TYPE(m_t::key_compare, std::less<int>)
TYPE(m_t::allocator_type, Eigen::aligned_allocator<std::pair<const int COMMA Eigen::Vector4d> >)
typedef AlignedUnorderedMap<long, Eigen::Vector4d>::type u_t;
TYPE(u_t::key_type, long)
TYPE(u_t::mapped_type, Eigen::Vector4d)
TYPE(u_t::hasher, std::hash<long>)
TYPE(u_t::key_equal, std::equal_to<long>)
TYPE(u_t::allocator_type, Eigen::aligned_allocator<std::pair<const long COMMA Eigen::Vector4d> >)
TYPE(decltype(aligned_shared<w::S>()), std::shared_ptr<w::S>)
TYPE(decltype(aligned_shared<const w::S>()), std::shared_ptr<const w::S>)

// arguments arrive as they were given
std::shared_ptr<w::S> forwarded(std::unique_ptr<int> p, int &i, const int &j) { return aligned_shared<w::S>(std::move(p), i, j); }
