// What saving a value to an archive and loading it back must equal: copying it; and what binary equality must compare.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/cstdint.hpp>
#include <boost/functional/hash.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/shared_ptr.hpp>
#include <functional>
#include <iostream>
#include <sstream>
#include <sm/boost/serialization.hpp>
#include <sm/random.hpp>
#include <sm/assert_macros.hpp>
#define private public
#define protected public
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/Id.hpp>
#undef private
#undef protected
#include <sm/eigen/serialization.hpp>
#include <sm/serialization_macros.hpp>
#include <boost/mpl/bool.hpp>
#include "tape.inc"

using namespace sm::kinematics;
SM_DEFINE_ID(WitnessId)

#define ROUND(NAME, ...)                                                                          \
  void lhs_saved_##NAME(const __VA_ARGS__& a, __VA_ARGS__& b) {                                   \
    Tape<false> out;                                                                              \
    Tape<true> in;                                                                                \
    a.save(out, __VA_ARGS__::CLASS_SERIALIZATION_VERSION);                                        \
    b.load(in, __VA_ARGS__::CLASS_SERIALIZATION_VERSION);                                         \
  }                                                                                               \
  void rhs_saved_##NAME(const __VA_ARGS__& a, __VA_ARGS__& b) { b = a; }

ROUND(Transformation, Transformation)
ROUND(UncertainTransformation, UncertainTransformation)
ROUND(HomogeneousPoint, HomogeneousPoint)
ROUND(UncertainHomogeneousPoint, UncertainHomogeneousPoint)
ROUND(UncertainVector3, UncertainVector<3>)
ROUND(UncertainVector1, UncertainVector<1>)

void lhs_saved_Id(WitnessId& a, WitnessId& b) {
  Tape<false> out;
  Tape<true> in;
  a.serialize(out, 0);
  b.serialize(in, 0);
}
void rhs_saved_Id(WitnessId& a, WitnessId& b) { b._id = a._id; }

#define EQUAL(NAME, ...) \
  bool equal_##NAME(const __VA_ARGS__& a, const __VA_ARGS__& b) { return const_cast<__VA_ARGS__&>(a).isBinaryEqual(b); }

EQUAL(Transformation, Transformation)
EQUAL(UncertainTransformation, UncertainTransformation)
EQUAL(HomogeneousPoint, HomogeneousPoint)
EQUAL(UncertainHomogeneousPoint, UncertainHomogeneousPoint)
EQUAL(UncertainVector3, UncertainVector<3>)
EQUAL(UncertainVector1, UncertainVector<1>)
EQUAL(Id, sm::Id)

// a client's class that uses the macros as documented
struct Part {
  int n;
  bool isBinaryEqual(const Part& rhs) const { return SM_CHECKMEMBERSSAME(rhs, n); }
};
struct Client {
  int key;
  double value;
  Part part;
  bool isBinaryEqual(const Client& rhs) const {
    return SM_CHECKMEMBERSSAME(rhs, key) && SM_CHECKMEMBERSSAME(rhs, value) && SM_CHECKMEMBERSSAME(rhs, part);
  }
};
struct Loud {
  int key;
  double value;
  Part part;
  bool isBinaryEqual(const Loud& rhs) const {
    return SM_CHECKMEMBERSSAME(rhs, key, true) && SM_CHECKMEMBERSSAME(rhs, value, true) && SM_CHECKMEMBERSSAME(rhs, part, true);
  }
};
EQUAL(Client, Client)
EQUAL(Loud, Loud)

// pointers: both null, or both point to equal objects
template <typename T> struct Holder { T p; bool isBinaryEqual(const Holder& rhs) const { return SM_CHECKMEMBERSSAME(rhs, p) && SM_CHECKSAME(p, rhs.p); } };
bool lhs_pointers(const Holder<int*>& a, const Holder<int*>& b) { return a.isBinaryEqual(b); }
bool rhs_pointers(const Holder<int*>& a, const Holder<int*>& b) { return (!a.p && !b.p) || (a.p && b.p && *a.p == *b.p); }
bool lhs_pointers_to_parts(const Holder<Part*>& a, const Holder<Part*>& b) { return a.isBinaryEqual(b); }
bool rhs_pointers_to_parts(const Holder<Part*>& a, const Holder<Part*>& b) { return (!a.p && !b.p) || (a.p && b.p && a.p->n == b.p->n); }
bool lhs_shared(const Holder<boost::shared_ptr<int>>& a, const Holder<boost::shared_ptr<int>>& b) { return a.isBinaryEqual(b); }
bool rhs_shared(const Holder<boost::shared_ptr<int>>& a, const Holder<boost::shared_ptr<int>>& b) { return (!a.p && !b.p) || (a.p && b.p && *a.p == *b.p); }
bool lhs_shared_parts(const Holder<boost::shared_ptr<Part>>& a, const Holder<boost::shared_ptr<Part>>& b) { return a.isBinaryEqual(b); }
bool rhs_shared_parts(const Holder<boost::shared_ptr<Part>>& a, const Holder<boost::shared_ptr<Part>>& b) { return (!a.p && !b.p) || (a.p && b.p && a.p->n == b.p->n); }
// the plain comparison, whether it reports what differs or not
bool lhs_values(int a, int b) { return SM_CHECKSAME(a, b); }
bool rhs_values(int a, int b) { return a == b; }
bool lhs_values_loud(int a, int b) { return SM_CHECKSAME(a, b, true); }
bool rhs_values_loud(int a, int b) { return a == b; }
bool lhs_values_both(int a, int b, int c) { return SM_CHECKSAME(a, b) && SM_CHECKSAME(b, c, false); }
bool rhs_values_both(int a, int b, int c) { return a == b && b == c; }
