// Objects saved to and loaded from files, and the version of a class.
#include <fstream>
#include <stdexcept>
#include <string>
#include <sm/boost/serialization.hpp>

struct Thing { template <class A> void serialize(A&, const unsigned int) {} };
typedef ::boost::filesystem::path Path;
namespace lib = sm::boost_serialization;

// what is written: a file, an archive of one kind in it, the object; nothing is left unwritten
template <typename Archive> void written(Thing& o, const Path& p) {
  std::ofstream f(p.string().c_str());
  if (!f.good()) throw std::runtime_error("");
  {
    Archive a(f);
    a << o;
  }
  f.flush();
  if (!f.good()) throw std::runtime_error("");
}
template <typename Archive> void readback(Thing& o, const Path& p) {
  std::ifstream f(p.string().c_str());
  if (!f.good()) throw std::runtime_error("");
  Archive a(f);
  a >> o;
}
void lhs_save(Thing& o, const Path& p) { lib::save(o, p); }
void rhs_save(Thing& o, const Path& p) { written< ::boost::archive::binary_oarchive>(o, p); }
void lhs_load(Thing& o, const Path& p) { lib::load(o, p); }
void rhs_load(Thing& o, const Path& p) { readback< ::boost::archive::binary_iarchive>(o, p); }
void lhs_save_txt(Thing& o, const Path& p) { lib::save_txt(o, p); }
void rhs_save_txt(Thing& o, const Path& p) { written< ::boost::archive::text_oarchive>(o, p); }
void lhs_load_txt(Thing& o, const Path& p) { lib::load_txt(o, p); }
void rhs_load_txt(Thing& o, const Path& p) { readback< ::boost::archive::text_iarchive>(o, p); }

void lhs_save_xml(Thing& o, const std::string& tag, const Path& p) { lib::save_xml(o, tag, p); }
void rhs_save_xml(Thing& o, const std::string& tag, const Path& p) {
  std::string t = tag.empty() ? std::string("object") : tag;
  std::ofstream f(p.string().c_str());
  if (!f.good()) throw std::runtime_error("");
  {
    ::boost::archive::xml_oarchive a(f);
    a << ::boost::serialization::make_nvp(t.c_str(), o);
  }
  f.flush();
  if (!f.good()) throw std::runtime_error("");
}
void lhs_load_xml(Thing& o, const std::string& tag, const Path& p) { lib::load_xml(o, tag, p); }
void rhs_load_xml(Thing& o, const std::string& tag, const Path& p) {
  std::string t = tag.empty() ? std::string("object") : tag;
  std::ifstream f(p.string().c_str());
  if (!f.good()) throw std::runtime_error("");
  ::boost::archive::xml_iarchive a(f);
  a >> ::boost::serialization::make_nvp(t.c_str(), o);
}
void lhs_save_xml_untagged(Thing& o, const Path& p) { lib::save_xml(o, p); }
void rhs_save_xml_untagged(Thing& o, const Path& p) { rhs_save_xml(o, "object", p); }
void lhs_load_xml_untagged(Thing& o, const Path& p) { lib::load_xml(o, p); }
void rhs_load_xml_untagged(Thing& o, const Path& p) { rhs_load_xml(o, "object", p); }

// the version that the archive records for a class is the one the class states
struct V0 { enum { CLASS_SERIALIZATION_VERSION = 3 }; };
template <typename A> struct V1 { enum { CLASS_SERIALIZATION_VERSION = 4 + sizeof(A) }; };
template <typename A, typename B> struct V2 { enum { CLASS_SERIALIZATION_VERSION = 5 + 10 * sizeof(A) + sizeof(B) }; };
template <typename A, typename B, typename C> struct V3 { enum { CLASS_SERIALIZATION_VERSION = 6 + 10 * sizeof(A) + 3 * sizeof(B) + sizeof(C) }; };
template <typename A, typename B, typename C, typename D> struct V4 { enum { CLASS_SERIALIZATION_VERSION = 7 + 9 * sizeof(A) + 7 * sizeof(B) + 4 * sizeof(C) + sizeof(D) }; };
template <int I> struct VI { enum { CLASS_SERIALIZATION_VERSION = 8 + I }; };
template <int I, typename B> struct VIT { enum { CLASS_SERIALIZATION_VERSION = 9 + I + 5 * sizeof(B) }; };
SM_BOOST_CLASS_VERSION(V0)
SM_BOOST_CLASS_VERSION_T1(V1)
SM_BOOST_CLASS_VERSION_T1T2(V2)
SM_BOOST_CLASS_VERSION_T1T2T3(V3)
SM_BOOST_CLASS_VERSION_T1T2T3T4(V4)
SM_BOOST_CLASS_VERSION_I1(VI)
SM_BOOST_CLASS_VERSION_I1T2(VIT)
template <typename X> int recorded() { return ::boost::serialization::version<X>::value; }
int lhs_version0() { return recorded<V0>(); }
int rhs_version0() { return 3; }
int lhs_version1() { return recorded<V1<int> >(); }
int rhs_version1() { return 4 + 4; }
int lhs_version2() { return recorded<V2<int, char> >(); }
int rhs_version2() { return 5 + 40 + 1; }
int lhs_version3() { return recorded<V3<int, char, long> >(); }
int rhs_version3() { return 6 + 40 + 3 + 8; }
int lhs_version4() { return recorded<V4<int, char, long, short> >(); }
int rhs_version4() { return 7 + 36 + 7 + 32 + 2; }
int lhs_versionI() { return recorded<VI<20> >(); }
int rhs_versionI() { return 28; }
int lhs_versionIT() { return recorded<VIT<20, char> >(); }
int rhs_versionIT() { return 29 + 5; }
