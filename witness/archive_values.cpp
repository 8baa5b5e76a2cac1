// M04: what the archive hands out is what was stored, and asking for what it does not hold is refused.
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <map>
#include <set>
#include <string>
#include <sm/assert_macros.hpp>
#define private public
#include <sm/MatrixArchive.hpp>
#undef private

typedef sm::MatrixArchive A;
typedef const std::string& S;
typedef Eigen::MatrixXd M;

// asking by name
const M& lhs_getMatrix(const A& a, S n) { return a.getMatrix(n); }
const M& rhs_getMatrix(const A& a, S n) { auto i = a.m_values.find(n); if (i == a.m_values.end()) throw 1; return i->second; }
M& lhs_getMatrix_own(A& a, S n) { return a.getMatrix(n); }
M& rhs_getMatrix_own(A& a, S n) { auto i = a.m_values.find(n); if (i == a.m_values.end()) throw 1; return i->second; }
void lhs_getMatrix_into(const A& a, S n, M& o) { a.getMatrix(n, o); }
void rhs_getMatrix_into(const A& a, S n, M& o) { auto i = a.m_values.find(n); if (i == a.m_values.end()) throw 1; o = i->second; }
double lhs_getScalar(const A& a, S n) { return a.getScalar(n); }
double rhs_getScalar(const A& a, S n) {
  auto i = a.m_values.find(n);
  if (i == a.m_values.end() || i->second.rows() != 1 || i->second.cols() != 1) throw 1;
  return i->second(0, 0);
}
void lhs_getScalar_into(const A& a, S n, double& o) { a.getScalar(n, o); }
void rhs_getScalar_into(const A& a, S n, double& o) {
  auto i = a.m_values.find(n);
  if (i == a.m_values.end() || i->second.rows() != 1 || i->second.cols() != 1) throw 1;
  o = i->second(0, 0);
}
void lhs_getVector(const A& a, S n, Eigen::VectorXd& o) { a.getVector(n, o); }
void rhs_getVector(const A& a, S n, Eigen::VectorXd& o) {
  auto i = a.m_values.find(n);
  if (i == a.m_values.end() || i->second.cols() != 1) throw 1;
  o = i->second.col(0);
}
S lhs_getString(const A& a, S n) { return a.getString(n); }
S rhs_getString(const A& a, S n) { auto i = a.m_strings.find(n); if (i == a.m_strings.end()) throw 1; return i->second; }
std::string& lhs_getString_own(A& a, S n) { return a.getString(n); }
std::string& rhs_getString_own(A& a, S n) { auto i = a.m_strings.find(n); if (i == a.m_strings.end()) throw 1; return i->second; }
void lhs_getString_into(const A& a, S n, std::string& o) { a.getString(n, o); }
void rhs_getString_into(const A& a, S n, std::string& o) { auto i = a.m_strings.find(n); if (i == a.m_strings.end()) throw 1; o = i->second; }

// storing: what the name denotes afterwards; what another name denotes stays
static const M none;
static const std::string empty;
static const M& matrix(const A& a, S k) { auto i = a.m_values.find(k); return i == a.m_values.end() ? none : i->second; }
static S text(const A& a, S k) { auto i = a.m_strings.find(k); return i == a.m_strings.end() ? empty : i->second; }

#define OTHERS(NAME, CALL, ...)                                                                                         \
  M lhs_other_matrix_##NAME(A& a, S n, S k, ##__VA_ARGS__) { if (k == n) return none; CALL; return matrix(a, k); }      \
  M rhs_other_matrix_##NAME(A& a, S n, S k, ##__VA_ARGS__) { if (k == n) return none; M m(matrix(a, k)); CALL; return m; } \
  std::string lhs_other_string_##NAME(A& a, S n, S k, ##__VA_ARGS__) { if (k == n) return empty; CALL; return text(a, k); } \
  std::string rhs_other_string_##NAME(A& a, S n, S k, ##__VA_ARGS__) { if (k == n) return empty; std::string s(text(a, k)); CALL; return s; }
#define STORES(NAME, REFUSED, CALL, TYPE)                                                                              \
  OTHERS(NAME, CALL, const TYPE& v)                                                                                     \
  M lhs_##NAME(A& a, S n, const TYPE& v) { CALL; return a.m_values.find(n)->second; }                                   \
  M rhs_##NAME(A& a, S n, const TYPE& v) { if (REFUSED) throw 1; a.validateName(n, SM_SOURCE_FILE_POS); M m; m = v; return m; }
STORES(setMatrix, false, a.setMatrix(n, v), Eigen::Matrix3d)
STORES(setMatrixXd, false, a.setMatrixXd(n, v), M)
STORES(setVector, false, a.setVector(n, v), Eigen::Vector3d)
STORES(setVectorXd, false, a.setVectorXd(n, v), Eigen::VectorXd)
STORES(setVector_of_matrix, v.cols() != 1, a.setVector(n, v), M)
OTHERS(setString, a.setString(n, v), S v)
S lhs_setString(A& a, S n, S v) { a.setString(n, v); return a.m_strings.find(n)->second; }
S rhs_setString(A& a, S n, S v) { a.validateName(n, SM_SOURCE_FILE_POS); return v; }
OTHERS(setScalar, a.setScalar(n, v), double v)
OTHERS(createMatrix, a.createMatrix(n, r, c, o), int r, int c, bool o)
OTHERS(clear, a.clear(n))
M lhs_createMatrix_alias(A& a, S n, int r, int c, bool o, const M& v) { a.createMatrix(n, r, c, o) = v; return a.m_values.find(n)->second; }
M rhs_createMatrix_alias(A& a, S n, int r, int c, bool o, const M& v) {
  if (!o && a.m_values.find(n) != a.m_values.end()) throw 1;
  a.validateName(n, SM_SOURCE_FILE_POS);
  return v;
}
double lhs_scalar_there_and_back(A& a, S n, double v) { a.setScalar(n, v); return a.getScalar(n); }
double rhs_scalar_there_and_back(A& a, S n, double v) { a.validateName(n, SM_SOURCE_FILE_POS); return v; }
struct Size { long rows, cols; };
Size lhs_createMatrix_size(A& a, S n, int r, int c, bool o) { M& m = a.createMatrix(n, r, c, o); return Size{m.rows(), m.cols()}; }
Size rhs_createMatrix_size(A& a, S n, int r, int c, bool o) {
  if (!o && a.m_values.find(n) != a.m_values.end()) throw 1;
  a.validateName(n, SM_SOURCE_FILE_POS);
  return Size{r, c};
}
// the references handed out are the entries themselves
M lhs_getMatrix_alias(A& a, S n, const M& v) { a.getMatrix(n) = v; return a.m_values.find(n)->second; }
M rhs_getMatrix_alias(A& a, S n, const M& v) { if (a.m_values.find(n) == a.m_values.end()) throw 1; return v; }
S lhs_getString_alias(A& a, S n, S v) { a.getString(n) = v; return a.m_strings.find(n)->second; }
S rhs_getString_alias(A& a, S n, S v) { if (a.m_strings.find(n) == a.m_strings.end()) throw 1; return v; }

// counting and walking
size_t lhs_size(const A& a) { return a.size(); }
size_t rhs_size(const A& a) { return a.m_values.size() + a.m_strings.size(); }
size_t lhs_sizeMatrices(const A& a) { return a.sizeMatrices(); }
size_t rhs_sizeMatrices(const A& a) { return a.m_values.size(); }
size_t lhs_sizeStrings(const A& a) { return a.sizeStrings(); }
size_t rhs_sizeStrings(const A& a) { return a.m_strings.size(); }
bool lhs_begin(const A& a) { return a.begin() == a.m_values.begin(); }
bool rhs_begin(const A& a) { return true; }
bool lhs_end(const A& a) { return a.end() == a.m_values.end(); }
bool rhs_end(const A& a) { return true; }
bool lhs_find(const A& a, S n) { return a.find(n) == a.m_values.find(n); }
bool rhs_find(const A& a, S n) { return true; }
const A::string_map_t& lhs_getStrings(const A& a) { return a.getStrings(); }
const A::string_map_t& rhs_getStrings(const A& a) { return a.m_strings; }
size_t lhs_maxNameSize(A& a) { return a.maxNameSize(); }
size_t rhs_maxNameSize(A& a) { return 32; }
