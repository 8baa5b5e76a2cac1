// M03: a name denotes at most one entry of a matrix archive, and only checked names enter.
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <boost/static_assert.hpp>
#include <cctype>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sm/assert_macros.hpp>
#define private public
#include <sm/MatrixArchive.hpp>
#undef private

typedef sm::MatrixArchive A;
typedef const std::string& S;
static bool both(const A& a, S k) { return a.m_values.count(k) > 0 && a.m_strings.count(k) > 0; }
static bool any(const A& a, S k) { return a.m_values.count(k) > 0 || a.m_strings.count(k) > 0; }

// no name denotes two entries after an operation unless it is another name that did so before; the name stored under
// passes the check; no other name appears
#define STORES(NAME, CALL, ...)                                                                                             \
  bool lhs_exclusive_##NAME(A& a, S n, S k, ##__VA_ARGS__) { CALL; return both(a, k); }                                     \
  bool rhs_exclusive_##NAME(A& a, S n, S k, ##__VA_ARGS__) { bool was = both(a, k); CALL; return k == n ? false : was; }    \
  bool lhs_enters_##NAME(A& a, S n, S k, ##__VA_ARGS__) { CALL; return any(a, k); }                                         \
  bool rhs_enters_##NAME(A& a, S n, S k, ##__VA_ARGS__) { bool was = any(a, k); CALL; return k == n ? true : was; }         \
  void lhs_checked_##NAME(A& a, S n, ##__VA_ARGS__) { CALL; }                                                               \
  void rhs_checked_##NAME(A& a, S n, ##__VA_ARGS__) { CALL; a.validateName(n, SM_SOURCE_FILE_POS); }

STORES(setMatrixXd, a.setMatrixXd(n, m), const Eigen::MatrixXd& m)
STORES(setMatrix, a.setMatrix(n, m), const Eigen::Matrix3d& m)
STORES(setVectorXd, a.setVectorXd(n, m), const Eigen::VectorXd& m)
STORES(setVector, a.setVector(n, m), const Eigen::Vector3d& m)
STORES(setScalar, a.setScalar(n, v), double v)
STORES(setString, a.setString(n, v), S v)
STORES(createMatrix, a.createMatrix(n, r, c, o), int r, int c, bool o)

void lhs_clear(A& a) { a.clear(); }
void rhs_clear(A& a) { a.m_values.clear(); a.m_strings.clear(); }
bool lhs_cleared(A& a, S n, S k) { a.clear(n); return any(a, k); }
bool rhs_cleared(A& a, S n, S k) { bool was = any(a, k); a.clear(n); return k == n ? false : was; }
bool lhs_cleared_both(A& a, S n, S k) { a.clear(n); return both(a, k); }
bool rhs_cleared_both(A& a, S n, S k) { bool was = both(a, k); a.clear(n); return k == n ? false : was; }

// what the check on names accepts
void lhs_name(A& a, S n) { a.validateName(n, SM_SOURCE_FILE_POS); }
void rhs_name(A& a, S n) {
  if (n.empty() || n.size() > a.maxNameSize()) throw 1;
  if (!isalpha((unsigned char)n[0])) throw 2;
  for (unsigned i = 1; i < n.size(); i++)
    if (!(isalnum((unsigned char)n[i]) || n[i] == '_')) throw 3;
}

// the entry found under a name is the one stored under it
S lhs_get_string(A& a, S n, S v) { a.setString(n, v); return a.getString(n); }
S rhs_get_string(A& a, S n, S v) { a.setString(n, v); return v; }
