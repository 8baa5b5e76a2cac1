// FLAGS: -DNDEBUG
// Debug assertions that are compiled out: nothing happens, nothing is evaluated.
#include <sm/assert_macros.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <cmath>
using namespace std;
SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
int note(int);
int look(int);
double real(int);
int * where(int);
struct Mat { int rows() const; int cols() const; double operator()(int, int) const; };
Mat & mat(int);
ostream & operator<<(ostream &, const Mat &);

void lhs_POSITIVE() { SM_ASSERT_POSITIVE_DBG(Fault, look(1), note(7)); }
void rhs_POSITIVE() { }
void lhs_NONNEGATIVE() { SM_ASSERT_NONNEGATIVE_DBG(Fault, look(1), note(7)); }
void rhs_NONNEGATIVE() { }
void lhs_NEGATIVE() { SM_ASSERT_NEGATIVE_DBG(Fault, look(1), note(7)); }
void rhs_NEGATIVE() { }
void lhs_NONPOSITIVE() { SM_ASSERT_NONPOSITIVE_DBG(Fault, look(1), note(7)); }
void rhs_NONPOSITIVE() { }
void lhs_ZERO() { SM_ASSERT_ZERO_DBG(Fault, look(1), note(7)); }
void rhs_ZERO() { }
void lhs_LT() { SM_ASSERT_LT_DBG(Fault, look(1), look(2), note(7)); }
void rhs_LT() { }
void lhs_LE() { SM_ASSERT_LE_DBG(Fault, look(1), look(2), note(7)); }
void rhs_LE() { }
void lhs_GT() { SM_ASSERT_GT_DBG(Fault, look(1), look(2), note(7)); }
void rhs_GT() { }
void lhs_GE() { SM_ASSERT_GE_DBG(Fault, look(1), look(2), note(7)); }
void rhs_GE() { }
void lhs_EQ() { SM_ASSERT_EQ_DBG(Fault, look(1), look(2), note(7)); }
void rhs_EQ() { }
void lhs_NE() { SM_ASSERT_NE_DBG(Fault, look(1), look(2), note(7)); }
void rhs_NE() { }
void lhs_GE_LT() { SM_ASSERT_GE_LT_DBG(Fault, look(1), look(2), look(3), note(7)); }
void rhs_GE_LT() { }
void lhs_GT_LE() { SM_ASSERT_GT_LE_DBG(Fault, look(1), look(2), look(3), note(7)); }
void rhs_GT_LE() { }
void lhs_GE_LE() { SM_ASSERT_GE_LE_DBG(Fault, look(1), look(2), look(3), note(7)); }
void rhs_GE_LE() { }
void lhs_NEAR() { SM_ASSERT_NEAR_DBG(Fault, look(1), look(2), look(3), note(7)); }
void rhs_NEAR() { }
void lhs_FINITE() { SM_ASSERT_FINITE_DBG(Fault, real(1), note(7)); }
void rhs_FINITE() { }
void lhs_NOTNAN() { SM_ASSERT_NOTNAN_DBG(Fault, real(1), note(7)); }
void rhs_NOTNAN() { }
void lhs_TRUE() { SM_ASSERT_TRUE_DBG(Fault, look(1), note(7)); }
void rhs_TRUE() { }
void lhs_FALSE() { SM_ASSERT_FALSE_DBG(Fault, look(1), note(7)); }
void rhs_FALSE() { }
void lhs_NOTNULL() { SM_ASSERT_NOTNULL_DBG(Fault, where(1), note(7)); }
void rhs_NOTNULL() { }
void lhs_MAT() { SM_ASSERT_MAT_IS_FINITE_DBG(Fault, mat(1), note(7)); }
void rhs_MAT() { }
void lhs_THROW() { SM_THROW_DBG(Fault, note(7)); }
void rhs_THROW() { }
