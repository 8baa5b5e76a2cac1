// Every assertion macro against the relation it is named for.  Arguments are plain variables, conditional expressions and
// bitwise expressions, so that an argument that is not treated as a unit changes the relation.
// The same file is compiled for the plain macros and, with -DDBG, for their debug namesakes.
#include <sm/assert_macros.hpp>
#include <cmath>
using namespace std;

SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
struct Handle {
  const void * p;
  bool operator==(std::nullptr_t) const { return p == 0; }
  bool operator!=(std::nullptr_t) const { return p != 0; }
  Handle operator|(const Handle & o) const { Handle h; h.p = p ? p : o.p; return h; }
  Handle operator|(bool b) const { Handle h; h.p = b ? p : 0; return h; }
  operator bool() const { return p != 0; }
};
int note(int);
int look(int);
#define P3(N, A, E, C) \
  void lhs_##N A { E; } \
  void rhs_##N A { if(!(C)) throw Fault("x"); }
#ifdef DBG
#define M(N) SM_ASSERT_##N##_DBG
#else
#define M(N) SM_ASSERT_##N
#endif

P3(POSITIVE_int, (int v), M(POSITIVE)(Fault, v, "m"), !(v <= 0))
P3(POSITIVE_double, (double v), M(POSITIVE)(Fault, v, "m"), !(v <= 0))
P3(POSITIVE_or0, (bool c, int z, int v), M(POSITIVE)(Fault, v | z, "m"), !((v | z) <= 0))
P3(POSITIVE_cond0, (bool c, int z, int v), M(POSITIVE)(Fault, c ? v : z, "m"), !((c ? v : z) <= 0))
void lhs_POSITIVE_once(int v) { M(POSITIVE)(Fault, look(1), note(7)); }
void rhs_POSITIVE_once(int v) { int r = look(1); if(!(!(r <= 0))) throw Fault("x"); }
P3(NONNEGATIVE_int, (int v), M(NONNEGATIVE)(Fault, v, "m"), !(v < 0))
P3(NONNEGATIVE_double, (double v), M(NONNEGATIVE)(Fault, v, "m"), !(v < 0))
P3(NONNEGATIVE_or0, (bool c, int z, int v), M(NONNEGATIVE)(Fault, v | z, "m"), !((v | z) < 0))
P3(NONNEGATIVE_cond0, (bool c, int z, int v), M(NONNEGATIVE)(Fault, c ? v : z, "m"), !((c ? v : z) < 0))
void lhs_NONNEGATIVE_once(int v) { M(NONNEGATIVE)(Fault, look(1), note(7)); }
void rhs_NONNEGATIVE_once(int v) { int r = look(1); if(!(!(r < 0))) throw Fault("x"); }
P3(NEGATIVE_int, (int v), M(NEGATIVE)(Fault, v, "m"), !(v >= 0))
P3(NEGATIVE_double, (double v), M(NEGATIVE)(Fault, v, "m"), !(v >= 0))
P3(NEGATIVE_or0, (bool c, int z, int v), M(NEGATIVE)(Fault, v | z, "m"), !((v | z) >= 0))
P3(NEGATIVE_cond0, (bool c, int z, int v), M(NEGATIVE)(Fault, c ? v : z, "m"), !((c ? v : z) >= 0))
void lhs_NEGATIVE_once(int v) { M(NEGATIVE)(Fault, look(1), note(7)); }
void rhs_NEGATIVE_once(int v) { int r = look(1); if(!(!(r >= 0))) throw Fault("x"); }
P3(NONPOSITIVE_int, (int v), M(NONPOSITIVE)(Fault, v, "m"), !(v > 0))
P3(NONPOSITIVE_double, (double v), M(NONPOSITIVE)(Fault, v, "m"), !(v > 0))
P3(NONPOSITIVE_or0, (bool c, int z, int v), M(NONPOSITIVE)(Fault, v | z, "m"), !((v | z) > 0))
P3(NONPOSITIVE_cond0, (bool c, int z, int v), M(NONPOSITIVE)(Fault, c ? v : z, "m"), !((c ? v : z) > 0))
void lhs_NONPOSITIVE_once(int v) { M(NONPOSITIVE)(Fault, look(1), note(7)); }
void rhs_NONPOSITIVE_once(int v) { int r = look(1); if(!(!(r > 0))) throw Fault("x"); }
P3(ZERO_int, (int v), M(ZERO)(Fault, v, "m"), v == 0)
P3(ZERO_double, (double v), M(ZERO)(Fault, v, "m"), v == 0)
P3(ZERO_or0, (bool c, int z, int v), M(ZERO)(Fault, v | z, "m"), (v | z) == 0)
P3(ZERO_cond0, (bool c, int z, int v), M(ZERO)(Fault, c ? v : z, "m"), (c ? v : z) == 0)
void lhs_ZERO_once(int v) { M(ZERO)(Fault, look(1), note(7)); }
void rhs_ZERO_once(int v) { int r = look(1); if(!(r == 0)) throw Fault("x"); }
P3(LT_int, (int v, int a), M(LT)(Fault, v, a, "m"), !(v >= a))
P3(LT_double, (double v, double a), M(LT)(Fault, v, a, "m"), !(v >= a))
P3(LT_or0, (bool c, int z, int v, int a), M(LT)(Fault, v | z, a, "m"), !((v | z) >= a))
P3(LT_cond0, (bool c, int z, int v, int a), M(LT)(Fault, c ? v : z, a, "m"), !((c ? v : z) >= a))
P3(LT_or1, (bool c, int z, int v, int a), M(LT)(Fault, v, a | z, "m"), !(v >= (a | z)))
P3(LT_cond1, (bool c, int z, int v, int a), M(LT)(Fault, v, c ? a : z, "m"), !(v >= (c ? a : z)))
void lhs_LT_once(int v, int a) { M(LT)(Fault, look(1), a, note(7)); }
void rhs_LT_once(int v, int a) { int r = look(1); if(!(!(r >= a))) throw Fault("x"); }
P3(LE_int, (int v, int a), M(LE)(Fault, v, a, "m"), !(v > a))
P3(LE_double, (double v, double a), M(LE)(Fault, v, a, "m"), !(v > a))
P3(LE_or0, (bool c, int z, int v, int a), M(LE)(Fault, v | z, a, "m"), !((v | z) > a))
P3(LE_cond0, (bool c, int z, int v, int a), M(LE)(Fault, c ? v : z, a, "m"), !((c ? v : z) > a))
P3(LE_or1, (bool c, int z, int v, int a), M(LE)(Fault, v, a | z, "m"), !(v > (a | z)))
P3(LE_cond1, (bool c, int z, int v, int a), M(LE)(Fault, v, c ? a : z, "m"), !(v > (c ? a : z)))
void lhs_LE_once(int v, int a) { M(LE)(Fault, look(1), a, note(7)); }
void rhs_LE_once(int v, int a) { int r = look(1); if(!(!(r > a))) throw Fault("x"); }
P3(GT_int, (int v, int a), M(GT)(Fault, v, a, "m"), !(v <= a))
P3(GT_double, (double v, double a), M(GT)(Fault, v, a, "m"), !(v <= a))
P3(GT_or0, (bool c, int z, int v, int a), M(GT)(Fault, v | z, a, "m"), !((v | z) <= a))
P3(GT_cond0, (bool c, int z, int v, int a), M(GT)(Fault, c ? v : z, a, "m"), !((c ? v : z) <= a))
P3(GT_or1, (bool c, int z, int v, int a), M(GT)(Fault, v, a | z, "m"), !(v <= (a | z)))
P3(GT_cond1, (bool c, int z, int v, int a), M(GT)(Fault, v, c ? a : z, "m"), !(v <= (c ? a : z)))
void lhs_GT_once(int v, int a) { M(GT)(Fault, look(1), a, note(7)); }
void rhs_GT_once(int v, int a) { int r = look(1); if(!(!(r <= a))) throw Fault("x"); }
P3(GE_int, (int v, int a), M(GE)(Fault, v, a, "m"), !(v < a))
P3(GE_double, (double v, double a), M(GE)(Fault, v, a, "m"), !(v < a))
P3(GE_or0, (bool c, int z, int v, int a), M(GE)(Fault, v | z, a, "m"), !((v | z) < a))
P3(GE_cond0, (bool c, int z, int v, int a), M(GE)(Fault, c ? v : z, a, "m"), !((c ? v : z) < a))
P3(GE_or1, (bool c, int z, int v, int a), M(GE)(Fault, v, a | z, "m"), !(v < (a | z)))
P3(GE_cond1, (bool c, int z, int v, int a), M(GE)(Fault, v, c ? a : z, "m"), !(v < (c ? a : z)))
void lhs_GE_once(int v, int a) { M(GE)(Fault, look(1), a, note(7)); }
void rhs_GE_once(int v, int a) { int r = look(1); if(!(!(r < a))) throw Fault("x"); }
P3(EQ_int, (int v, int a), M(EQ)(Fault, v, a, "m"), v == a)
P3(EQ_double, (double v, double a), M(EQ)(Fault, v, a, "m"), v == a)
P3(EQ_or0, (bool c, int z, int v, int a), M(EQ)(Fault, v | z, a, "m"), (v | z) == a)
P3(EQ_cond0, (bool c, int z, int v, int a), M(EQ)(Fault, c ? v : z, a, "m"), (c ? v : z) == a)
P3(EQ_or1, (bool c, int z, int v, int a), M(EQ)(Fault, v, a | z, "m"), v == (a | z))
P3(EQ_cond1, (bool c, int z, int v, int a), M(EQ)(Fault, v, c ? a : z, "m"), v == (c ? a : z))
void lhs_EQ_once(int v, int a) { M(EQ)(Fault, look(1), a, note(7)); }
void rhs_EQ_once(int v, int a) { int r = look(1); if(!(r == a)) throw Fault("x"); }
P3(NE_int, (int v, int a), M(NE)(Fault, v, a, "m"), v != a)
P3(NE_double, (double v, double a), M(NE)(Fault, v, a, "m"), v != a)
P3(NE_or0, (bool c, int z, int v, int a), M(NE)(Fault, v | z, a, "m"), (v | z) != a)
P3(NE_cond0, (bool c, int z, int v, int a), M(NE)(Fault, c ? v : z, a, "m"), (c ? v : z) != a)
P3(NE_or1, (bool c, int z, int v, int a), M(NE)(Fault, v, a | z, "m"), v != (a | z))
P3(NE_cond1, (bool c, int z, int v, int a), M(NE)(Fault, v, c ? a : z, "m"), v != (c ? a : z))
void lhs_NE_once(int v, int a) { M(NE)(Fault, look(1), a, note(7)); }
void rhs_NE_once(int v, int a) { int r = look(1); if(!(r != a)) throw Fault("x"); }
P3(GE_LT_int, (int v, int a, int b), M(GE_LT)(Fault, v, a, b, "m"), !(v < a) && !(v >= b))
P3(GE_LT_double, (double v, double a, double b), M(GE_LT)(Fault, v, a, b, "m"), !(v < a) && !(v >= b))
P3(GE_LT_or0, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, v | z, a, b, "m"), !((v | z) < a) && !((v | z) >= b))
P3(GE_LT_cond0, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, c ? v : z, a, b, "m"), !((c ? v : z) < a) && !((c ? v : z) >= b))
P3(GE_LT_or1, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, v, a | z, b, "m"), !(v < (a | z)) && !(v >= b))
P3(GE_LT_cond1, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, v, c ? a : z, b, "m"), !(v < (c ? a : z)) && !(v >= b))
P3(GE_LT_or2, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, v, a, b | z, "m"), !(v < a) && !(v >= (b | z)))
P3(GE_LT_cond2, (bool c, int z, int v, int a, int b), M(GE_LT)(Fault, v, a, c ? b : z, "m"), !(v < a) && !(v >= (c ? b : z)))
void lhs_GE_LT_once(int v) { M(GE_LT)(Fault, v, look(1), look(2), note(7)); }
void rhs_GE_LT_once(int v) { int r = look(1); int s = look(2); if(!(!(v < r) && !(v >= s))) throw Fault("x"); }
P3(GT_LE_int, (int v, int a, int b), M(GT_LE)(Fault, v, a, b, "m"), !(v <= a) && !(v > b))
P3(GT_LE_double, (double v, double a, double b), M(GT_LE)(Fault, v, a, b, "m"), !(v <= a) && !(v > b))
P3(GT_LE_or0, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, v | z, a, b, "m"), !((v | z) <= a) && !((v | z) > b))
P3(GT_LE_cond0, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, c ? v : z, a, b, "m"), !((c ? v : z) <= a) && !((c ? v : z) > b))
P3(GT_LE_or1, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, v, a | z, b, "m"), !(v <= (a | z)) && !(v > b))
P3(GT_LE_cond1, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, v, c ? a : z, b, "m"), !(v <= (c ? a : z)) && !(v > b))
P3(GT_LE_or2, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, v, a, b | z, "m"), !(v <= a) && !(v > (b | z)))
P3(GT_LE_cond2, (bool c, int z, int v, int a, int b), M(GT_LE)(Fault, v, a, c ? b : z, "m"), !(v <= a) && !(v > (c ? b : z)))
void lhs_GT_LE_once(int v) { M(GT_LE)(Fault, v, look(1), look(2), note(7)); }
void rhs_GT_LE_once(int v) { int r = look(1); int s = look(2); if(!(!(v <= r) && !(v > s))) throw Fault("x"); }
P3(GE_LE_int, (int v, int a, int b), M(GE_LE)(Fault, v, a, b, "m"), !(v < a) && !(v > b))
P3(GE_LE_double, (double v, double a, double b), M(GE_LE)(Fault, v, a, b, "m"), !(v < a) && !(v > b))
P3(GE_LE_or0, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, v | z, a, b, "m"), !((v | z) < a) && !((v | z) > b))
P3(GE_LE_cond0, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, c ? v : z, a, b, "m"), !((c ? v : z) < a) && !((c ? v : z) > b))
P3(GE_LE_or1, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, v, a | z, b, "m"), !(v < (a | z)) && !(v > b))
P3(GE_LE_cond1, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, v, c ? a : z, b, "m"), !(v < (c ? a : z)) && !(v > b))
P3(GE_LE_or2, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, v, a, b | z, "m"), !(v < a) && !(v > (b | z)))
P3(GE_LE_cond2, (bool c, int z, int v, int a, int b), M(GE_LE)(Fault, v, a, c ? b : z, "m"), !(v < a) && !(v > (c ? b : z)))
void lhs_GE_LE_once(int v) { M(GE_LE)(Fault, v, look(1), look(2), note(7)); }
void rhs_GE_LE_once(int v) { int r = look(1); int s = look(2); if(!(!(v < r) && !(v > s))) throw Fault("x"); }
P3(NEAR, (double v, double t, double e), M(NEAR)(Fault, v, t, e, "m"), (v > t ? v - t : t - v) <= (e < 0 ? -e : e))
P3(NEAR_cond0, (bool c, double z, double v, double t, double e), M(NEAR)(Fault, c ? v : z, t, e, "m"), ((c ? v : z) > (t) ? (c ? v : z) - (t) : (t) - (c ? v : z)) <= ((e) < 0 ? -(e) : (e)))
P3(NEAR_cond1, (bool c, double z, double v, double t, double e), M(NEAR)(Fault, v, c ? t : z, e, "m"), ((v) > (c ? t : z) ? (v) - (c ? t : z) : (c ? t : z) - (v)) <= ((e) < 0 ? -(e) : (e)))
P3(NEAR_cond2, (bool c, double z, double v, double t, double e), M(NEAR)(Fault, v, t, c ? e : z, "m"), ((v) > (t) ? (v) - (t) : (t) - (v)) <= ((c ? e : z) < 0 ? -(c ? e : z) : (c ? e : z)))
P3(FINITE, (double v), M(FINITE)(Fault, v, "m"), isfinite(v))
P3(FINITE_cond, (bool c, double v, double z), M(FINITE)(Fault, c ? v : z, "m"), isfinite(c ? v : z))
P3(NOTNAN, (double v), M(NOTNAN)(Fault, v, "m"), !isnan(v))
P3(NOTNAN_cond, (bool c, double v, double z), M(NOTNAN)(Fault, c ? v : z, "m"), !isnan(c ? v : z))
P3(TRUE, (bool v), M(TRUE)(Fault, v, "m"), v)
P3(TRUE_or, (bool v, bool z), M(TRUE)(Fault, v || z, "m"), (v || z))
P3(TRUE_cond, (bool c, bool v, bool z), M(TRUE)(Fault, c ? v : z, "m"), (c ? v : z))
void lhs_TRUE_once() { M(TRUE)(Fault, look(1), note(7)); }
void rhs_TRUE_once() { if(!look(1)) throw Fault("x"); }
P3(FALSE, (bool v), M(FALSE)(Fault, v, "m"), !v)
P3(FALSE_or, (bool v, bool z), M(FALSE)(Fault, v || z, "m"), !(v || z))
P3(FALSE_cond, (bool c, bool v, bool z), M(FALSE)(Fault, c ? v : z, "m"), !(c ? v : z))
void lhs_FALSE_once() { M(FALSE)(Fault, look(1), note(7)); }
void rhs_FALSE_once() { if(look(1)) throw Fault("x"); }
P3(NOTNULL, (const int * v), M(NOTNULL)(Fault, v, "m"), v != 0)
P3(NOTNULL_or, (const Handle & v, const Handle & z), M(NOTNULL)(Fault, v | z, "m"), (v | z) != nullptr)
#ifndef DBG
P3(NULL, (const int * v), M(NULL)(Fault, v, "m"), v == 0)
P3(NULL_or, (const Handle & v, const Handle & z), M(NULL)(Fault, v | z, "m"), (v | z) == nullptr)
void lhs_THROW(bool c) { if(c) { SM_THROW(Fault, "a" << note(1)); } }
void rhs_THROW(bool c) { if(c) throw Fault("x"); }
void lhs_THROW_SFP(bool c) { if(c) { SM_THROW_SFP(Fault, SM_SOURCE_FILE_POS, "a" << note(1)); } }
void rhs_THROW_SFP(bool c) { if(c) throw Fault("x"); }
void lhs_function(bool c) { sm::sm_assert_throw<Fault>(c, "m", SM_SOURCE_FILE_POS); }
void rhs_function(bool c) { if(!c) throw Fault("x"); }
#else
void lhs_THROW(bool c) { if(c) { SM_THROW_DBG(Fault, "a" << note(1)); } }
void rhs_THROW(bool c) { if(c) throw Fault("x"); }
#endif
