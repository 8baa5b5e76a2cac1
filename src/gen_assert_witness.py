UN={"POSITIVE":"> 0","NONNEGATIVE":">= 0","NEGATIVE":"< 0","NONPOSITIVE":"<= 0","ZERO":"== 0"}
BI={"LT":"<","LE":"<=","GT":">","GE":">=","EQ":"==","NE":"!="}
RG={"GE_LT":(">=","<"),"GT_LE":(">","<="),"GE_LE":(">=","<=")}
o=[]
o.append('''// Every assertion macro against the relation it is named for.  Arguments are plain variables, conditional expressions and
// bitwise expressions, so that an argument that is not treated as a unit changes the relation.
// The same file is compiled for the plain macros and, with -DDBG, for their debug namesakes.
%s#include <sm/assert_macros.hpp>
#include <cmath>
using namespace std;

SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
struct Handle {
  const void * p;
  bool operator==(std::nullptr_t) const { return p == 0; }
  bool operator!=(std::nullptr_t) const { return p != 0; }
  Handle operator|(const Handle & o) const { Handle h; h.p = p ? p : o.p; return h; }
  Handle operator|(bool b) const { Handle h; h.p = b ? p : 0; return h; }
  operator bool() const { return p != 0; }
};
int note(int);
int look(int);
#define P3(N, A, E, C) \\
  void lhs_##N A { E; } \\
  void rhs_##N A { if(!(C)) throw Fault("x"); }
#ifdef DBG
#define M(N) SM_ASSERT_##N##_DBG
#else
#define M(N) SM_ASSERT_##N
#endif
''')
def w(n,args,e,c):
    o.append("P3(%s, (%s), %s, %s)"%(n,args,e,c))
def kinds(m,n,cond):
    """cond: function from list of value texts to condition"""
    plain=["v","a","b"][:n]
    for ty in ("int","double"):
        w("%s_%s"%(m,ty),", ".join("%s %s"%(ty,x) for x in plain),"M(%s)(Fault, %s, \"m\")"%(m,", ".join(plain)),cond(plain))
    for i in range(n):
        for k,f in (("or","(%s | z)"),("cond","(c ? %s : z)"),("comma","(c, %s)")):
            if k=="comma": continue
            xs=list(plain); ys=list(plain)
            ys[i]=f%plain[i]; xs[i]=ys[i][1:-1]
            w("%s_%s%d"%(m,k,i),"bool c, int z, "+", ".join("int "+x for x in plain),"M(%s)(Fault, %s, \"m\")"%(m,", ".join(xs)),cond(ys))
    # arguments and message are evaluated as documented when the relation holds
    if n == 3:
        o.append("void lhs_%s_once(int v) { M(%s)(Fault, v, look(1), look(2), note(7)); }"%(m,m))
        o.append("void rhs_%s_once(int v) { int r = look(1); int s = look(2); if(!(%s)) throw Fault(\"x\"); }"%(m,cond(["v","r","s"])))
        return
    xs=["look(1)"]+plain[1:]
    o.append("void lhs_%s_once(%s) { M(%s)(Fault, %s, note(7)); }"%(m,", ".join("int "+x for x in plain),m,", ".join(xs)))
    o.append("void rhs_%s_once(%s) { int r = look(1); if(!(%s)) throw Fault(\"x\"); }"%(m,", ".join("int "+x for x in plain),cond(["r"]+plain[1:])))
OPP={">":"<=",">=":"<","<":">=","<=":">"}
def opposite(a,r,b):
    """an order assertion fails where the opposite order holds (so not on NaN); equality and inequality as they are"""
    return "!(%s %s %s)"%(a,OPP[r],b) if r in OPP else "%s %s %s"%(a,r,b)
for m,r in UN.items(): kinds(m,1,lambda v,r=r:opposite(v[0],r.split()[0],"0"))
for m,r in BI.items(): kinds(m,2,lambda v,r=r:opposite(v[0],r,v[1]))
for m,(r,s) in RG.items(): kinds(m,3,lambda v,r=r,s=s:opposite(v[0],r,v[1])+" && "+opposite(v[0],s,v[2]))
w("NEAR","double v, double t, double e",'M(NEAR)(Fault, v, t, e, "m")',"(v > t ? v - t : t - v) <= (e < 0 ? -e : e)")
for i,xs in enumerate([("c ? v : z","t","e"),("v","c ? t : z","e"),("v","t","c ? e : z")]):
    q=["(%s)"%x for x in xs]
    w("NEAR_cond%d"%i,"bool c, double z, double v, double t, double e",'M(NEAR)(Fault, %s, "m")'%", ".join(xs),"({0} > {1} ? {0} - {1} : {1} - {0}) <= ({2} < 0 ? -{2} : {2})".format(*q))
for m,fn in (("FINITE","isfinite(%s)"),("NOTNAN","!isnan(%s)")):
    w(m,"double v",'M(%s)(Fault, v, "m")'%m,fn%"v")
    w(m+"_cond","bool c, double v, double z",'M(%s)(Fault, c ? v : z, "m")'%m,fn%"c ? v : z")
for m,t in (("TRUE",""),("FALSE","!")):
    w(m,"bool v",'M(%s)(Fault, v, "m")'%m,t+"v")
    w(m+"_or","bool v, bool z",'M(%s)(Fault, v || z, "m")'%m,t+"(v || z)")
    w(m+"_cond","bool c, bool v, bool z",'M(%s)(Fault, c ? v : z, "m")'%m,t+"(c ? v : z)")
    o.append("void lhs_%s_once() { M(%s)(Fault, look(1), note(7)); }"%(m,m))
    o.append("void rhs_%s_once() { if(%slook(1)) throw Fault(\"x\"); }"%(m,"!" if m=="TRUE" else ""))
w("NOTNULL","const int * v",'M(NOTNULL)(Fault, v, "m")',"v != 0")
w("NOTNULL_or","const Handle & v, const Handle & z",'M(NOTNULL)(Fault, v | z, "m")',"(v | z) != nullptr")
o.append("#ifndef DBG")
w("NULL","const int * v",'M(NULL)(Fault, v, "m")',"v == 0")
w("NULL_or","const Handle & v, const Handle & z",'M(NULL)(Fault, v | z, "m")',"(v | z) == nullptr")
o.append('''void lhs_THROW(bool c) { if(c) { SM_THROW(Fault, "a" << note(1)); } }
void rhs_THROW(bool c) { if(c) throw Fault("x"); }
void lhs_THROW_SFP(bool c) { if(c) { SM_THROW_SFP(Fault, SM_SOURCE_FILE_POS, "a" << note(1)); } }
void rhs_THROW_SFP(bool c) { if(c) throw Fault("x"); }
void lhs_function(bool c) { sm::sm_assert_throw<Fault>(c, "m", SM_SOURCE_FILE_POS); }
void rhs_function(bool c) { if(!c) throw Fault("x"); }
#else
void lhs_THROW(bool c) { if(c) { SM_THROW_DBG(Fault, "a" << note(1)); } }
void rhs_THROW(bool c) { if(c) throw Fault("x"); }
#endif''')
txt="\n".join(o)+"\n"
body=txt.split("\n",3)
open('/verif/witness/assert_relations.inc','w').write(txt%"")
for name,flags in (("eq_assert.cpp",""),("eq_assert_dbg.cpp","-DDBG"),("eq_assert_dbg_forced.cpp","-DDBG -DNDEBUG -DSM_ALWAYS_ASSERT"),("eq_assert_dbg_forced_old.cpp","-DDBG -DNDEBUG -DALWAYS_ASSERT")):
    open('/verif/witness/'+name,'w').write(("// FLAGS: %s\n"%flags if flags else "")+'#include "assert_relations.inc"\n')
# ---- compiled out
P={}
for m in UN: P[m]="look(1)"
for m in BI: P[m]="look(1), look(2)"
for m in RG: P[m]="look(1), look(2), look(3)"
P["NEAR"]="look(1), look(2), look(3)"
for m in ("FINITE","NOTNAN"): P[m]="real(1)"
for m in ("TRUE","FALSE"): P[m]="look(1)"
P["NOTNULL"]="where(1)"
o=['''// FLAGS: -DNDEBUG
// Debug assertions that are compiled out: nothing happens, nothing is evaluated.
#include <sm/assert_macros.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <cmath>
using namespace std;
SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
int note(int);
int look(int);
double real(int);
int * where(int);
struct Mat { int rows() const; int cols() const; double operator()(int, int) const; };
Mat & mat(int);
ostream & operator<<(ostream &, const Mat &);
''']
for m,a in P.items():
    o.append("void lhs_%s() { SM_ASSERT_%s_DBG(Fault, %s, note(7)); }\nvoid rhs_%s() { }"%(m,m,a,m))
o.append("void lhs_MAT() { SM_ASSERT_MAT_IS_FINITE_DBG(Fault, mat(1), note(7)); }\nvoid rhs_MAT() { }")
o.append("void lhs_THROW() { SM_THROW_DBG(Fault, note(7)); }\nvoid rhs_THROW() { }")
open('/verif/witness/eq_assert_off.cpp','w').write("\n".join(o)+"\n")
mat='''// The matrix assertion: throws exactly when some coefficient is not finite.
#include <sm/eigen/assert_macros.hpp>
#include <vector>
SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
struct Mat {
  int nr, nc;
  std::vector<double> d;
  int rows() const { return nr; }
  int cols() const { return nc; }
  double operator()(int r, int c) const { return d[r * nc + c]; }
};
struct Count { int n; Count operator-() const { Count c; c.n = -n; return c; } };
// a view whose negation has the same size: an argument that is not treated as a unit has a negative one
struct View { const Mat & m; int s;
  int rows() const { return m.nr; }
  int cols() const { return m.nc; }
  double operator()(int r, int c) const { return s * m(r, c); }
  View operator-() const { return View{m, -s}; }
};
std::ostream & operator<<(std::ostream &, const Mat &);
std::ostream & operator<<(std::ostream &, const View &);
#ifdef DBG
#define M SM_ASSERT_MAT_IS_FINITE_DBG
#else
#define M SM_ASSERT_MAT_IS_FINITE
#endif
void lhs_mat(const Mat & m) { M(Fault, m, "m"); }
void rhs_mat(const Mat & m) { for(int r = 0; r < m.nr; ++r) for(int c = 0; c < m.nc; ++c) if(!std::isfinite(m(r, c))) throw Fault("x"); }
void lhs_view(const View & m) { M(Fault, -m, "m"); }
void rhs_view(const View & m) { View v = -m; for(int r = 0; r < v.rows(); ++r) for(int c = 0; c < v.cols(); ++c) if(!std::isfinite(v(r, c))) throw Fault("x"); }
'''
open('/verif/witness/assert_matrix.inc','w').write(mat)
for n,f in (("",""),("_dbg","-DDBG"),("_dbg_forced","-DDBG -DNDEBUG -DSM_ALWAYS_ASSERT"),("_dbg_forced_old","-DDBG -DNDEBUG -DALWAYS_ASSERT")):
    open('/verif/witness/eq_assert_mat%s.cpp'%n,'w').write(("// FLAGS: %s\n"%f if f else "")+'#include "assert_matrix.inc"\n')
