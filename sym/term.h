// Hash-consed term DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t T; // term id; 0 = "no term"

enum Sort : uint8_t { S_BV, S_REAL, S_F32, S_F64 };

enum Op : uint8_t {
  O_NONE,
  O_CONST, O_VAR,
  // bit-vectors (booleans are bit-vectors of width 1)
  O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // exact reals
  O_RCONST, O_RADD, O_RMUL, O_RDIV, O_RLT, O_RLE, O_REQ,
  O_RUF,      // k = function (see RFn), a = argument
  O_RFROMS, O_RFROMU, // bv -> real
  O_RFLOOR,   // real -> real
  O_RTOBV,    // real -> bv (two's complement of the truncated value)
  O_RBITS,    // real -> opaque bits
  O_BITSR,    // opaque bits -> real
  // IEEE floats
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FNEG, O_FABS, O_FRND, // FRND k = mode
  O_FLT, O_FLE, O_FEQ, O_FUNO,
  O_FCVT, O_SI2F, O_UI2F, O_F2SI, O_F2UI, O_FBITS, O_BITSF,
  O_FUF,      // k = function on a float, a = argument
};

enum RFn : uint64_t { F_SQRT, F_EXP, F_LOG, F_SIN, F_COS, F_TAN, F_POW10, F_ATAN, F_LOG10, F_POW2, F_F32, F_OTHER };
enum Rnd : uint64_t { RND_FLOOR, RND_CEIL, RND_TRUNC, RND_NEAREST_AWAY, RND_NEAREST_EVEN };

struct Node {
  Op op; Sort sort; uint8_t w; uint8_t flag;
  T a, b, c;
  uint64_t k;
};

struct VarInfo { std::string name; Sort sort; uint8_t w; bool havoc; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); return (int64_t)(((v & maskw(w)) ^ m) - m); }

struct TermDB {
  std::vector<Node> n;
  std::vector<VarInfo> vars;
  std::vector<T> varTerm;
  std::vector<mpq_class> rats;
  TermDB();
  const Node &operator[](T t) const { return n[t]; }
  T mk(Op op, Sort s, unsigned w, T a = 0, T b = 0, T c = 0, uint64_t k = 0);
  T newVar(const std::string &name, Sort s, unsigned w, bool havoc = false);
  T bv(uint64_t v, unsigned w) { return mk(O_CONST, S_BV, w, 0, 0, 0, v & maskw(w)); }
  T fconst(uint64_t bits, Sort s) { return mk(O_CONST, s, s == S_F32 ? 32 : 64, 0, 0, 0, s == S_F32 ? (bits & 0xffffffffu) : bits); }
  T rconst(const mpq_class &q);
  bool isC(T t) const { return n[t].op == O_CONST; }
  bool isRC(T t) const { return n[t].op == O_RCONST; }
  uint64_t cv(T t) const { return n[t].k; }
  const mpq_class &rq(T t) const { return rats[n[t].k]; }
private:
  std::vector<T> table; size_t mask_;
  std::unordered_map<std::string, uint64_t> ratIdx;
  void grow();
};
extern TermDB TD;

// smart constructors (bit-vectors)
T tAdd(T a, T b); T tSub(T a, T b); T tMul(T a, T b); T tNeg(T a);
T tUDiv(T a, T b); T tSDiv(T a, T b); T tURem(T a, T b); T tSRem(T a, T b);
T tShl(T a, T b); T tLshr(T a, T b); T tAshr(T a, T b);
T tAnd(T a, T b); T tOr(T a, T b); T tXor(T a, T b); T tNot(T a); // bitwise not
T tConcat(T hi, T lo); T tExtract(T a, unsigned lo, unsigned w);
T tZext(T a, unsigned w); T tSext(T a, unsigned w);
T tIte(T c, T a, T b);
T tEq(T a, T b); T tUlt(T a, T b); T tUle(T a, T b); T tSlt(T a, T b); T tSle(T a, T b);
inline T tTrue() { return TD.bv(1, 1); }
inline T tFalse() { return TD.bv(0, 1); }
inline bool isTrue(T t) { return t == tTrue(); }
inline bool isFalse(T t) { return t == tFalse(); }
// reals
T rAdd(T a, T b); T rSub(T a, T b); T rMul(T a, T b); T rDiv(T a, T b); T rNeg(T a);
T rLt(T a, T b); T rLe(T a, T b); T rEq(T a, T b);
T rF32(T a); extern bool f32Used;
T rUF(RFn f, T a); T rFloor(T a); T rTrunc(T a); T rRoundAway(T a); T rAbs(T a);
double nearD(const mpq_class &q); // nearest double
T rFromDouble(double d); T rFromBV(T t, bool sg);
// normalise a comparison of reals to a comparison of a polynomial with zero
bool rConstVal(T t, mpq_class &q); // is the normal form constant?
// floats
T fOp(Op op, T a, T b); T fUn(Op op, T a, uint64_t k = 0); T fCmp(Op op, T a, T b);
T fCvt(T a, Sort to);
T toBits(T a);            // any sort -> bv
T fromBits(T a, Sort s);  // bv -> s

// does the normal form of (a-b) vanish identically?  (bit-vector ring or field of rational functions)
int nfEqual(T a, T b); // 1 equal, 0 provably different constant, -1 unknown

struct Model { // assignment of variables
  std::vector<uint64_t> bv; // per var (bits for bv / float)
  std::vector<double> re;   // per var (reals)
  std::vector<mpq_class> rq; // exact value when known (reals)
};
typedef std::shared_ptr<Model> ModelP;
struct EVal { uint64_t b; double r; };
EVal evalTerm(T t, const Model &m);   // approximate for reals
void evalReset();                     // start a new evaluation epoch (model changed)
const std::vector<uint32_t> &termVars(T t); // sorted variable indices
std::string termStr(T t, int depth = 6);
double evalRealFn(uint64_t f, double x);
