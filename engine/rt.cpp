// sxrt: runtime of the symbolic executor.  See /verif/DESIGN.md.
#include <gmpxx.h>
#include <z3++.h>
#include <unordered_map>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <deque>
#include <memory>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

#define API extern "C" __attribute__((visibility("default")))
typedef mpz_class Z;
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline Z zu(u64 v) { Z r; mpz_set_ui(r.get_mpz_t(), v); return r; }
static inline Z zs(i64 v) { Z r; mpz_set_si(r.get_mpz_t(), v); return r; }
static Z pow2(unsigned k) { Z r = 1; r <<= k; return r; }
static Z fdiv(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z cdiv(const Z &a, const Z &b) { Z r; mpz_cdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z fmod_(const Z &a, const Z &b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z zgcd(const Z &a, const Z &b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

// ------------------------------------------------------------------ terms
struct Term; struct Bx;
enum AK { VAR, DIV, MOD, SIZE, BOOLINT, GCD, PROD, BXOR };
struct Atom { AK k; Term *a = nullptr, *b = nullptr; Bx *c = nullptr; std::string name; Z lo, hi, cv; u32 id; std::vector<u64> vars; bool hasSize = false; };
typedef std::vector<std::pair<u32, u32>> Mono; // (atom,exp)
struct Term { std::vector<std::pair<u32, Z>> p; Z cv; u32 id; std::vector<u64> vars; bool isConst, special; u32 deg; };
enum BK { BCONST, LE0, EQ0, NE0, AND, OR };
struct Bx { BK k; Term *t = nullptr; Bx *x = nullptr, *y = nullptr; bool cv; u32 id; };

static std::vector<Atom *> atoms; static std::vector<Mono> monos; static std::vector<Z> monocv;
static std::map<Mono, u32> monoIdx;
static std::unordered_multimap<u64, Term *> termTab; static u32 nTerms = 0;
static std::unordered_map<u64, std::vector<Bx *>> bxTab; static u32 nBx = 0;
static std::map<std::tuple<int, u32, u32>, u32> atomIdx; static std::map<std::string, u32> varIdx; static std::map<u32, u32> boolintIdx;

static void orv(std::vector<u64> &a, const std::vector<u64> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] |= b[i]; }
static bool meets(const std::vector<u64> &a, const std::vector<u64> &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true; return false; }
static u32 monoId(const Mono &m) {
  auto it = monoIdx.find(m); if (it != monoIdx.end()) return it->second;
  u32 id = monos.size(); monos.push_back(m); Z v = 1; for (auto &x : m) { Z e; mpz_pow_ui(e.get_mpz_t(), atoms[x.first]->cv.get_mpz_t(), x.second); v *= e; } monocv.push_back(v); monoIdx[m] = id; return id;
}
static u32 monoMul(u32 a, u32 b) {
  if (!a) return b; if (!b) return a;
  Mono r; const Mono &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) { if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]); else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]); else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; } }
  return monoId(r);
}
typedef std::vector<std::pair<u32, Z>> Poly;
static Term *mkTerm(Poly &&p) {
  u64 h = 1469598103934665603ull; for (auto &x : p) { h = (h ^ x.first) * 1099511628211ull; size_t n = mpz_size(x.second.get_mpz_t()); for (size_t i = 0; i < n; ++i) h = (h ^ mpz_getlimbn(x.second.get_mpz_t(), i)) * 1099511628211ull; h ^= (sgn(x.second) < 0); }
  auto r = termTab.equal_range(h); for (auto it = r.first; it != r.second; ++it) if (it->second->p == p) return it->second;
  Term *t = new Term; t->p = std::move(p); t->id = nTerms++; t->cv = 0; t->isConst = t->p.empty() || (t->p.size() == 1 && t->p[0].first == 0); t->special = false; t->deg = 0;
  for (auto &x : t->p) { t->cv += x.second * monocv[x.first]; u32 d = 0; for (auto &m : monos[x.first]) { Atom *a = atoms[m.first]; orv(t->vars, a->vars); d += m.second; if (a->k == SIZE || a->k == BOOLINT) t->special = true; } t->deg = std::max(t->deg, d); }
  termTab.insert({h, t}); return t;
}
static Term *C(const Z &v) { Poly p; if (v != 0) p.push_back({0, v}); return mkTerm(std::move(p)); }
static Term *C(long v) { return C(Z(v)); }
static bool isC(Term *t) { return t->isConst; }
static Z cval(Term *t) { return t->p.empty() ? Z(0) : t->p[0].second; }
static Term *atomTerm(u32 a) { Poly p; p.push_back({monoId(Mono{{a, 1}}), Z(1)}); return mkTerm(std::move(p)); }
static Term *scale(Term *a, const Z &c) { if (c == 0) return C(0L); if (c == 1) return a; Poly p = a->p; for (auto &x : p) x.second *= c; return mkTerm(std::move(p)); }
static Term *addRaw(Term *a, Term *b, int sb) {
  Poly r; r.reserve(a->p.size() + b->p.size()); size_t i = 0, j = 0;
  while (i < a->p.size() || j < b->p.size()) {
    if (j == b->p.size() || (i < a->p.size() && a->p[i].first < b->p[j].first)) r.push_back(a->p[i++]);
    else if (i == a->p.size() || b->p[j].first < a->p[i].first) { r.push_back(b->p[j++]); if (sb < 0) r.back().second = -r.back().second; }
    else { Z c = sb > 0 ? Z(a->p[i].second + b->p[j].second) : Z(a->p[i].second - b->p[j].second); if (c != 0) r.push_back({a->p[i].first, c}); ++i; ++j; }
  }
  return mkTerm(std::move(r));
}
static Z coefOf(Term *t, u32 m) { auto it = std::lower_bound(t->p.begin(), t->p.end(), m, [](const std::pair<u32, Z> &x, u32 m) { return x.first < m; }); return it != t->p.end() && it->first == m ? it->second : Z(0); }
static Term *modAtomTerm(Term *a, Term *b);
// a - c*(a div c)  ->  a mod c
static Term *foldDiv(Term *t) {
  for (int guard = 0; guard < 8; ++guard) {
    bool ch = false;
    for (auto &x : t->p) {
      const Mono &m = monos[x.first]; if (m.size() != 1 || m[0].second != 1) continue; Atom *A = atoms[m[0].first]; if (A->k != DIV || !isC(A->b)) continue;
      Z c = cval(A->b); if (fmod_(x.second, c) != 0) continue; Z k = -x.second / c; Term *a = A->a; if (a->p.empty() || a->special) continue;
      auto &lead = a->p.back(); Z lc = coefOf(t, lead.first); if (lc != k * lead.second) continue;
      // substitute
      Term *u = addRaw(t, scale(a, k), -1); u = addRaw(u, scale(atomTerm(m[0].first), Z(k * c)), 1); u = addRaw(u, scale(modAtomTerm(a, A->b), k), 1);
      if (u == t) continue; t = u; ch = true; break;
    }
    if (!ch) break;
  }
  return t;
}
static bool hasDivAtom = false;
static Term *add(Term *a, Term *b) { Term *t = addRaw(a, b, 1); return hasDivAtom ? foldDiv(t) : t; }
static Term *sub(Term *a, Term *b) { Term *t = addRaw(a, b, -1); return hasDivAtom ? foldDiv(t) : t; }
static u32 getAtom(AK k, Term *a, Term *b, const Z &cv) {
  auto key = std::make_tuple((int)k, a->id, b ? b->id : ~0u); auto it = atomIdx.find(key); if (it != atomIdx.end()) return it->second;
  Atom *A = new Atom; A->k = k; A->a = a; A->b = b; A->cv = cv; A->id = atoms.size(); A->vars = a->vars; if (b) orv(A->vars, b->vars); atoms.push_back(A); atomIdx[key] = A->id; if (k == DIV) hasDivAtom = true; return A->id;
}
static Term *mul(Term *a, Term *b) {
  if (isC(a)) return scale(b, cval(a)); if (isC(b)) return scale(a, cval(b));
  if (a->p.size() * b->p.size() > 4000) return atomTerm(getAtom(PROD, a, b, Z(a->cv * b->cv)));
  std::map<u32, Z> r; for (auto &x : a->p) for (auto &y : b->p) r[monoMul(x.first, y.first)] += x.second * y.second;
  Poly p; for (auto &x : r) if (x.second != 0) p.push_back({x.first, x.second});
  return mkTerm(std::move(p));
}
static Term *neg(Term *a) { return scale(a, Z(-1)); }

// ------------------------------------------------------------------ bounds
struct Iv { Z lo, hi; };
static std::unordered_map<u32, Iv> bounds;             // normalised non-constant poly id -> path bound
static std::unordered_map<u32, Iv> ivMemo, monoMemo, atomMemo; static void bumpEpoch() { ivMemo.clear(); monoMemo.clear(); atomMemo.clear(); }
static Iv iv(Term *t);
static Iv ivMul(const Iv &a, const Iv &b) { Z x[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; Iv r{x[0], x[0]}; for (int i = 1; i < 4; ++i) { if (x[i] < r.lo) r.lo = x[i]; if (x[i] > r.hi) r.hi = x[i]; } return r; }
static Iv ivPow(const Iv &a, u32 e) { Z l, h; mpz_pow_ui(l.get_mpz_t(), a.lo.get_mpz_t(), e); mpz_pow_ui(h.get_mpz_t(), a.hi.get_mpz_t(), e); if (e % 2) return {l, h}; if (a.lo >= 0) return {l, h}; if (a.hi <= 0) return {h, l}; return {Z(0), std::max(l, h)}; }
static Z sizeOf(const Z &v) { return Z(v.get_mpz_t()->_mp_size); }
static Iv ivAtom(u32 id) {
  auto it = atomMemo.find(id); if (it != atomMemo.end()) return it->second;
  Atom *A = atoms[id]; Iv r;
  switch (A->k) {
  case VAR: r = {A->lo, A->hi}; break;
  case SIZE: { Iv x = iv(A->a); r = {sizeOf(x.lo), sizeOf(x.hi)}; break; }
  case BOOLINT: r = {Z(0), Z(1)}; break;
  case DIV: { Iv x = iv(A->a), y = iv(A->b); if (y.lo < 1) y.lo = 1; if (y.hi < 1) y.hi = 1; Z c[4] = {fdiv(x.lo, y.lo), fdiv(x.lo, y.hi), fdiv(x.hi, y.lo), fdiv(x.hi, y.hi)}; r = {c[0], c[0]}; for (auto &v : c) { if (v < r.lo) r.lo = v; if (v > r.hi) r.hi = v; } break; }
  case MOD: { Iv x = iv(A->a), y = iv(A->b); if (y.hi < 1) y.hi = 1; r = {Z(0), y.hi - 1}; if (x.lo >= 0 && x.hi < r.hi) r.hi = x.hi; break; }
  case GCD: { Iv x = iv(A->a), y = iv(A->b); Z m = std::max(x.hi, y.hi); r = {Z(0), m}; if (x.lo >= 1) { r.lo = 1; r.hi = std::min(r.hi, x.hi); } if (y.lo >= 1) { r.lo = 1; r.hi = std::min(r.hi, y.hi); } break; }
  case PROD: r = ivMul(iv(A->a), iv(A->b)); break;
  case BXOR: { Iv x = iv(A->a), y = iv(A->b); Z m = 1; for (auto *v : {&x.lo, &x.hi, &y.lo, &y.hi}) { Z t = *v < 0 ? Z(-*v - 1) : *v; while (m <= t) m *= 2; } r = {-m, m - 1}; bool xn = x.hi < 0, xp = x.lo >= 0, yn = y.hi < 0, yp = y.lo >= 0; if ((xn && yn) || (xp && yp)) r.lo = 0; if ((xn && yp) || (xp && yn)) r.hi = -1; break; }
  }
  auto bt = bounds.find(atomTerm(id)->id); if (bt != bounds.end()) { if (bt->second.lo > r.lo) r.lo = bt->second.lo; if (bt->second.hi < r.hi) r.hi = bt->second.hi; }
  atomMemo[id] = r; return r;
}
static Iv ivMono(u32 m) {
  if (!m) return {Z(1), Z(1)};
  auto it = monoMemo.find(m); if (it != monoMemo.end()) return it->second;
  Iv r{Z(1), Z(1)}; for (auto &x : monos[m]) r = ivMul(r, ivPow(ivAtom(x.first), x.second));
  if (monos[m].size() > 1 || monos[m][0].second > 1) { Poly p; p.push_back({m, Z(1)}); Term *t = mkTerm(std::move(p)); auto bt = bounds.find(t->id); if (bt != bounds.end()) { if (bt->second.lo > r.lo) r.lo = bt->second.lo; if (bt->second.hi < r.hi) r.hi = bt->second.hi; } }
  monoMemo[m] = r; return r;
}
// split t = s*g*q + c with q primitive, leading coefficient positive
static Term *normNC(Term *t, Z &g, Z &c) {
  Poly p = t->p; c = 0; if (!p.empty() && p[0].first == 0) { c = p[0].second; p.erase(p.begin()); }
  g = 0; for (auto &x : p) g = zgcd(g, x.second); if (p.empty()) { g = 1; return C(0L); }
  if (p.back().second < 0) g = -g; if (g != 1) for (auto &x : p) x.second /= g;
  return mkTerm(std::move(p));
}
static Iv iv(Term *t) {
  if (isC(t)) { Z v = cval(t); return {v, v}; }
  auto it = ivMemo.find(t->id); if (it != ivMemo.end()) return it->second;
  Z g, c; Term *q = normNC(t, g, c); Iv r{Z(0), Z(0)};
  for (auto &x : q->p) { Iv m = ivMono(x.first); if (x.second > 0) { r.lo += x.second * m.lo; r.hi += x.second * m.hi; } else { r.lo += x.second * m.hi; r.hi += x.second * m.lo; } }
  auto bt = bounds.find(q->id); if (bt != bounds.end()) { if (bt->second.lo > r.lo) r.lo = bt->second.lo; if (bt->second.hi < r.hi) r.hi = bt->second.hi; }
  Iv o; if (g > 0) { o.lo = g * r.lo + c; o.hi = g * r.hi + c; } else { o.lo = g * r.hi + c; o.hi = g * r.lo + c; }
  ivMemo[t->id] = o; return o;
}

// ------------------------------------------------------------------ booleans
static Bx *bTrue, *bFalse;
static Bx *mkB(BK k, Term *t, Bx *x, Bx *y, bool cv) {
  u64 h = (u64)k * 1000003 + (t ? t->id : 0) * 2654435761u + (x ? x->id : 0) * 40503ull + (y ? (u64)y->id << 32 : 0);
  for (Bx *b : bxTab[h]) if (b->k == k && b->t == t && b->x == x && b->y == y) return b;
  Bx *b = new Bx; b->k = k; b->t = t; b->x = x; b->y = y; b->cv = cv; b->id = nBx++; bxTab[h].push_back(b); return b;
}
static Bx *BC(bool v) { return v ? bTrue : bFalse; }
static Bx *bNot(Bx *b);
static Term *desize(Term *t);
static bool decide(Bx *b, u32 site);
static Bx *mkLE0(Term *t);
static Bx *sizeLE(Term *T, const Z &k) { // SIZE(T) <= k
  if (k >= 0) { Z p = pow2(64 * k.get_ui()); return mkLE0(add(T, C(Z(-(p - 1))))); }
  Z m = -k; Z p = pow2(64 * (m.get_ui() - 1)); return mkLE0(add(T, C(p)));
}
// single special atom?  returns atom, t = coef*atom + c
static Atom *soleSpecial(Term *t, Z &coef, Z &c) {
  c = 0; size_t i = 0; if (!t->p.empty() && t->p[0].first == 0) { c = t->p[0].second; i = 1; }
  if (t->p.size() != i + 1) return nullptr; const Mono &m = monos[t->p[i].first]; if (m.size() != 1 || m[0].second != 1) return nullptr;
  Atom *A = atoms[m[0].first]; if (A->k != SIZE && A->k != BOOLINT) return nullptr; coef = t->p[i].second; return A;
}
static Bx *mkLE0(Term *t) { // t <= 0
  if (t->special) {
    Z k, c; Atom *A = soleSpecial(t, k, c);
    if (A && A->k == SIZE) { if (k > 0) return sizeLE(A->a, fdiv(Z(-c), k)); /* k*s <= -c, k<0: s >= -c/k -> s >= cdiv(-c,k) */ Z q = cdiv(Z(-c), k); return bNot(sizeLE(A->a, Z(q - 1))); }
    if (A && A->k == BOOLINT) { bool t0 = c <= 0, t1 = k + c <= 0; if (t0 && t1) return bTrue; if (!t0 && !t1) return bFalse; return t1 ? A->c : bNot(A->c); }
    t = desize(t);
  }
  Iv r = iv(t); if (r.hi <= 0) return bTrue; if (r.lo > 0) return bFalse;
  Z g, c; Term *q = normNC(t, g, c); // g*q + c <= 0
  if (g > 0) { Z k = cdiv(c, g); return mkB(LE0, addRaw(q, C(k), 1), nullptr, nullptr, q->cv + k <= 0); }
  Z ag = -g; Z k = cdiv(c, ag); Term *n = addRaw(neg(q), C(k), 1); return mkB(LE0, n, nullptr, nullptr, n->cv <= 0);
}
static Bx *mkEQ0(Term *t) {
  if (t->special) {
    Z k, c; Atom *A = soleSpecial(t, k, c);
    if (A && A->k == SIZE) { if (fmod_(Z(-c), abs(k)) != 0) return bFalse; Z s = -c / k; Bx *u = sizeLE(A->a, s), *l = bNot(sizeLE(A->a, Z(s - 1))); if (s == 0) { Term *T = A->a; return mkEQ0(T); } if (u == bTrue) return l; if (l == bTrue) return u; if (u == bFalse || l == bFalse) return bFalse; return mkB(AND, nullptr, u, l, u->cv && l->cv); }
    if (A && A->k == BOOLINT) { if (c == 0) return bNot(A->c); if (c == -k) return A->c; return bFalse; }
    t = desize(t);
  }
  Iv r = iv(t); if (r.lo > 0 || r.hi < 0) return bFalse; if (r.lo == 0 && r.hi == 0) return bTrue;
  Z g, c; Term *q = normNC(t, g, c); if (fmod_(c, abs(g)) != 0) return bFalse;
  Z k = c / g; Term *n = addRaw(q, C(k), 1); return mkB(EQ0, n, nullptr, nullptr, n->cv == 0);
}
static Bx *bNot(Bx *b) {
  switch (b->k) {
  case BCONST: return BC(!b->cv);
  case LE0: { Term *t = sub(C(1L), b->t); return mkB(LE0, t, nullptr, nullptr, t->cv <= 0); }
  case EQ0: return mkB(NE0, b->t, nullptr, nullptr, !b->cv);
  case NE0: return mkB(EQ0, b->t, nullptr, nullptr, !b->cv);
  case AND: return mkB(OR, nullptr, bNot(b->x), bNot(b->y), !b->cv);
  case OR: return mkB(AND, nullptr, bNot(b->x), bNot(b->y), !b->cv);
  }
  return nullptr;
}
static Bx *bAnd(Bx *a, Bx *b) { if (a == bFalse || b == bFalse) return bFalse; if (a == bTrue) return b; if (b == bTrue || a == b) return a; return mkB(AND, nullptr, a, b, a->cv && b->cv); }
static Bx *bOr(Bx *a, Bx *b) { return bNot(bAnd(bNot(a), bNot(b))); }

// ------------------------------------------------------------------ path state
struct Entry { u32 h; u32 implied; };
static Entry *trace; static u64 traceCap, *traceLen; // shared memory
static u64 nTrace = 0; static std::vector<Entry> *prefix; static u64 bound = 0;
static std::vector<Bx *> pc;  // literals that constrain the path
static std::set<u32> pcIds;
static std::map<std::string, Z> model;                 // initial model of this path
static bool inChild = false; static int outfd = -1; static std::string outbuf;
static i64 optConc = 400, optTimeout = 4000, optPath = 60, optDivConc = 64;
struct Stats { u64 branches = 0, q = 0, sat = 0, unsat = 0, unk = 0, checks = 0, chkq = 0, chkunsat = 0, chksyn = 0, chkunk = 0, conc = 0, conctrunc = 0, stale = 0, mism = 0, gmpunsup = 0, diverged = 0, valfail = 0, items = 0; double qt = 0, maxq = 0; u64 fd = 0; double fdt = 0; u64 fdconf = 0, fdconfq = 0, fdbad = 0; double fdct = 0; } st;
static std::set<std::string> reached, concWhy; static u64 obsHash = 1469598103934665603ull; static std::vector<std::string> funcs; static u64 checksPassed = 0;
static void flush() { size_t o = 0; while (o < outbuf.size()) { ssize_t n = write(outfd, outbuf.data() + o, outbuf.size() - o); if (n <= 0) break; o += n; } outbuf.clear(); }
static void emit(const std::string &s) { outbuf += s; outbuf += '\n'; if (outbuf.size() > 32768) flush(); }
static std::string modelStr(const std::map<std::string, Z> &m) { std::string s; for (auto &x : m) { s += x.first; s += '='; s += x.second.get_str(); s += ' '; } return s; }
static std::map<std::string, Z> curModel() { std::map<std::string, Z> m = model; for (auto *A : atoms) if (A->k == VAR) m[A->name] = A->cv; return m; }
static std::string pathEnd = "ok", pathMsg;
struct FdU { size_t npc; std::vector<Bx *> goal; }; static std::vector<FdU> fdUnsat; static i64 optConfirm = 0; static void confirmFD();
static void statLine() {
  char b[1024]; snprintf(b, sizeof b, "STAT %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %.6f %.6f %lu %lu %.6f", st.branches, st.q, st.sat, st.unsat, st.unk, st.checks, st.chkq, st.chkunsat, st.chksyn, st.chkunk, st.conc, st.conctrunc, st.stale, st.mism, st.gmpunsup, st.diverged, st.valfail, st.qt, st.maxq, (u64)nTerms, st.fd, st.fdt); emit(b); snprintf(b, sizeof b, "FDCONF %lu %lu %lu %.6f", st.fdconf, st.fdconfq, st.fdbad, st.fdct); emit(b);
  for (auto &r : reached) emit("REACH " + r); for (auto &f : funcs) emit("FUNC " + f); for (auto &f : concWhy) emit("CONC " + f);
}
static bool ended = false;
[[noreturn]] static void finish(const char *how) {
  if (!ended) { ended = true; if (optConfirm) confirmFD(); statLine(); char b[64]; snprintf(b, sizeof b, " %016lx %lu", obsHash, checksPassed);
    emit(std::string("END ") + how + b + " | " + modelStr(curModel())); if (pathMsg.size()) emit("MSG " + pathMsg); flush(); }
  _exit(0);
}

// ------------------------------------------------------------------ evaluation under a model
struct Eval {
  const std::map<std::string, Z> *mp; std::unordered_map<u32, Z> memo, am;
  Eval(const std::map<std::string, Z> &m) : mp(&m) {}
  bool bad = false;
  Z atom(u32 id) {
    auto it = am.find(id); if (it != am.end()) return it->second;
    Atom *A = atoms[id]; Z r;
    switch (A->k) {
    case VAR: { auto i = mp->find(A->name); r = i == mp->end() ? A->cv : i->second; break; }
    case DIV: { Z b = term(A->b); if (b <= 0) { bad = true; r = 0; } else r = fdiv(term(A->a), b); break; }
    case MOD: { Z b = term(A->b); if (b <= 0) { bad = true; r = 0; } else r = fmod_(term(A->a), b); break; }
    case SIZE: r = sizeOf(term(A->a)); break;
    case BOOLINT: r = boolean(A->c) ? 1 : 0; break;
    case GCD: r = zgcd(term(A->a), term(A->b)); break;
    case PROD: r = term(A->a) * term(A->b); break;
    case BXOR: { Z x = term(A->a), y = term(A->b); mpz_xor(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); break; }
    }
    am[id] = r; return r;
  }
  Z term(Term *t) {
    if (isC(t)) return cval(t);
    auto it = memo.find(t->id); if (it != memo.end()) return it->second;
    Z r = 0; for (auto &x : t->p) { Z v = x.second; for (auto &y : monos[x.first]) { Z e = atom(y.first); mpz_pow_ui(e.get_mpz_t(), e.get_mpz_t(), y.second); v *= e; } r += v; }
    memo[t->id] = r; return r;
  }
  bool boolean(Bx *b) {
    switch (b->k) { case BCONST: return b->cv; case LE0: return term(b->t) <= 0; case EQ0: return term(b->t) == 0; case NE0: return term(b->t) != 0; case AND: return boolean(b->x) && boolean(b->y); case OR: return boolean(b->x) || boolean(b->y); }
    return false;
  }
};

// ------------------------------------------------------------------ solving
static void bxVars(Bx *b, std::vector<u64> &v) { if (b->t) orv(v, b->t->vars); if (b->x) bxVars(b->x, v); if (b->y) bxVars(b->y, v); }
struct Lower {
  z3::context &c; z3::solver &s; bool bv; unsigned W; bool abs_; bool nonlinear = false, incomplete = false;
  std::map<u32, z3::expr> am, mm, pm; std::map<std::string, z3::expr> vars;
  Lower(z3::context &c, z3::solver &s, bool bv, unsigned W, bool abs_) : c(c), s(s), bv(bv), W(W), abs_(abs_) {}
  z3::expr num(const Z &v) { std::string t = v.get_str(); if (!bv) return c.int_val(t.c_str()); Z u = fmod_(v, pow2(W)); return c.bv_val(u.get_str().c_str(), W); }
  z3::expr fresh(const char *p) { static u64 n = 0; std::string nm = std::string(p) + "!" + std::to_string(n++); return bv ? c.bv_const(nm.c_str(), W) : c.int_const(nm.c_str()); }
  void le(const z3::expr &a, const z3::expr &b) { s.add(bv ? z3::sle(a, b) : a <= b); }
  void lt(const z3::expr &a, const z3::expr &b) { s.add(bv ? z3::slt(a, b) : a < b); }
  void range(const z3::expr &e, const Iv &r) { le(num(r.lo), e); le(e, num(r.hi)); }
  z3::expr prod(const z3::expr &a, const z3::expr &b, const Iv &r) { if (a.is_numeral() || b.is_numeral()) return a * b; nonlinear = true; if (!abs_) return a * b; z3::expr f = fresh("p"); range(f, r); return f; }
  z3::expr atom(u32 id) {
    auto it = am.find(id); if (it != am.end()) return it->second;
    Atom *A = atoms[id]; z3::expr r(c);
    switch (A->k) {
    case VAR: r = bv ? c.bv_const(("v_" + A->name).c_str(), W) : c.int_const(("v_" + A->name).c_str()); vars.insert({A->name, r}); range(r, ivAtom(id)); break;
    case DIV: case MOD: {
      u32 qid = getAtom(DIV, A->a, A->b, Z(A->b->cv > 0 ? fdiv(A->a->cv, A->b->cv) : Z(0)));
      z3::expr q(c); auto qt = am.find(qid);
      z3::expr a = term(A->a), b = term(A->b);
      if (qt != am.end()) q = qt->second; else {
        q = fresh("q"); am.insert({qid, q}); Iv qi = ivAtom(qid); range(q, qi);
        if (isC(A->b)) { z3::expr t = b * q; le(t, a); lt(a, t + b); }
        else { Iv bi = iv(A->b); if (bi.lo < 1) bi.lo = 1; z3::expr t = prod(b, q, ivMul(bi, qi)); le(t, a); lt(a, t + b); pm.insert({qid, t}); }
      }
      if (A->k == DIV) return q;
      z3::expr t = isC(A->b) ? b * q : pm.at(qid); r = a - t; break; }
    case GCD: {
      Iv x = iv(A->a), y = iv(A->b); z3::expr a = term(A->a), b = term(A->b); r = fresh("g"); range(r, ivAtom(id));
      Z B = std::max(x.hi, y.hi), Bm = std::min(x.hi, y.hi); (void)Bm;
      if (!abs_ && B <= 80) { // g = largest d dividing both (values are >= 0); gcd(0,0)=0
        z3::expr e = num(Z(0));
        auto dv = [&](const z3::expr &t, const Iv &ti, long d) { z3::expr o = t == num(Z(0)); for (Z k = d; k <= ti.hi; k += d) if (k >= ti.lo) o = o || t == num(k); return o; };
        z3::expr z0 = (a == num(Z(0))) && (b == num(Z(0)));
        for (long d = 1; d <= B.get_si(); ++d) e = z3::ite(dv(a, x, d) && dv(b, y, d), num(Z(d)), e);
        e = z3::ite(z0, num(Z(0)), e); s.add(r == e);
      } else { incomplete = true; if (!bv) { z3::expr u = fresh("u"), v = fresh("v"); range(u, {Z(0), x.hi}); range(v, {Z(0), y.hi}); s.add(a == prod(r, u, x)); s.add(b == prod(r, v, y)); } }
      break; }
    case PROD: r = prod(term(A->a), term(A->b), ivMul(iv(A->a), iv(A->b))); break;
    case BXOR: { z3::expr a = term(A->a), b = term(A->b); if (bv) r = a ^ b; else { incomplete = true; r = fresh("x"); range(r, ivAtom(id)); } break; }
    default: fprintf(stderr, "lower: special atom\n"); incomplete = true; r = fresh("s"); range(r, ivAtom(id)); break;
    }
    auto k = am.find(id); if (k == am.end()) am.insert({id, r}); return r;
  }
  z3::expr mono(u32 m) {
    auto it = mm.find(m); if (it != mm.end()) return it->second;
    const Mono mo = monos[m]; z3::expr r(c);
    if (mo.size() == 1 && mo[0].second == 1) r = atom(mo[0].first);
    else {
      nonlinear = true;
      if (abs_) { r = fresh("m"); for (auto &x : mo) atom(x.first); range(r, ivMono(m)); }
      else { bool f = true; for (auto &x : mo) { z3::expr a = atom(x.first); for (u32 i = 0; i < x.second; ++i) { if (f) { r = a; f = false; } else r = r * a; } } }
    }
    mm.insert({m, r}); return r;
  }
  z3::expr term(Term *t) {
    if (isC(t)) return num(cval(t));
    z3::expr_vector v(c); for (auto &x : t->p) { if (!x.first) { v.push_back(num(x.second)); continue; } z3::expr m = mono(x.first); v.push_back(x.second == 1 ? m : num(x.second) * m); }
    if (v.size() == 1) return v[0]; if (!bv) return z3::sum(v); z3::expr r = v[0]; for (unsigned i = 1; i < v.size(); ++i) r = r + v[i]; return r;
  }
  z3::expr boolean(Bx *b) {
    switch (b->k) {
    case BCONST: return c.bool_val(b->cv);
    case LE0: { z3::expr t = term(b->t); return bv ? z3::sle(t, num(Z(0))) : t <= 0; }
    case EQ0: return term(b->t) == num(Z(0)); case NE0: return term(b->t) != num(Z(0));
    case AND: return boolean(b->x) && boolean(b->y); case OR: return boolean(b->x) || boolean(b->y);
    }
    return c.bool_val(true);
  }
};
// width needed so that no intermediate of the lowering overflows
struct Width {
  std::set<u32> sa, stt; Z M = 1; bool ok = true;
  void lim(const Z &v) { Z a = abs(v); if (a > M) M = a; }
  void limIv(const Iv &r) { lim(r.lo); lim(r.hi); }
  static Z amax(const Iv &r) { Z a = abs(r.lo), b = abs(r.hi); return a > b ? a : b; }
  void atom(u32 id) { if (!sa.insert(id).second) return; Atom *A = atoms[id]; limIv(ivAtom(id)); if (A->a) term(A->a); if (A->b) { term(A->b); if (A->k == DIV || A->k == MOD) { u32 q = getAtom(DIV, A->a, A->b, Z(A->b->cv > 0 ? fdiv(A->a->cv, A->b->cv) : Z(0))); lim(Z((amax(ivAtom(q)) + 1) * amax(iv(A->b)))); } else if (A->k != BXOR) lim(Z(amax(iv(A->a)) * amax(iv(A->b)))); } }
  void term(Term *t) { if (isC(t)) { lim(cval(t)); return; } if (!stt.insert(t->id).second) return; Z s = 0; for (auto &x : t->p) { Z p = 1; for (auto &y : monos[x.first]) { atom(y.first); Z e = amax(ivAtom(y.first)); Z pe; mpz_pow_ui(pe.get_mpz_t(), e.get_mpz_t(), y.second); p *= pe; lim(p); } s += abs(x.second) * p; lim(x.second); } lim(s); }
  void boolean(Bx *b) { if (b->t) term(b->t); if (b->x) boolean(b->x); if (b->y) boolean(b->y); }
};
static z3::context *zc = nullptr;
enum Res { SAT, UNSAT, UNK };
static Res attempt(const std::vector<Bx *> &cs, bool bv, unsigned W, bool abs_, unsigned ms, std::map<std::string, Z> &out, bool &exact, bool &nonlin, bool split = false) {
  try {
    z3::solver s = bv ? z3::tactic(*zc, "qfbv").mk_solver() : (abs_ || split) ? z3::solver(*zc, z3::solver::simple()) : z3::tactic(*zc, "qfnia").mk_solver();
    z3::params p(*zc); p.set("timeout", ms); s.set(p);
    Lower L(*zc, s, bv, W, abs_);
    for (auto *b : cs) s.add(L.boolean(b));
    if (split) for (auto &v : L.vars) { Iv r = ivAtom(varIdx[v.first]); if (r.hi - r.lo <= 64) { z3::expr_vector o(*zc); for (Z k = r.lo; k <= r.hi; k += 1) o.push_back(v.second == L.num(k)); s.add(z3::mk_or(o)); } }
    nonlin = L.nonlinear; exact = !L.incomplete && !(abs_ && L.nonlinear);
    z3::check_result r = s.check();
    if (r == z3::unsat) return UNSAT;
    if (r != z3::sat) return UNK;
    z3::model m = s.get_model(); out = curModel();
    for (auto &v : L.vars) { z3::expr e = m.eval(v.second, true); Z val; std::string t = Z3_get_numeral_string(*zc, e); val = Z(t); if (bv && val >= pow2(W - 1)) val -= pow2(W); out[v.first] = val; }
    return SAT;
  } catch (z3::exception &e) { st.valfail++; return UNK; }
}
static bool modelOk(const std::vector<Bx *> &cs, const std::map<std::string, Z> &m) {
  for (auto &x : m) { auto it = varIdx.find(x.first); if (it != varIdx.end()) { Atom *A = atoms[it->second]; if (x.second < A->lo || x.second > A->hi) return false; } }
  Eval E(m); for (auto *b : cs) if (!E.boolean(b) || E.bad) return false; return true;
}
static Res solveCore(const std::vector<Bx *> &cs, std::map<std::string, Z> &out) {
  if (!zc) { z3::set_param("model.completion", true); zc = new z3::context(); }
  bool exact, nonlin; unsigned T = optTimeout; u32 deg = 0; for (auto *b : cs) if (b->t) deg = std::max(deg, b->t->deg);
  Z dom = 1; { std::vector<u64> vs; for (auto *b : cs) bxVars(b, vs); for (auto &x : varIdx) { Atom *A = atoms[x.second]; if (meets(A->vars, vs)) { Iv r = ivAtom(x.second); dom *= r.hi - r.lo + 1; } } }
  Res r;
  // small domains: case split inside the solver
  if (dom <= 200000 && deg > 1) { r = attempt(cs, false, 0, false, T, out, exact, nonlin, true); if (r == UNSAT) return r; if (r == SAT && modelOk(cs, out)) return SAT; }
  r = attempt(cs, false, 0, true, T, out, exact, nonlin);
  if (r == UNSAT) return r;
  if (r == SAT) { if (modelOk(cs, out)) return SAT; if (exact) { st.valfail++; } }
  if (dom <= 200000 && deg <= 1) { r = attempt(cs, false, 0, false, T, out, exact, nonlin, true); if (r == UNSAT) return r; if (r == SAT && modelOk(cs, out)) return SAT; }
  // bit-vector with a width that excludes overflow
  Width wd; for (auto *b : cs) wd.boolean(b); unsigned W = mpz_sizeinbase(wd.M.get_mpz_t(), 2) + 3;
  if (W <= 160) { r = attempt(cs, true, W, false, T, out, exact, nonlin); if (r == UNSAT && exact) return r; if (r == UNSAT) return r; if (r == SAT && modelOk(cs, out)) return SAT; }
  r = attempt(cs, false, 0, false, T, out, exact, nonlin);
  if (r == UNSAT) return r; if (r == SAT && modelOk(cs, out)) return SAT;
  return UNK;
}
// Finite-domain back end: when the joint domain of the variables of a query is small, the constraint system is
// evaluated on every assignment of that domain (incrementally: the set of assignments that satisfy the path
// condition is kept and filtered).
struct FDSet { struct As { std::map<std::string, Z> m; std::unique_ptr<Eval> e; }; std::vector<As> as; size_t pcDone = 0; };
static std::map<std::vector<u64>, FDSet> fds;
static i64 optFD = 3000;
static void trimv(std::vector<u64> &v) { while (!v.empty() && !v.back()) v.pop_back(); }
static void slice(std::vector<u64> &vs, std::vector<Bx *> *cs) {
  std::vector<char> used(pc.size(), 0); static std::vector<std::vector<u64>> pv; while (pv.size() < pc.size()) { pv.emplace_back(); bxVars(pc[pv.size() - 1], pv.back()); }
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!used[i] && meets(pv[i], vs)) { used[i] = 1; orv(vs, pv[i]); ch = true; } }
  trimv(vs); if (cs) for (size_t i = 0; i < pc.size(); ++i) if (used[i]) cs->push_back(pc[i]);
}
static FDSet *getFD(std::vector<u64> vs) {
  if (!optFD) return nullptr; trimv(vs); if (vs.empty()) return nullptr; auto it = fds.find(vs);
  if (it == fds.end()) {
    Z dom = 1; std::vector<u32> ids; for (auto &x : varIdx) if (meets(atoms[x.second]->vars, vs)) { Iv r = ivAtom(x.second); dom *= r.hi - r.lo + 1; if (dom > optFD) return nullptr; ids.push_back(x.second); }
    FDSet &F = fds[vs]; std::vector<Z> cur; for (u32 i : ids) cur.push_back(ivAtom(i).lo);
    for (bool go = true; go;) { FDSet::As a; for (size_t k = 0; k < ids.size(); ++k) a.m[atoms[ids[k]]->name] = cur[k]; F.as.push_back(std::move(a)); size_t k = 0; for (; k < ids.size(); ++k) { cur[k] += 1; if (cur[k] <= ivAtom(ids[k]).hi) break; cur[k] = ivAtom(ids[k]).lo; } if (k == ids.size()) go = false; }
    for (auto &a : F.as) a.e.reset(new Eval(a.m)); it = fds.find(vs);
  }
  FDSet &F = it->second;
  for (; F.pcDone < pc.size(); ++F.pcDone) { Bx *b = pc[F.pcDone]; std::vector<u64> bv; bxVars(b, bv); if (!meets(bv, vs)) continue;
    size_t o = 0; for (size_t i = 0; i < F.as.size(); ++i) { bool ok = F.as[i].e->boolean(b) && !F.as[i].e->bad; if (ok) { if (o != i) { F.as[o].m = std::move(F.as[i].m); F.as[o].e = std::move(F.as[i].e); } ++o; } } F.as.resize(o); for (auto &a : F.as) { a.e->mp = &a.m; } }
  return &F;
}
static const char *dumpDir = nullptr;
static Res solve(const std::vector<Bx *> &goal, std::map<std::string, Z> &out, bool fdOnly = true) {
  double t0 = now();
  std::vector<u64> vs; for (auto *g : goal) bxVars(g, vs);
  std::vector<Bx *> cs; slice(vs, &cs);
  if (FDSet *F = fdOnly ? getFD(vs) : nullptr) {
    st.fd++; for (auto &a : F->as) { bool ok = true; for (auto *g : goal) if (!a.e->boolean(g) || a.e->bad) { ok = false; break; } if (ok) { out = curModel(); for (auto &x : a.m) out[x.first] = x.second; st.fdt += now() - t0; st.sat++; return SAT; } }
    st.fdt += now() - t0; st.unsat++; if (fdUnsat.size() < 1000) fdUnsat.push_back({pc.size(), goal}); return UNSAT;
  }
  for (auto *g : goal) cs.push_back(g);
  itimerval old; getitimer(ITIMER_REAL, &old);
  Res r = solveCore(cs, out);
  double dt = now() - t0; st.q++; st.qt += dt; if (dt > st.maxq) st.maxq = dt; if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else { st.unk++; } if (getenv("SX_DUMPUNK") && (r == UNK || dt > 1.0)) { { try { z3::solver s(*zc); Lower L(*zc, s, false, 0, false); for (auto *b : cs) s.add(L.boolean(b)); std::string fn = std::string(getenv("SX_DUMPUNK")) + "/unk" + std::to_string(getpid()) + "_" + std::to_string(st.q) + ".smt2"; std::ofstream o(fn); o << s.to_smt2() << "\n; " << dt << " res " << r << "\n"; } catch (...) {} } }
  return r;
}

// The verdicts of the finite-domain back end on this path, checked by z3: is some (path prefix and alternative) that
// it called infeasible satisfiable?
static void confirmFD() {
  if (fdUnsat.empty()) return; double t0 = now(); for (auto *A : atoms) if ((A->k == DIV || A->k == MOD) && !isC(A->b)) return;
  itimerval off{}; setitimer(ITIMER_REAL, &off, nullptr); bounds.clear(); bumpEpoch();
  try {
    if (!zc) { z3::set_param("model.completion", true); zc = new z3::context(); }
    Width wd; for (auto *b : pc) wd.boolean(b); for (auto &u : fdUnsat) for (auto *g : u.goal) wd.boolean(g); unsigned W = mpz_sizeinbase(wd.M.get_mpz_t(), 2) + 3; bool bv = W <= 96;
    z3::solver s = bv ? z3::tactic(*zc, "qfbv").mk_solver() : z3::solver(*zc, z3::solver::simple()); z3::params p(*zc); p.set("timeout", 3000u); s.set(p); Lower L(*zc, s, bv, W, false);
    z3::expr_vector pre(*zc); size_t done = 0; auto pf = [&](size_t k) { while (done < k) { z3::expr b = zc->bool_const(("pc!" + std::to_string(done)).c_str()); z3::expr c = L.boolean(pc[done]); s.add(z3::implies(b, done ? (pre[done - 1] && c) : c)); pre.push_back(b); ++done; } return k ? pre[k - 1] : zc->bool_val(true); };
    z3::expr_vector alts(*zc); for (auto &u : fdUnsat) { z3::expr e = pf(u.npc); for (auto *g : u.goal) e = e && L.boolean(g); alts.push_back(e); }
    s.add(z3::mk_or(alts)); if (!bv) for (auto &v : L.vars) { Iv r = ivAtom(varIdx[v.first]); z3::expr_vector o(*zc); if (r.hi - r.lo <= 4000) { for (Z k = r.lo; k <= r.hi; k += 1) o.push_back(v.second == L.num(k)); s.add(z3::mk_or(o)); } }
    z3::check_result r = L.incomplete ? z3::unknown : s.check(); st.fdconfq++; if (r == z3::unsat) st.fdconf += fdUnsat.size(); else if (r == z3::sat) { st.fdbad++; if (getenv("SX_DEBUG")) fprintf(stderr, "FDBAD\n"); } if (getenv("SX_DEBUG")) fprintf(stderr, "CONF W=%u n=%zu pc=%zu r=%d t=%.3f\n", W, fdUnsat.size(), pc.size(), (int)r, now() - t0);
  } catch (z3::exception &) {}
  st.fdct += now() - t0;
}
// ------------------------------------------------------------------ decisions
static void tighten(Bx *b) {
  Z g, c; Term *q; 
  if (b->k == AND) { tighten(b->x); tighten(b->y); return; }
  if (b->k != LE0 && b->k != EQ0 && b->k != NE0) return;
  q = normNC(b->t, g, c); Z G, Cc; if (q->p.empty()) return;
  Iv cur = iv(q); Iv n = cur;
  if (b->k == LE0) { if (g > 0) { Z u = fdiv(Z(-c), g); if (u < n.hi) n.hi = u; } else { Z l = cdiv(Z(-c), g); if (l > n.lo) n.lo = l; } }
  else if (b->k == EQ0) { Z v = -c / g; n.lo = n.hi = v; }
  else { if (fmod_(c, abs(g)) != 0) return; Z v = -c / g; if (v == n.lo) n.lo = v + 1; if (v == n.hi) n.hi = v - 1; }
  if (n.lo != cur.lo || n.hi != cur.hi) {
    bounds[q->id] = n; bumpEpoch();
    // linear back-propagation to the atoms/monomials of q
    if (q->p.size() > 1 && q->p.size() <= 12) for (auto &x : q->p) {
      Iv rest{Z(0), Z(0)}; for (auto &y : q->p) if (y.first != x.first) { Iv m = ivMono(y.first); if (y.second > 0) { rest.lo += y.second * m.lo; rest.hi += y.second * m.hi; } else { rest.lo += y.second * m.hi; rest.hi += y.second * m.lo; } }
      Z lo = n.lo - rest.hi, hi = n.hi - rest.lo; Z ml, mh; if (x.second > 0) { ml = cdiv(lo, x.second); mh = fdiv(hi, x.second); } else { ml = cdiv(hi, x.second); mh = fdiv(lo, x.second); }
      Iv m = ivMono(x.first); if (ml > m.lo || mh < m.hi) { if (ml > m.lo) m.lo = ml; if (mh < m.hi) m.hi = mh; Poly pp; pp.push_back({x.first, Z(1)}); bounds[mkTerm(std::move(pp))->id] = m; bumpEpoch(); }
    }
  }
}
static u32 mix(u32 a, u32 b) { return (a ^ b) * 16777619u + 0x9e3779b9u; }
static void sendItem(u64 idx, const std::map<std::string, Z> &m) { st.items++; emit("ITEM " + std::to_string(idx) + " | " + modelStr(m)); }
static void record(u32 h, bool implied) { if (nTrace < traceCap) trace[nTrace] = {h, implied}; nTrace++; *traceLen = nTrace; }
static void addLit(Bx *lit, bool implied) { if (!implied && pcIds.insert(lit->id).second) pc.push_back(lit); else if (implied) pcIds.insert(lit->id); tighten(lit);
  if (!implied) { std::vector<u64> vs; bxVars(lit, vs); slice(vs, nullptr); if (FDSet *F = getFD(vs)) if (!F->as.empty()) for (auto &x : F->as[0].m) { Z lo = x.second, hi = x.second; for (auto &a : F->as) { const Z &v = a.m[x.first]; if (v < lo) lo = v; if (v > hi) hi = v; } u32 id = varIdx[x.first]; Iv r = ivAtom(id); if (lo > r.lo || hi < r.hi) { bounds[atomTerm(id)->id] = {lo, hi}; bumpEpoch(); } } } }
static void diverge() { st.diverged++; finish("diverged"); }
static bool decideLit(Bx *b, u32 site) {
  if (b->k == BCONST) return b->cv;
  Iv r = iv(b->t);
  if (b->k == LE0) { if (r.hi <= 0) return true; if (r.lo > 0) return false; }
  else { bool can0 = r.lo <= 0 && r.hi >= 0, must0 = r.lo == 0 && r.hi == 0; if (!can0) return b->k == NE0; if (must0) return b->k == EQ0; }
  if (pcIds.count(b->id)) return true; Bx *nb = bNot(b); if (pcIds.count(nb->id)) return false;
  bool taken = b->cv; Bx *lit = taken ? b : nb, *alt = taken ? nb : b;
  u64 idx = nTrace; u32 h = mix(mix(site, taken), b->k); bool implied = false; st.branches++;
  if (idx < bound) {
    Entry e = (*prefix)[idx];
    if (idx + 1 == bound) { if (e.h != mix(mix(site, !taken), b->k) ) diverge(); }
    else if (e.h != h) diverge();
    implied = idx + 1 == bound ? false : e.implied;
  } else {
    std::map<std::string, Z> m; Res q = solve({alt}, m);
    if (q == SAT) sendItem(idx + 1, m); else if (q == UNSAT) implied = true;
  }
  record(h, implied); addLit(lit, implied); return taken;
}
static bool decide(Bx *b, u32 site) {
  if (b->k == AND) return decide(b->x, site * 31 + 1) ? decide(b->y, site * 31 + 2) : false;
  if (b->k == OR) return decide(b->x, site * 31 + 1) ? true : decide(b->y, site * 31 + 2);
  return decideLit(b, site);
}
// fix t to its current value, scheduling every other feasible value
static void concretizeTerm(Term *t, u32 site, const char *why) {
  if (t->special) t = desize(t);
  if (isC(t)) return; Iv r = iv(t); if (r.lo == r.hi) return;
  Bx *eq = mkEQ0(sub(t, C(t->cv))); if (eq->k == BCONST) return; if (pcIds.count(eq->id)) return;
  u64 idx = nTrace; u32 h = mix(site, 77777); bool implied = false; st.branches++; st.conc++; concWhy.insert(why);
  if (idx < bound) { Entry e = (*prefix)[idx]; if (e.h != h) diverge(); implied = idx + 1 == bound ? false : e.implied; }
  else {
    std::vector<Bx *> ne{bNot(eq)}; i64 n = 0;
    for (;;) {
      std::map<std::string, Z> m; Res q = solve(ne, m);
      if (q == UNSAT) { if (n == 0) implied = true; break; }
      if (q != SAT) break;
      if (++n > optConc) { st.conctrunc++; break; }
      sendItem(idx + 1, m); Eval E(m); ne.push_back(bNot(mkEQ0(sub(t, C(E.term(t))))));
    }
  }
  record(h, implied); addLit(eq, implied);
}
static Term *desize(Term *t) { // remove SIZE/BOOLINT atoms by deciding their value
  for (int guard = 0; guard < 64 && t->special; ++guard) {
    Atom *A = nullptr; for (auto &x : t->p) { for (auto &m : monos[x.first]) if (atoms[m.first]->k == SIZE || atoms[m.first]->k == BOOLINT) { A = atoms[m.first]; break; } if (A) break; }
    if (!A) break;
    Z v; if (A->k == BOOLINT) v = decide(A->c, 0xb001) ? 1 : 0;
    else { v = A->cv; decide(sizeLE(A->a, v), 0x5153); decide(bNot(sizeLE(A->a, Z(v - 1))), 0x5154); }
    std::map<u32, Z> r; for (auto &x : t->p) { Z c = x.second; Mono m; for (auto &y : monos[x.first]) if (atoms[y.first] == A) { for (u32 i = 0; i < y.second; ++i) c *= v; } else m.push_back(y); r[m.empty() ? 0 : monoId(m)] += c; }
    Poly p; for (auto &x : r) if (x.second != 0) p.push_back({x.first, x.second}); t = mkTerm(std::move(p));
  }
  return t;
}

// ------------------------------------------------------------------ division
static bool polyDivExact(Term *a, Term *b, Term *&q) { // multivariate exact division, lexicographic on atom ids
  if (b->p.size() > 40 || a->p.size() > 200) return false;
  auto lead = [](Term *t) { size_t best = 0; for (size_t i = 1; i < t->p.size(); ++i) { const Mono &x = monos[t->p[i].first], &y = monos[t->p[best].first]; // compare
      size_t k = 0; bool gt = false; for (;; ++k) { if (k == x.size()) { gt = false; break; } if (k == y.size()) { gt = true; break; } if (x[k].first != y[k].first) { gt = x[k].first < y[k].first; break; } if (x[k].second != y[k].second) { gt = x[k].second > y[k].second; break; } } if (gt) best = i; } return best; };
  Term *r = a; q = C(0L); size_t lb = lead(b); Mono mb = monos[b->p[lb].first]; Z cb = b->p[lb].second;
  for (int it = 0; it < 200; ++it) {
    if (r->p.empty()) return true; size_t lr = lead(r); Mono mr = monos[r->p[lr].first]; Z cr = r->p[lr].second; if (fmod_(cr, abs(cb)) != 0) return false;
    std::map<u32, i64> e; for (auto &x : mr) e[x.first] += x.second; for (auto &x : mb) e[x.first] -= x.second; Mono m; for (auto &x : e) { if (x.second < 0) return false; if (x.second > 0) m.push_back({x.first, (u32)x.second}); }
    Poly p; p.push_back({m.empty() ? 0 : monoId(m), Z(cr / cb)}); Term *f = mkTerm(std::move(p)); q = addRaw(q, f, 1); r = addRaw(r, mul(f, b), -1);
  }
  return false;
}
static Term *floorDiv(Term *a, Term *b); // b > 0
static Term *floorMod(Term *a, Term *b);
static Term *modAtomTerm(Term *a, Term *b) { return atomTerm(getAtom(MOD, a, b, fmod_(a->cv, b->cv))); }
static void splitConst(Term *a, const Z &c, Term *&A, Term *&B) { Poly pa, pb; for (auto &x : a->p) { Z q = fdiv(x.second, c), r = x.second - q * c; if (q != 0) pa.push_back({x.first, q}); if (r != 0) pb.push_back({x.first, r}); } A = mkTerm(std::move(pa)); B = mkTerm(std::move(pb)); }
static void splitConstNear(Term *a, const Z &c, Term *&A, Term *&B) { Poly pa, pb; for (auto &x : a->p) { Z q = fdiv(Z(2 * x.second + c), Z(2 * c)), r = x.second - q * c; if (q != 0) pa.push_back({x.first, q}); if (r != 0) pb.push_back({x.first, r}); } A = mkTerm(std::move(pa)); B = mkTerm(std::move(pb)); }
static Term *floorDivC(Term *a, const Z &c) {
  if (c == 1) return a; Term *A, *B;
  for (int k = 0; k < 2; ++k) { if (k == 0) splitConstNear(a, c, A, B); else splitConst(a, c, A, B); Iv r = iv(B); Z l = fdiv(r.lo, c), h = fdiv(r.hi, c); if (l == h) return add(A, C(l)); }
  splitConstNear(a, c, A, B);
  // nested: (x div c1) div c -> x div (c1*c)
  if (B->p.size() == 1 && B->p[0].second == 1) { const Mono &m = monos[B->p[0].first]; if (m.size() == 1 && m[0].second == 1 && atoms[m[0].first]->k == DIV && isC(atoms[m[0].first]->b)) return add(A, floorDivC(atoms[m[0].first]->a, Z(cval(atoms[m[0].first]->b) * c))); }
  Iv r = iv(B); Z l = fdiv(r.lo, c), h = fdiv(r.hi, c);
  if (h - l <= 2) { Z k = l; while (k < h) { if (decide(mkLE0(sub(add(B, C(Z(1))), C(Z((k + 1) * c)))), 0xd1)) break; k += 1; } return add(A, C(k)); }
  return add(A, atomTerm(getAtom(DIV, B, C(c), fdiv(B->cv, c))));
}
static Term *floorModC(Term *a, const Z &c) {
  if (c == 1) return C(0L); Term *A, *B;
  for (int k = 0; k < 2; ++k) { if (k == 0) splitConstNear(a, c, A, B); else splitConst(a, c, A, B); Iv r = iv(B); Z l = fdiv(r.lo, c), h = fdiv(r.hi, c); if (l == h) return sub(B, C(Z(l * c))); }
  splitConstNear(a, c, A, B);
  // (x mod c1) mod c with c | c1 -> x mod c, at top level of a sum
  { bool ch = false; Term *n = B; for (auto &x : B->p) { const Mono &m = monos[x.first]; if (m.size() == 1 && m[0].second == 1 && atoms[m[0].first]->k == MOD && isC(atoms[m[0].first]->b) && fmod_(cval(atoms[m[0].first]->b), c) == 0) { Poly pp; pp.push_back(x); n = add(sub(n, mkTerm(std::move(pp))), scale(atoms[m[0].first]->a, x.second)); ch = true; } } if (ch && n->p.size() <= 64) return floorModC(n, c); }
  Iv r = iv(B); Z l = fdiv(r.lo, c), h = fdiv(r.hi, c);
  if (h - l <= 2) { Z k = l; while (k < h) { if (decide(mkLE0(sub(add(B, C(Z(1))), C(Z((k + 1) * c)))), 0xd1)) break; k += 1; } return sub(B, C(Z(k * c))); }
  splitConst(a, c, A, B); // canonical residue form
  return atomTerm(getAtom(MOD, B, C(c), fmod_(B->cv, c)));
}
static Term *floorDiv(Term *a, Term *b) {
  if (a->special) a = desize(a); if (b->special) b = desize(b);
  if (isC(a) && isC(b)) return C(fdiv(cval(a), cval(b)));
  if (isC(b)) return floorDivC(a, cval(b));
  Iv bi = iv(b); if (bi.lo == bi.hi) return floorDivC(a, bi.lo);
  Iv ai = iv(a); if (ai.lo >= 0 && ai.hi < bi.lo) return C(0L);
  Term *q; if (polyDivExact(a, b, q)) return q;
  if (bi.hi - bi.lo <= optDivConc) { concretizeTerm(b, 0xd15, "small divisor"); return floorDivC(a, b->cv); }
  if (ai.lo >= 0 && decide(mkLE0(sub(add(a, C(1L)), b)), 0xd2)) return C(0L);
  return atomTerm(getAtom(DIV, a, b, fdiv(a->cv, b->cv)));
}
static Term *floorMod(Term *a, Term *b) {
  if (a->special) a = desize(a); if (b->special) b = desize(b);
  if (isC(a) && isC(b)) return C(fmod_(cval(a), cval(b)));
  if (isC(b)) return floorModC(a, cval(b));
  Iv bi = iv(b); if (bi.lo == bi.hi) return floorModC(a, bi.lo);
  Iv ai = iv(a); if (ai.lo >= 0 && ai.hi < bi.lo) return a;
  Term *q; if (polyDivExact(a, b, q)) return C(0L);
  if (bi.hi - bi.lo <= optDivConc) { concretizeTerm(b, 0xd15, "small divisor"); return floorModC(a, b->cv); }
  if (ai.lo >= 0 && decide(mkLE0(sub(add(a, C(1L)), b)), 0xd2)) return a;
  return modAtomTerm(a, b);
}

// ------------------------------------------------------------------ machine words
static Z wrapU(const Z &v, unsigned w) { return fmod_(v, pow2(w)); }
static Z wrapS(const Z &v, unsigned w) { Z r = fmod_(v, pow2(w)); if (r >= pow2(w - 1)) r -= pow2(w); return r; }
static Term *wrapTo(Term *t, const Z &lo, unsigned w) { // representative in [lo, lo+2^w)
  if (isC(t)) { Z v = cval(t); return C(Z(v - pow2(w) * fdiv(Z(v - lo), pow2(w)))); }
  Iv r = iv(t); Z m = pow2(w); Z a = fdiv(Z(r.lo - lo), m), b = fdiv(Z(r.hi - lo), m);
  if (a == b) return a == 0 ? t : sub(t, C(Z(a * m)));
  Term *u = sub(t, C(lo)); return add(floorModC(u, m), C(lo));
}
static Term *sval(Term *t, unsigned w) { return wrapTo(t, -pow2(w - 1), w); }
static Term *uval(Term *t, unsigned w) { return wrapTo(t, Z(0), w); }
static void *mk(Term *t) { if (isC(t)) return nullptr; if (!t->special) { Iv r = iv(t); if (r.lo == r.hi) return nullptr; } return t; }
static void *mkb(Bx *b) { if (b->k == BCONST) return nullptr; return b; }
static Z cw(u64 lo, u64 hi, unsigned w) { Z v = zu(hi); v <<= 64; v += zu(lo); if (w < 128) v = fmod_(v, pow2(w)); return wrapS(v, w); }
static Atom *boolintOf(Term *t) { Z k, c; if (!t->special) return nullptr; Atom *A = soleSpecial(t, k, c); if (A && A->k == BOOLINT && k == 1 && c == 0) return A; return nullptr; }
static Term *boolint(Bx *b) {
  if (b->k == BCONST) return C((long)b->cv); auto it = boolintIdx.find(b->id); if (it != boolintIdx.end()) return atomTerm(it->second);
  Atom *A = new Atom; A->k = BOOLINT; A->c = b; A->cv = b->cv ? 1 : 0; A->id = atoms.size(); bxVars(b, A->vars); atoms.push_back(A); boolintIdx[b->id] = A->id; return atomTerm(A->id);
}
static Term *andConst(Term *a, const Z &mask, unsigned w) { // a any representative; mask in [0,2^w)
  Z m = mask; if (m == 0) return C(0L); if (m == pow2(w) - 1) return a; Term *r = C(0L); unsigned i = 0;
  while (i < w) { if (!mpz_tstbit(m.get_mpz_t(), i)) { ++i; continue; } unsigned j = i; while (j < w && mpz_tstbit(m.get_mpz_t(), j)) ++j;
    Term *x = j == w ? a : floorModC(a, pow2(j)); // bits [0,j)
    if (i) { if (j == w) { x = sub(a, floorModC(a, pow2(i))); } else x = scale(floorDivC(x, pow2(i)), pow2(i)); }
    r = add(r, x); i = j; }
  return r;
}
static bool lowZero(Term *t, unsigned &k) { Z g = 0; for (auto &x : t->p) g = zgcd(g, x.second); if (g == 0) { k = 200; return true; } k = mpz_scan1(g.get_mpz_t(), 0); return true; }
enum { oADD = 1, oSUB, oMUL, oUDIV, oSDIV, oUREM, oSREM, oSHL, oLSHR, oASHR, oAND, oOR, oXOR, oSMAX, oSMIN, oUMAX, oUMIN, oADDO_S, oADDO_U, oSUBO_S, oSUBO_U, oMULO_S, oMULO_U, oORD = 40, oUSUBSAT = 41, oUADDSAT = 42, oICMP = 64 };
static Bx *outOfRange(Term *r, const Z &lo, const Z &hi) { return bOr(mkLE0(sub(r, C(Z(lo - 1)))), mkLE0(sub(C(Z(hi + 1)), r))); }
static Bx *icmp(unsigned pred, Term *a, Term *b, unsigned w) {
  Z m = pow2(w);
  switch (pred) {
  case 32: case 33: {
    Term *d = sub(a, b); Bx *e;
    if (d->special) { Z k, c; Atom *A = soleSpecial(d, k, c); if (!A) { d = sub(desize(a), desize(b)); } }
    if (isC(d)) e = BC(fmod_(cval(d), m) == 0);
    else { Iv r = iv(d); Z lo = cdiv(r.lo, m), hi = fdiv(r.hi, m); if (lo > hi) e = bFalse; else if (lo == hi) e = mkEQ0(sub(d, C(Z(lo * m)))); else if (hi - lo <= 2) { e = bFalse; for (Z k = lo; k <= hi; k += 1) e = bOr(e, mkEQ0(sub(d, C(Z(k * m))))); } else e = mkEQ0(floorModC(d, m)); }
    return pred == 32 ? e : bNot(e); }
  case 34: return mkLE0(sub(add(uval(b, w), C(1L)), uval(a, w))); // ugt: a>b  b+1-a<=0
  case 35: return mkLE0(sub(uval(b, w), uval(a, w)));
  case 36: return mkLE0(sub(add(uval(a, w), C(1L)), uval(b, w)));
  case 37: return mkLE0(sub(uval(a, w), uval(b, w)));
  case 38: return mkLE0(sub(add(sval(b, w), C(1L)), sval(a, w)));
  case 39: return mkLE0(sub(sval(b, w), sval(a, w)));
  case 40: return mkLE0(sub(add(sval(a, w), C(1L)), sval(b, w)));
  case 41: return mkLE0(sub(sval(a, w), sval(b, w)));
  }
  return bFalse;
}
static Term *logic(unsigned op, Term *a, Term *b, unsigned w) {
  Atom *A = boolintOf(a), *B = boolintOf(b);
  if (A && (B || isC(b))) { Bx *x = A->c, *y = B ? B->c : nullptr; Z cb = B ? Z(0) : wrapU(cval(b), w); 
    if (B) { if (op == oAND) return boolint(bAnd(x, y)); if (op == oOR) return boolint(bOr(x, y)); return boolint(bOr(bAnd(x, bNot(y)), bAnd(bNot(x), y))); }
    if (op == oAND) return mpz_tstbit(cb.get_mpz_t(), 0) ? a : C(0L); if (op == oXOR && cb == 1) return boolint(bNot(x)); if (op == oXOR && cb == 0) return a; if (op == oOR && cb == 0) return a; if (op == oOR && cb == 1) return b; }
  if (B && isC(a)) return logic(op, b, a, w);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) { Z cb = wrapU(cval(b), w); if (cb == 0) return op == oAND ? C(0L) : a; if (cb == pow2(w) - 1) { if (op == oAND) return a; if (op == oOR) return C(-1L); return sub(C(-1L), a); } }
  if (a->special) a = desize(a); if (b->special) b = desize(b); if (isC(a)) std::swap(a, b);
  if (a == b) return op == oXOR ? C(0L) : a;
  if (!isC(b)) { // disjoint bits?
    for (int k = 0; k < 2; ++k) { Term *x = k ? b : a, *y = k ? a : b; unsigned z; lowZero(x, z); Iv r = iv(y); if (r.lo >= 0 && r.hi < pow2(z)) return op == oAND ? C(0L) : add(a, b); }
    if (op == oXOR) { a = sval(a, w); b = sval(b, w); decide(mkLE0(add(a, C(1L))), 0x50a); decide(mkLE0(add(b, C(1L))), 0x50b); if (a->id > b->id) std::swap(a, b); Z v; mpz_xor(v.get_mpz_t(), a->cv.get_mpz_t(), b->cv.get_mpz_t()); if (!isC(a) && !isC(b)) return atomTerm(getAtom(BXOR, a, b, v)); if (isC(a)) std::swap(a, b); if (isC(a)) return C(v); return logic(op, a, b, w); }
    Iv ra = iv(a), rb = iv(b); if (ra.hi - ra.lo < rb.hi - rb.lo) { concretizeTerm(a, 0xc0de, "bitop"); Z v = a->cv; a = b; b = C(v); } else { concretizeTerm(b, 0xc0de, "bitop"); b = C(b->cv); }
  }
  Z cb = wrapU(cval(b), w); Term *an = andConst(a, cb, w);
  if (op == oAND) return an; if (op == oOR) return sub(add(a, C(cb)), an); return sub(add(a, C(cb)), scale(an, Z(2)));
}
static Term *truncDivMod(Term *a, Term *b, bool wantQ) { // C semantics, arbitrary signs; b != 0 decided by caller
  bool na = decide(mkLE0(add(a, C(1L))), 0x51), nb = decide(mkLE0(add(b, C(1L))), 0x52);
  Term *x = na ? neg(a) : a, *y = nb ? neg(b) : b;
  if (wantQ) { Term *q = floorDiv(x, y); return na != nb ? neg(q) : q; }
  Term *r = floorMod(x, y); return na ? neg(r) : r;
}
static void *binop(unsigned op, unsigned w, void *sa, const Z &ca, void *sb, const Z &cb) {
  if (w == 1) {
    Bx *x = sa ? (Bx *)sa : BC(ca != 0), *y = sb ? (Bx *)sb : BC(cb != 0);
    switch (op) {
    case oAND: case oMUL: case oUMIN: return mkb(bAnd(x, y)); case oOR: case oORD: case oUMAX: return mkb(bOr(x, y));
    case oXOR: case oADD: case oSUB: case oICMP + 33: if (x->k == BCONST) return mkb(x->cv ? bNot(y) : y); if (y->k == BCONST) return mkb(y->cv ? bNot(x) : x); return mkb(bOr(bAnd(x, bNot(y)), bAnd(bNot(x), y)));
    case oICMP + 32: if (x->k == BCONST) return mkb(x->cv ? y : bNot(y)); if (y->k == BCONST) return mkb(y->cv ? x : bNot(x)); return mkb(bOr(bAnd(x, y), bAnd(bNot(x), bNot(y))));
    case oICMP + 34: return mkb(bAnd(x, bNot(y))); case oICMP + 36: return mkb(bAnd(y, bNot(x))); case oICMP + 35: return mkb(bOr(x, bNot(y))); case oICMP + 37: return mkb(bOr(y, bNot(x)));
    default: decide(x, 0x111); decide(y, 0x112); return nullptr;
    }
  }
  Term *a = sa ? (Term *)sa : C(ca), *b = sb ? (Term *)sb : C(cb); Z M = pow2(w);
  if (op == oAND || op == oOR || op == oXOR) return mk(logic(op, a, b, w));
  if (op == oORD) return mk(add(a, b));
  if (op >= oICMP) return mkb(icmp(op - oICMP, a, b, w));
  auto plain = [&](Term *&t) { if (t->special && !(op == oADD || op == oSUB || op == oSHL || op == oLSHR || op == oASHR || op == oMUL)) t = desize(t); }; plain(a); plain(b);
  { Atom *A = boolintOf(a); if (A && op != oSHL && op != oLSHR) a = desize(a); Atom *B = boolintOf(b); if (B) b = desize(b); }
  switch (op) {
  case oADD: return mk(add(a, b)); case oSUB: return mk(sub(a, b));
  case oMUL: { if (a->special && !isC(b)) a = desize(a); if (b->special && !isC(a)) b = desize(b); if (!isC(a) && !isC(b)) { a = sval(a, w); b = sval(b, w); } return mk(mul(a, b)); }
  case oUDIV: case oUREM: { a = uval(a, w); b = uval(b, w); if (decide(mkEQ0(b), 0xd0)) return nullptr; return mk(op == oUDIV ? floorDiv(a, b) : floorMod(a, b)); }
  case oSDIV: case oSREM: { a = sval(a, w); b = sval(b, w); if (decide(mkEQ0(b), 0xd0)) return nullptr; return mk(truncDivMod(a, b, op == oSDIV)); }
  case oSHL: case oLSHR: case oASHR: {
    b = uval(desize(b), w); if (!isC(b)) { concretizeTerm(b, 0x5115, "shift amount"); b = C(b->cv); } Z k = cval(b); if (k >= w) return nullptr; unsigned n = k.get_ui();
    if (op == oSHL) return mk(scale(a, pow2(n)));
    if (a->special) { // packaging of _mp_size in wider words: exact split only
      Term *A, *B; splitConst(a, pow2(n), A, B); if (B->p.empty() || (!B->special && iv(B).lo >= 0 && iv(B).hi < pow2(n))) { return mk(A); } 
      Z kk, cc; Atom *S = soleSpecial(a, kk, cc); if (!(op == oASHR && S)) a = desize(a); else { Z cvv = a->cv; if (decide(mkLE0(add(a, C(1L))), 0x57)) { if (n >= 31) return nullptr; } else if (n >= 31) return nullptr; a = desize(a); } }
    return mk(floorDivC(op == oLSHR ? uval(a, w) : sval(a, w), pow2(n))); }
  case oSMAX: case oSMIN: { a = sval(a, w); b = sval(b, w); bool le = decide(mkLE0(sub(a, b)), 0x3a); return mk(le == (op == oSMAX) ? b : a); }
  case oUMAX: case oUMIN: { a = uval(a, w); b = uval(b, w); bool le = decide(mkLE0(sub(a, b)), 0x3b); return mk(le == (op == oUMAX) ? b : a); }
  case oADDO_S: case oSUBO_S: case oMULO_S: { a = sval(a, w); b = sval(b, w); Term *r = op == oADDO_S ? add(a, b) : op == oSUBO_S ? sub(a, b) : mul(a, b); return mkb(outOfRange(r, -pow2(w - 1), pow2(w - 1) - 1)); }
  case oADDO_U: case oSUBO_U: case oMULO_U: { a = uval(a, w); b = uval(b, w); Term *r = op == oADDO_U ? add(a, b) : op == oSUBO_U ? sub(a, b) : mul(a, b); return mkb(outOfRange(r, Z(0), M - 1)); }
  case oUSUBSAT: { a = uval(a, w); b = uval(b, w); if (decide(mkLE0(sub(a, b)), 0x3c)) return nullptr; return mk(sub(a, b)); }
  case oUADDSAT: { a = uval(a, w); b = uval(b, w); Term *r = add(a, b); if (decide(mkLE0(sub(C(M), r)), 0x3d)) return nullptr; return mk(r); }
  }
  return nullptr;
}
struct Guard { static thread_local int depth; };

API void *sx_args[64]; void *sx_args[64]; API void *sx_rets[64]; void *sx_rets[64]; API void *sx_callee; void *sx_callee; API void *sx_retfn; void *sx_retfn;
API void *sx_bin(int op, int w, void *sa, u64 a, void *sb, u64 b) { if (!sa && !sb) return nullptr; return binop(op, w, sa, cw(a, 0, w), sb, cw(b, 0, w)); }
API void *sx_bin128(int op, int w, void *sa, u64 al, u64 ah, void *sb, u64 bl, u64 bh) { if (!sa && !sb) return nullptr; return binop(op, w, sa, cw(al, ah, w), sb, cw(bl, bh, w)); }
API void *sx_cast(int op, void *s, int w1, int w2) {
  if (!s) return nullptr;
  if (w1 == 1) { Bx *b = (Bx *)s; if (op == 1) return mk(boolint(b)); /* sext */ bool v = decide(b, 0x5e); (void)v; return nullptr; }
  Term *t = (Term *)s;
  if (op == 3) { if (w2 == 1) { if (Atom *A = boolintOf(t)) return mkb(A->c); Term *m = floorModC(desize(t), Z(2)); return mkb(mkEQ0(sub(m, C(1L)))); } return t; }
  if (t->special) { if (boolintOf(t)) return t; if (op == 2) return t; Iv r = iv(t); if (r.lo >= 0) return t; // zext of a possibly negative size
    Z k, c; Atom *A = soleSpecial(t, k, c); if (A && A->k == SIZE && op == 1) { bool ng = decide(mkLE0(add(t, C(1L))), 0x2e); return ng ? mk(add(t, C(pow2(w1)))) : t; } t = desize(t); }
  return mk(op == 1 ? uval(t, w1) : sval(t, w1));
}
API void *sx_select(int w, void *sc, int c, void *stt, u64 tl, u64 th, void *sf, u64 fl, u64 fh) {
  if (!sc && !stt && !sf) return nullptr;
  if (w == 1) { Bx *C_ = sc ? (Bx *)sc : BC(c), *t = stt ? (Bx *)stt : BC(tl & 1), *f = sf ? (Bx *)sf : BC(fl & 1);
    if (t->k == BCONST && f->k == BCONST) { if (t->cv == f->cv) return nullptr; return mkb(t->cv ? C_ : bNot(C_)); }
    if (t->k == BCONST) return mkb(t->cv ? bOr(C_, f) : bAnd(bNot(C_), f)); if (f->k == BCONST) return mkb(f->cv ? bOr(bNot(C_), t) : bAnd(C_, t));
    bool v = decide((Bx *)C_, 0x5e1); return mkb(v ? t : f); }
  if (sc) { if (!stt && !sf && tl == fl && th == fh) return nullptr; if (!stt && !sf && fl == 0 && fh == 0 && tl == 1 && th == 0) return mk(boolint((Bx *)sc)); if (stt == sf && stt) return stt; c = decide((Bx *)sc, 0x5e2); }
  return c ? stt : sf;
}
// number of binary digits of m > 0: binary search over the possible lengths, independent of the current value
static void bitSearch(Term *m, u32 site) { Iv r = iv(m); unsigned lo = 1, hi; if (r.lo > 0) lo = mpz_sizeinbase(r.lo.get_mpz_t(), 2); hi = mpz_sizeinbase(r.hi.get_mpz_t(), 2); while (lo < hi) { unsigned mid = (lo + hi) / 2; if (decide(mkLE0(sub(m, C(Z(pow2(mid) - 1)))), site + (mid << 9))) hi = mid; else lo = mid + 1; } }
API void *sx_un(int k, int w, void *s, u64 lo, u64 hi) {
  if (!s) return nullptr; Term *t = desize((Term *)s);
  if (k == 1) { t = sval(t, w); return mk(decide(mkLE0(add(t, C(1L))), 0xab) ? neg(t) : t); }
  if (k == 2) { t = uval(t, w); if (decide(mkEQ0(t), 0xac1)) return nullptr; bitSearch(t, 0xac2); return nullptr; }
  if (k == 3) { t = uval(t, w); if (decide(mkEQ0(t), 0xad0)) return nullptr; unsigned i = 0; while (!decide(mkEQ0(sub(floorModC(t, pow2(i + 1)), C(pow2(i)))), 0xad1 + (i << 8))) ++i; return nullptr; }
  concretizeTerm(t, 0xae, "ctpop/bswap"); return nullptr;
}
API void *sx_fsh(int right, int w, void *sa, u64 a, void *sb, u64 b, u64 c) {
  if (!sa && !sb) return nullptr;
  Term *x = sa ? (Term *)sa : C(zu(a)), *y = sb ? (Term *)sb : C(zu(b)); x = uval(desize(x), w); y = uval(desize(y), w); c %= w; if (c == 0) return mk(right ? y : x);
  unsigned l = right ? w - c : c; // (x<<l) | (y >> (w-l))
  return mk(add(scale(x, pow2(l)), floorDivC(y, pow2(w - l))));
}

// ------------------------------------------------------------------ shadow memory
struct SEnt { void *t; u32 w; uint8_t idx, n; };
struct Page { SEnt e[4096]; u32 cnt; };
static Page ***top; // 2^18 x 2^18
static u64 livePages = 0;
static inline Page *pageOf(u64 a) { Page **l = top[(a >> 30) & 0x3ffff]; return l ? l[(a >> 12) & 0x3ffff] : nullptr; }
static Page *pageMk(u64 a) {
  Page **&l = top[(a >> 30) & 0x3ffff]; if (!l) l = (Page **)mmap(nullptr, sizeof(Page *) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Page *&p = l[(a >> 12) & 0x3ffff]; if (!p) { p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); livePages++; } return p;
}
static void clearB(u64 a, u64 n) {
  if (!livePages) return;
  while (n) { u64 in = std::min<u64>(n, 4096 - (a & 4095)); Page *p = pageOf(a); if (p && p->cnt) { for (u64 i = 0; i < in; ++i) { SEnt &e = p->e[(a & 4095) + i]; if (e.t) { e.t = nullptr; p->cnt--; } } } a += in; n -= in; }
}
static void setB(u64 a, const SEnt &v) { Page *p = pageMk(a); SEnt &e = p->e[a & 4095]; if (!e.t) p->cnt++; e = v; }
API void sx_clear(void *p, u64 n) { clearB((u64)p, n); }
API void sx_store(void *p, int w, void *s) {
  unsigned n = (w + 7) / 8; if (!s) { clearB((u64)p, n); return; }
  for (unsigned i = 0; i < n; ++i) setB((u64)p + i, SEnt{s, (u32)w, (uint8_t)i, (uint8_t)n});
}
API void sx_memmove(void *d, void *s, u64 n) {
  if (!livePages || d == s) return; u64 a = (u64)s, b = (u64)d; std::vector<std::pair<u64, SEnt>> t;
  for (u64 i = 0; i < n;) { Page *p = pageOf(a + i); u64 in = std::min<u64>(n - i, 4096 - ((a + i) & 4095)); if (p && p->cnt) for (u64 j = 0; j < in; ++j) { SEnt &e = p->e[((a + i) & 4095) + j]; if (e.t) t.push_back({i + j, e}); } i += in; }
  clearB(b, n); for (auto &x : t) setB(b + x.first, x.second);
}
static Term *asTerm(const SEnt &e) { return e.w == 1 ? boolint((Bx *)e.t) : (Term *)e.t; }
API void *sx_load(void *ptr, int w, u64 lo, u64 hi) {
  if (!livePages) return nullptr; u64 a = (u64)ptr; unsigned n = (w + 7) / 8; Page *p = pageOf(a); Page *p2 = ((a & 4095) + n > 4096) ? pageOf(a + n - 1) : p;
  if ((!p || !p->cnt) && (!p2 || !p2->cnt)) return nullptr;
  SEnt e[16]; bool any = false; for (unsigned i = 0; i < n; ++i) { Page *q = ((a & 4095) + i >= 4096) ? p2 : p; if (q) e[i] = q->e[(a + i) & 4095]; else e[i].t = nullptr; if (e[i].t) any = true; }
  if (!any) return nullptr;
  Z cv = cw(lo, hi, w == 1 ? 1 : w); if (w == 1) cv = (long)(lo & 1);
  bool whole = e[0].t && e[0].idx == 0 && e[0].n == n; for (unsigned i = 1; i < n && whole; ++i) if (e[i].t != e[0].t || e[i].idx != i || e[i].n != n || e[i].w != e[0].w) whole = false;
  if (whole) {
    if (e[0].w == 1) { Bx *b = (Bx *)e[0].t; if (b->cv != (bool)(lo & 1)) { st.stale++; clearB(a, n); return nullptr; } if (w == 1) return b; return boolint(b); }
    Term *t = (Term *)e[0].t;
    if (w == 1) { if ((t->cv - cv) % 2 != 0) { st.stale++; clearB(a, n); return nullptr; } return sx_cast(3, t, e[0].w, 1); }
    if (fmod_(Z(t->cv - cv), pow2(w)) != 0) { st.stale++; clearB(a, n); return nullptr; }
    return t;
  }
  Term *r = C(0L); Z cu = cw(lo, hi, w); cu = fmod_(cu, pow2(w));
  for (unsigned i = 0; i < n;) {
    if (!e[i].t) { Z by = fmod_(fdiv(cu, pow2(8 * i)), Z(256)); r = add(r, C(Z(by << (8 * i)))); ++i; continue; }
    unsigned j = i + 1; while (j < n && e[j].t == e[i].t && e[j].w == e[i].w && e[j].idx == e[i].idx + (j - i)) ++j;
    Term *t = asTerm(e[i]); bool top_ = e[i].idx + (j - i) == e[i].n && j == n; unsigned ew = e[i].w == 1 ? 8 : e[i].w;
    Term *x = t;
    if (e[i].idx) { if (x->special) { Term *A, *B; splitConst(x, pow2(8 * e[i].idx), A, B); if (B->p.empty() || (!B->special && iv(B).lo >= 0 && iv(B).hi < pow2(8 * e[i].idx))) x = A; else { x = desize(x); x = floorDivC(uval(x, ew), pow2(8 * e[i].idx)); } } else x = floorDivC(uval(x, ew), pow2(8 * e[i].idx)); }
    if (!top_) { if (x->special) { Iv q = iv(x); if (!(q.lo >= 0 && q.hi < pow2(8 * (j - i)))) { // drop multiples of the modulus
            Term *A, *B; splitConst(x, pow2(8 * (j - i)), A, B); x = B; if (x->special) { Iv q2 = iv(x); if (!(q2.lo >= 0 && q2.hi < pow2(8 * (j - i)))) x = floorModC(desize(x), pow2(8 * (j - i))); } } } else x = floorModC(x, pow2(8 * (j - i))); }
    r = add(r, scale(x, pow2(8 * i))); i = j;
  }
  if (fmod_(Z(r->cv - cu), pow2(w)) != 0) { st.stale++; clearB(a, n); return nullptr; }
  if (w == 1) return sx_cast(3, r, 8, 1);
  return mk(r);
}
API void sx_vecload(void *p, u64 n) { // vector/float load of symbolic bytes: concretise
  if (!livePages) return; for (u64 i = 0; i < n; ++i) { Page *q = pageOf((u64)p + i); if (!q || !q->cnt) continue; SEnt &e = q->e[((u64)p + i) & 4095]; if (!e.t) continue; Term *t = asTerm(e); concretizeTerm(t, 0x7ec, "vector load"); e.t = nullptr; q->cnt--; }
}

// ------------------------------------------------------------------ control flow
API void sx_branch(void *s, int taken, u64 site) {
  if (!s) return; Bx *b = (Bx *)s; if (b->cv != (bool)taken) { st.mism++; if (getenv("SX_DEBUG")) fprintf(stderr, "mismatch at branch %lx\n", site); return; }
  decide(b, (u32)(site ^ (site >> 32)));
}
API void sx_switch(void *s, int w, u64 v, u64 *tab, int n, u64 site) {
  if (!s) return; Term *t = w == 1 ? boolint((Bx *)s) : (Term *)s;
  for (int i = 0; i < n; ++i) if (decide(icmp(32, t, C(w == 64 ? zu(tab[i]) : zu(tab[i] & ((1ull << w) - 1))), w), (u32)site * 131 + i)) return;
}
static const char *whyName[] = {"?", "int-to-fp/ptr", "address", "alloca", "asm", "fsh", "memcpy size", "intrinsic", "gmp-arg", "extern-arg"};
API void sx_concretize(void *s, int w, u64 lo, u64 hi, int why) {
  if (!s) return; if (w == 1) { decide((Bx *)s, 0xcc1); return; } Term *t = (Term *)s; if (t->special) { t = desize(t); if (isC(t)) return; }
  if (fmod_(Z(t->cv - cw(lo, hi, w)), pow2(w)) != 0) { st.mism++; return; }
  concretizeTerm(t, 0xcc0 + why, whyName[why]);
}
static std::set<const char *> fseen;
API void sx_enter(const char *name, unsigned char *ctr) { if (*ctr) return; *ctr = 1; funcs.push_back(name); }

// ------------------------------------------------------------------ GMP
static Z zval(mpz_srcptr z) { Z r; mpz_set(r.get_mpz_t(), z); return r; }
static void zclear(mpz_srcptr z) { clearB((u64)&z->_mp_size, 4); }
static Term *zget(mpz_srcptr z) {
  void *s = sx_load((void *)&z->_mp_size, 32, (u32)z->_mp_size, 0); if (!s) return nullptr; Term *t = (Term *)s; Z k, c; Atom *A = soleSpecial(t, k, c);
  if (A && A->k == SIZE && c == 0 && (k == 1 || k == -1)) { Term *T = k == 1 ? A->a : neg(A->a); if (T->cv == zval(z)) return T; st.stale++; zclear(z); return nullptr; }
  // _mp_size was rewritten arithmetically (e.g. |size|): decide it
  desize(t); Z mag = abs(A ? A->a->cv : Z(0)); if (A && A->k == SIZE && mag == abs(zval(z))) { bool ng = decide(mkLE0(add(A->a, C(1L))), 0x5163); Term *T = (ng == (z->_mp_size < 0)) ? A->a : neg(A->a); if (T->cv == zval(z)) return T; }
  st.stale++; zclear(z); return nullptr;
}
static Term *zt(mpz_srcptr z) { Term *t = zget(z); return t ? t : C(zval(z)); }
static void zset(mpz_ptr z, Term *t) {
  if (!t || isC(t)) { zclear(z); return; } if (t->cv != zval(z)) { st.mism++; if (getenv("SX_DEBUG")) { fprintf(stderr, "mpz mismatch %s vs %s\n", t->cv.get_str().c_str(), zval(z).get_str().c_str()); } zclear(z); return; }
  Iv r = iv(t); if (r.lo == r.hi) { zclear(z); return; }
  sx_store(&z->_mp_size, 32, atomTerm(getAtom(SIZE, t, nullptr, sizeOf(t->cv))));
}
static Term *argT(int i, int w, bool uns, u64 v, void *self) { if (sx_callee != self || !sx_args[i]) return C(uns ? zu(v) : zs((i64)v)); Term *t = desize((Term *)sx_args[i]); return uns ? uval(t, w) : sval(t, w); }
static void retT(void *self, void *t) { sx_rets[0] = t; sx_retfn = self; }
#define W(n) sx_w___gmpz_##n
#define SELF(n) ((void *)&W(n))
API void W(init)(mpz_ptr z) { mpz_init(z); clearB((u64)z, sizeof *z); }
API void W(init2)(mpz_ptr z, mp_bitcnt_t n) { mpz_init2(z, n); clearB((u64)z, sizeof *z); }
API void W(clear)(mpz_ptr z) { mpz_clear(z); clearB((u64)z, sizeof *z); }
API void W(realloc2)(mpz_ptr z, mp_bitcnt_t n) { Term *t = zget(z); mpz_realloc2(z, n); if (t && t->cv == zval(z)) zset(z, t); else zclear(z); }
API void W(set)(mpz_ptr r, mpz_srcptr a) { Term *t = zget(a); mpz_set(r, a); zset(r, t); }
API void W(init_set)(mpz_ptr r, mpz_srcptr a) { Term *t = zget(a); mpz_init_set(r, a); clearB((u64)r, sizeof *r); zset(r, t); }
API void W(set_si)(mpz_ptr r, long v) { Term *t = argT(0, 64, false, v, SELF(set_si)); mpz_set_si(r, v); zset(r, t); }
API void W(set_ui)(mpz_ptr r, unsigned long v) { Term *t = argT(0, 64, true, v, SELF(set_ui)); mpz_set_ui(r, v); zset(r, t); }
API void W(init_set_si)(mpz_ptr r, long v) { Term *t = argT(0, 64, false, v, SELF(init_set_si)); mpz_init_set_si(r, v); clearB((u64)r, sizeof *r); zset(r, t); }
API void W(init_set_ui)(mpz_ptr r, unsigned long v) { Term *t = argT(0, 64, true, v, SELF(init_set_ui)); mpz_init_set_ui(r, v); clearB((u64)r, sizeof *r); zset(r, t); }
API int W(set_str)(mpz_ptr r, const char *s, int b) { int x = mpz_set_str(r, s, b); zclear(r); return x; }
API int W(init_set_str)(mpz_ptr r, const char *s, int b) { int x = mpz_init_set_str(r, s, b); clearB((u64)r, sizeof *r); return x; }
API void W(swap)(mpz_ptr a, mpz_ptr b) { Term *x = zget(a), *y = zget(b); mpz_swap(a, b); zset(a, y); zset(b, x); }
API long W(get_si)(mpz_srcptr a) { Term *t = zget(a); long v = mpz_get_si(a); if (t) { // sign * (|a| mod 2^63) except LONG_MIN: exact when it fits
    Iv r = iv(t); if (r.lo >= -pow2(63) && r.hi < pow2(63)) retT(SELF(get_si), mk(t)); else if (!decide(outOfRange(t, -pow2(63), pow2(63) - 1), 0x6e51)) retT(SELF(get_si), mk(t)); else { concretizeTerm(t, 0x6e5, "get_si of big"); retT(SELF(get_si), nullptr); } } return v; }
API unsigned long W(get_ui)(mpz_srcptr a) { Term *t = zget(a); unsigned long v = mpz_get_ui(a); if (t) { bool ng = decide(mkLE0(add(t, C(1L))), 0x6e6); retT(SELF(get_ui), mk(ng ? neg(t) : t)); } return v; }
API char *W(get_str)(char *s, int b, mpz_srcptr a) { Term *t = zget(a); if (t) concretizeTerm(t, 0x6e7, "get_str"); char *r = mpz_get_str(s, b, a); if (s) clearB((u64)s, strlen(s) + 1); else if (r) clearB((u64)r, strlen(r) + 1); return r; }
API int W(fits_slong_p)(mpz_srcptr a) { Term *t = zget(a); int v = mpz_fits_slong_p(a); if (t) { Bx *b = bNot(outOfRange(t, -pow2(63), pow2(63) - 1)); retT(SELF(fits_slong_p), mk(boolint(b))); } return v != 0; }
API int W(fits_ulong_p)(mpz_srcptr a) { Term *t = zget(a); int v = mpz_fits_ulong_p(a); if (t) retT(SELF(fits_ulong_p), mk(boolint(bNot(outOfRange(t, Z(0), pow2(64) - 1))))); return v != 0; }
static void decideBits(Term *t, unsigned) { bool ng = decide(mkLE0(add(t, C(1L))), 0xb11); Term *m = ng ? neg(t) : t; if (decide(mkEQ0(t), 0xb12)) return; bitSearch(m, 0xb13); }
API size_t W(sizeinbase)(mpz_srcptr a, int b) { Term *t = zget(a); size_t r = mpz_sizeinbase(a, b); if (t) { if (b == 2) decideBits(t, r); else concretizeTerm(t, 0xb15, "sizeinbase"); } return r; }
API size_t W(size)(mpz_srcptr a) { Term *t = zget(a); if (t) desize(atomTerm(getAtom(SIZE, t, nullptr, sizeOf(t->cv)))); return mpz_size(a); }
API int W(tstbit)(mpz_srcptr a, mp_bitcnt_t i) { Term *t = zget(a); if (t) { decide(mkEQ0(floorModC(floorDivC(t, pow2(i)), Z(2))), 0x7b17); } return mpz_tstbit(a, i); }
#define BIN3(n, expr) API void W(n)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b); if (!x && !y) { mpz_##n(r, a, b); zclear(r); return; } if (!x) x = C(zval(a)); if (!y) y = C(zval(b)); Term *t = expr; mpz_##n(r, a, b); zset(r, t); }
BIN3(add, ::add(x, y)) BIN3(sub, ::sub(x, y)) BIN3(mul, ::mul(x, y))
#define BINUI(n, uns, ty, expr) API void W(n)(mpz_ptr r, mpz_srcptr a, ty b) { Term *x = zget(a); Term *y = argT(0, 64, uns, (u64)b, SELF(n)); if (!x && isC(y)) { mpz_##n(r, a, b); zclear(r); return; } if (!x) x = C(zval(a)); Term *t = expr; mpz_##n(r, a, b); zset(r, t); }
BINUI(add_ui, true, unsigned long, ::add(x, y)) BINUI(sub_ui, true, unsigned long, ::sub(x, y)) BINUI(mul_ui, true, unsigned long, ::mul(x, y)) BINUI(mul_si, false, long, ::mul(x, y))
API void W(ui_sub)(mpz_ptr r, unsigned long a, mpz_srcptr b) { Term *y = zget(b); Term *x = argT(0, 64, true, a, SELF(ui_sub)); if (!y && isC(x)) { mpz_ui_sub(r, a, b); zclear(r); return; } if (!y) y = C(zval(b)); Term *t = sub(x, y); mpz_ui_sub(r, a, b); zset(r, t); }
static void concArg(Term *n, const char *w) { if (!isC(n)) concretizeTerm(n, 0xa46, w); }
#define BITOP(n, expr) API void W(n)(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t k) { Term *x = zget(a); concArg(argT(0, 64, true, k, SELF(n)), "shift count"); Term *t = nullptr; if (x && k < 100000) t = expr; mpz_##n(r, a, k); zset(r, t); }
static Term *tq(Term *a, const Z &c) { bool ng = decide(mkLE0(add(a, C(1L))), 0x51); Term *q = floorDivC(ng ? neg(a) : a, c); return ng ? neg(q) : q; }
static Term *tr(Term *a, const Z &c) { bool ng = decide(mkLE0(add(a, C(1L))), 0x51); Term *q = floorModC(ng ? neg(a) : a, c); return ng ? neg(q) : q; }
BITOP(mul_2exp, scale(x, pow2(k))) BITOP(fdiv_q_2exp, floorDivC(x, pow2(k))) BITOP(fdiv_r_2exp, floorModC(x, pow2(k))) BITOP(tdiv_q_2exp, tq(x, pow2(k))) BITOP(tdiv_r_2exp, tr(x, pow2(k)))
API void W(and)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x && y) { concretizeTerm(y, 0xa4d, "and"); y = nullptr; } if (x || y) { Z m = x ? zval(b) : zval(a); Term *u = x ? x : y; unsigned k = sgn(m) > 0 ? mpz_sizeinbase(m.get_mpz_t(), 2) : 0; if (m == 0) ; else if (sgn(m) > 0 && m == pow2(k) - 1) t = floorModC(u, pow2(k)); else concretizeTerm(u, 0xa4e, "and"); } mpz_and(r, a, b); zset(r, t); }
API void W(addmul)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *t = nullptr; if (zget(r) || zget(a) || zget(b)) t = ::add(zt(r), ::mul(zt(a), zt(b))); mpz_addmul(r, a, b); zset(r, t); }
API void W(submul)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *t = nullptr; if (zget(r) || zget(a) || zget(b)) t = ::sub(zt(r), ::mul(zt(a), zt(b))); mpz_submul(r, a, b); zset(r, t); }
API void W(addmul_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { Term *y = argT(0, 64, true, b, SELF(addmul_ui)); Term *t = ::add(zt(r), ::mul(zt(a), y)); mpz_addmul_ui(r, a, b); zset(r, t); }
API void W(submul_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { Term *y = argT(0, 64, true, b, SELF(submul_ui)); Term *t = ::sub(zt(r), ::mul(zt(a), y)); mpz_submul_ui(r, a, b); zset(r, t); }
API void W(neg)(mpz_ptr r, mpz_srcptr a) { Term *t = zget(a); if (t) t = ::neg(t); mpz_neg(r, a); zset(r, t); }
API void W(abs)(mpz_ptr r, mpz_srcptr a) { Term *t = zget(a); if (t) t = decide(mkLE0(::add(t, C(1L))), 0xab5) ? ::neg(t) : t; mpz_abs(r, a); zset(r, t); }
static int cmpT(Term *x, Term *y) { if (decide(mkLE0(sub(add(x, C(1L)), y)), 0xc3a)) return -1; if (decide(mkEQ0(sub(x, y)), 0xc3b)) return 0; return 1; }
API int W(cmp)(mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b); if (x || y) return cmpT(x ? x : C(zval(a)), y ? y : C(zval(b))); int r = mpz_cmp(a, b); return (r > 0) - (r < 0); }
API int W(cmp_si)(mpz_srcptr a, long b) { Term *x = zget(a), *y = argT(0, 64, false, b, SELF(cmp_si)); if (x || !isC(y)) return cmpT(x ? x : C(zval(a)), y); int r = mpz_cmp_si(a, b); return (r > 0) - (r < 0); }
API int W(cmp_ui)(mpz_srcptr a, unsigned long b) { Term *x = zget(a), *y = argT(0, 64, true, b, SELF(cmp_ui)); if (x || !isC(y)) return cmpT(x ? x : C(zval(a)), y); int r = mpz_cmp_ui(a, b); return (r > 0) - (r < 0); }
static Term *absT(Term *t) { return decide(mkLE0(add(t, C(1L))), 0xab6) ? neg(t) : t; }
API int W(cmpabs)(mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b); if (x || y) return cmpT(absT(x ? x : C(zval(a))), absT(y ? y : C(zval(b)))); int r = mpz_cmpabs(a, b); return (r > 0) - (r < 0); }
API int W(cmpabs_ui)(mpz_srcptr a, unsigned long b) { Term *x = zget(a), *y = argT(0, 64, true, b, SELF(cmpabs_ui)); if (x || !isC(y)) return cmpT(absT(x ? x : C(zval(a))), y); int r = mpz_cmpabs_ui(a, b); return (r > 0) - (r < 0); }
static void fdivT(Term *x, Term *y, Term **q, Term **r) { // floor
  bool nb = decide(mkLE0(add(y, C(1L))), 0x52); if (nb) { Term *qq = floorDiv(neg(x), neg(y)); if (q) *q = qq; if (r) *r = neg(floorMod(neg(x), neg(y))); } else { if (q) *q = floorDiv(x, y); if (r) *r = floorMod(x, y); }
}
#define DIVP(n, REM, kind) API void W(n)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (!decide(mkEQ0(y), 0xd0)) { if (kind) { if (REM) fdivT(x, y, nullptr, &t); else fdivT(x, y, &t, nullptr); } else t = truncDivMod(x, y, !REM); } } mpz_##n(r, a, b); zset(r, t); }
DIVP(tdiv_q, false, 0) DIVP(tdiv_r, true, 0) DIVP(fdiv_q, false, 1) DIVP(fdiv_r, true, 1)
API void W(mod)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (!decide(mkEQ0(y), 0xd0)) t = floorMod(x, absT(y)); } mpz_mod(r, a, b); zset(r, t); }
API void W(tdiv_qr)(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr, *u = nullptr; if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (!decide(mkEQ0(y), 0xd0)) { t = truncDivMod(x, y, true); u = truncDivMod(x, y, false); } } mpz_tdiv_qr(q, r, a, b); zset(q, t); zset(r, u); }
API void W(fdiv_qr)(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr, *u = nullptr; if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (!decide(mkEQ0(y), 0xd0)) fdivT(x, y, &t, &u); } mpz_fdiv_qr(q, r, a, b); zset(q, t); zset(r, u); }
static bool uiArgs(mpz_srcptr a, u64 b, void *self, Term *&x, Term *&y) { x = zget(a); y = argT(0, 64, true, b, self); if (!x && isC(y)) return false; if (!x) x = C(zval(a)); return !decide(mkEQ0(y), 0xd0); }
API unsigned long W(tdiv_q_ui)(mpz_ptr q, mpz_srcptr a, unsigned long b) { Term *x, *y, *t = nullptr, *u = nullptr; if (uiArgs(a, b, SELF(tdiv_q_ui), x, y)) { t = truncDivMod(x, y, true); u = absT(truncDivMod(x, y, false)); } unsigned long r = mpz_tdiv_q_ui(q, a, b); zset(q, t); if (u) retT(SELF(tdiv_q_ui), mk(u)); return r; }
API unsigned long W(fdiv_q_ui)(mpz_ptr q, mpz_srcptr a, unsigned long b) { Term *x, *y, *t = nullptr, *u = nullptr; if (uiArgs(a, b, SELF(fdiv_q_ui), x, y)) { t = floorDiv(x, y); u = floorMod(x, y); } unsigned long r = mpz_fdiv_q_ui(q, a, b); zset(q, t); if (u) retT(SELF(fdiv_q_ui), mk(u)); return r; }
API unsigned long W(fdiv_r_ui)(mpz_ptr q, mpz_srcptr a, unsigned long b) { Term *x, *y, *u = nullptr; if (uiArgs(a, b, SELF(fdiv_r_ui), x, y)) u = floorMod(x, y); unsigned long r = mpz_fdiv_r_ui(q, a, b); zset(q, u); if (u) retT(SELF(fdiv_r_ui), mk(u)); return r; }
API unsigned long W(fdiv_ui)(mpz_srcptr a, unsigned long b) { Term *x, *y, *u = nullptr; if (uiArgs(a, b, SELF(fdiv_ui), x, y)) u = floorMod(x, y); unsigned long r = mpz_fdiv_ui(a, b); if (u) retT(SELF(fdiv_ui), mk(u)); return r; }
API unsigned long W(tdiv_ui)(mpz_srcptr a, unsigned long b) { Term *x, *y, *u = nullptr; if (uiArgs(a, b, SELF(tdiv_ui), x, y)) u = floorMod(absT(x), y); unsigned long r = mpz_tdiv_ui(a, b); if (u) retT(SELF(tdiv_ui), mk(u)); return r; }
API void W(divexact)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (!decide(mkEQ0(y), 0xd0)) { if (!polyDivExact(x, y, t)) t = truncDivMod(x, y, true); } } mpz_divexact(r, a, b); zset(r, t); }
API void W(divexact_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { Term *x, *y, *t = nullptr; if (uiArgs(a, b, SELF(divexact_ui), x, y)) { if (!polyDivExact(x, y, t)) t = truncDivMod(x, y, true); } mpz_divexact_ui(r, a, b); zset(r, t); }
API int W(divisible_p)(mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b); if (x || y) { x = x ? x : C(zval(a)); y = y ? y : C(zval(b)); if (decide(mkEQ0(y), 0xd0)) return decide(mkEQ0(x), 0xd01); return decide(mkEQ0(floorMod(x, absT(y))), 0xd02); } return mpz_divisible_p(a, b) != 0; }
static Term *gcdT(Term *x, Term *y) {
  x = absT(x); y = absT(y); if (isC(x)) std::swap(x, y); if (isC(x)) return C(zgcd(cval(x), cval(y))); if (isC(y) && cval(y) == 0) return x; if (isC(y) && cval(y) == 1) return y; if (x == y) return x;
  Iv rx = iv(x), ry = iv(y); if ((rx.lo == 1 && rx.hi == 1)) return x; Term *q; if (!isC(y) || cval(y) != 0) { if (polyDivExact(x, y, q)) return y; if (polyDivExact(y, x, q) && rx.lo > 0) return x; }
  if (x->id > y->id) std::swap(x, y); return atomTerm(getAtom(GCD, x, y, zgcd(x->cv, y->cv)));
}
API void W(gcd)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x || y) t = gcdT(x ? x : C(zval(a)), y ? y : C(zval(b))); mpz_gcd(r, a, b); zset(r, t); }
API unsigned long W(gcd_ui)(mpz_ptr r, mpz_srcptr a, unsigned long b) { Term *x = zget(a), *y = argT(0, 64, true, b, SELF(gcd_ui)), *t = nullptr; if (x || !isC(y)) t = gcdT(x ? x : C(zval(a)), y); unsigned long v = mpz_gcd_ui(r, a, b); if (r) zset(r, t); if (t) retT(SELF(gcd_ui), mk(t)); return v; }
API void W(lcm)(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b), *t = nullptr; if (x || y) { x = absT(x ? x : C(zval(a))); y = absT(y ? y : C(zval(b))); if (decide(mkEQ0(x), 0x1c1) || decide(mkEQ0(y), 0x1c2)) t = nullptr; else { Term *g = gcdT(x, y); t = floorDiv(::mul(x, y), g); } } mpz_lcm(r, a, b); zset(r, t); }
API void W(pow_ui)(mpz_ptr r, mpz_srcptr a, unsigned long n) { concArg(argT(0, 64, true, n, SELF(pow_ui)), "pow exponent"); Term *x = zget(a), *t = nullptr; if (x && n < 64) { t = C(1L); for (unsigned long i = 0; i < n; ++i) t = ::mul(t, x); } else if (x) concretizeTerm(x, 0x90e, "pow"); mpz_pow_ui(r, a, n); zset(r, t); }
API void sx_gmp_unsup(void *p, const char *name) {
  if (!p) return; bool pure = strstr(name, "init") || strstr(name, "clear"); size_t span = strstr(name, "gmpq") ? 2 : 1;
  for (size_t i = 0; i < span; ++i) { mpz_srcptr z = (mpz_srcptr)p + i; Page *pg = pageOf((u64)&z->_mp_size); if (!pg || !pg->cnt) continue; if (!pure) { if (Term *t = zget(z)) { st.gmpunsup++; concretizeTerm(t, 0x605, name); } } zclear(z); }
}
#undef W
static int cmpMem(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; if (livePages) for (size_t i = 0; i < n;) {
    size_t k = (n - i >= 8) ? 8 : 1; u64 vx = 0, vy = 0; memcpy(&vx, x + i, k); memcpy(&vy, y + i, k); void *sx = sx_load((void *)(x + i), 8 * k, vx, 0), *sy = sx_load((void *)(y + i), 8 * k, vy, 0);
    if (sx || sy) { Term *tx = sx ? (Term *)sx : C(cw(vx, 0, 8 * k)), *ty = sy ? (Term *)sy : C(cw(vy, 0, 8 * k)); if (!decide(icmp(32, tx, ty, 8 * k), 0xcab)) return memcmp(x + i, y + i, k); } else if (vx != vy) return memcmp(x + i, y + i, k);
    i += k; } else return memcmp(a, b, n);
  return 0;
}
API int sx_w_memcmp(const void *a, const void *b, size_t n) { return cmpMem(a, b, n); }
API int sx_w_bcmp(const void *a, const void *b, size_t n) { return cmpMem(a, b, n); }

// ------------------------------------------------------------------ harness API
static Term *newVar(const char *name, const Z &lo, const Z &hi) {
  auto vi = varIdx.find(name); if (vi != varIdx.end()) return atomTerm(vi->second);
  Atom *A = new Atom; A->k = VAR; A->name = name; A->lo = lo; A->hi = hi; A->id = atoms.size(); auto it = model.find(name);
  if (it != model.end()) A->cv = it->second; else { A->cv = lo <= 0 && hi >= 0 ? Z(0) : lo > 0 ? lo : hi; } if (A->cv < lo) A->cv = lo; if (A->cv > hi) A->cv = hi;
  size_t n = varIdx.size(); A->vars.assign(n / 64 + 1, 0); A->vars[n / 64] |= 1ull << (n % 64); atoms.push_back(A); varIdx[name] = A->id; return atomTerm(A->id);
}
API i64 sx_int(const char *name, i64 lo, i64 hi) { Term *t = newVar(name, zs(lo), zs(hi)); retT((void *)&sx_int, mk(t)); return t->cv.get_si(); }
API void sx_mpz(mpz_ptr z, const char *name, const char *lo, const char *hi) { Term *t = newVar(name, Z(lo), Z(hi)); mpz_set(z, t->cv.get_mpz_t()); zset(z, t); }
API int sx_choice(const char *name, int n) { Term *t = newVar(name, Z(0), Z(n - 1)); concretizeTerm(t, 0xc401ce, "choice"); return t->cv.get_si(); }
static Bx *argB(int i, bool v, void *self) { if (sx_callee != self || !sx_args[i]) return BC(v); return (Bx *)sx_args[i]; }
API void sx_assume(bool c) { Bx *b = argB(0, c, (void *)&sx_assume); sx_callee = nullptr; bool v = b->k == BCONST ? c : decide(b, 0xa55); if (!v) finish("assume"); }
// assertions: z3 first; the finite-domain back end only when z3 gives up and the domain is small
static Res tryAnd(Bx *g, std::map<std::string, Z> &m) { std::vector<u64> vs; bxVars(g, vs); slice(vs, nullptr); bool fd = getFD(vs) != nullptr; i64 o = optTimeout; if (fd) optTimeout = std::min<i64>(o, 600); Res r = solve({g}, m, false); optTimeout = o; if (r == UNK && fd) { st.unk--; r = solve({g}, m, true); } return r; }
static void checkB(Bx *b, bool c, const char *msg) {
  sx_callee = nullptr; st.checks++;
  if (b->k != BCONST && b->cv != c) { st.mism++; b = BC(c); }
  if (!c) { pathMsg = msg; finish("violation"); }
  checksPassed++;
  if (b->k == BCONST) { st.chksyn++; return; }
  u64 idx = nTrace; u32 h = mix(0xc4ec, b->k); u32 res;
  if (idx < bound) { Entry e = (*prefix)[idx]; if (e.h != h) diverge(); res = e.implied; st.chksyn++; } // decided on the path this one was forked from
  else {
    Bx *n = bNot(b); std::map<std::string, Z> m; st.chkq++;
    Res r = tryAnd(n, m); res = r == SAT ? 0 : r == UNSAT ? 1 : 2;
    if (r == UNSAT) st.chkunsat++; else if (r == UNK) st.chkunk++; else { emit(std::string("CEX ") + msg + " | " + modelStr(m)); sendItem(~0ull, m); }
  }
  record(h, res);
  if (res) { if (b->k == LE0 || b->k == EQ0 || b->k == NE0 || b->k == AND) tighten(b); }
}
API void sx_check(bool c, const char *msg) { checkB(argB(0, c, (void *)&sx_check), c, msg); }
API void sx_check_eqz(mpz_srcptr a, mpz_srcptr b, const char *msg) { Term *x = zget(a), *y = zget(b); bool c = mpz_cmp(a, b) == 0; if (!x && !y) { checkB(BC(c), c, msg); return; } checkB(mkEQ0(sub(x ? x : C(zval(a)), y ? y : C(zval(b)))), c, msg); }
API bool sx_eqz(mpz_srcptr a, mpz_srcptr b) { Term *x = zget(a), *y = zget(b); sx_callee = nullptr; if (!x && !y) return mpz_cmp(a, b) == 0; return decide(mkEQ0(sub(x ? x : C(zval(a)), y ? y : C(zval(b)))), 0xe9a); }
API void sx_reach(const char *w) { reached.insert(w); }
API i64 sx_value(i64 v) { void *s = sx_callee == (void *)&sx_value ? sx_args[0] : nullptr; sx_callee = nullptr; if (s) concretizeTerm(sval(desize((Term *)s), 64), 0x7a1, "value"); return v; }
API int sx_symbolic(void) { return 1; }
API void sx_opt(const char *n, i64 v) { if (!strcmp(n, "conc")) optConc = v; if (!strcmp(n, "fd")) optFD = v; if (!strcmp(n, "divconc")) optDivConc = v; if (!strcmp(n, "timeout")) optTimeout = v; if (!strcmp(n, "path")) { optPath = v; if (inChild) alarm(v); } }
API void sx_obs(i64 v) { obsHash = (obsHash ^ (u64)v) * 1099511628211ull; }
static std::vector<std::pair<std::string, void (*)()>> &regs() { static std::vector<std::pair<std::string, void (*)()>> r; return r; }
API void sx_register(const char *n, void (*f)()) { regs().push_back({n, f}); }
// deterministic stand-in for std::random_device
API void sx_dummy() {}

// ------------------------------------------------------------------ driver
static void onSig(int s) { static int in = 0; if (in++) _exit(3); if (s == SIGALRM) finish("timeout"); pathMsg = std::string("signal ") + strsignal(s); finish("crash"); }
static void onTerm() { std::string m = "terminate"; if (auto *t = abi::__cxa_current_exception_type()) { m += " "; m += t->name(); } pathMsg = m; finish("crash"); }
struct Item { std::shared_ptr<std::vector<Entry>> pre; u64 bound; std::map<std::string, Z> m; bool confirm = false; };
static std::map<std::string, Z> parseModel(const std::string &s) { std::map<std::string, Z> m; std::istringstream is(s); std::string t; while (is >> t) { size_t e = t.rfind('='); m[t.substr(0, e)] = Z(t.substr(e + 1)); } return m; }
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o; }
static struct InitAll { InitAll() { // before any static initialiser of the program under test
  top = (Page ***)mmap(nullptr, sizeof(Page **) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  monoId(Mono{}); bTrue = mkB(BCONST, nullptr, nullptr, nullptr, true); bFalse = new Bx; bFalse->k = BCONST; bFalse->cv = false; bFalse->id = nBx++; } } initAll;
API int main_sx(int argc, char **argv);
int main_sx(int argc, char **argv) {
  std::string want, out = "-"; double budget = 30; u64 maxPaths = 1000000; int jobs = 8; std::map<std::string, Z> init; bool single = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-h") want = argv[++i]; else if (a == "-o") out = argv[++i]; else if (a == "-t") budget = atof(argv[++i]); else if (a == "-n") maxPaths = atoll(argv[++i]); else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-m") { init = parseModel(argv[++i]); } else if (a == "-1") single = true; else if (a == "-l") { for (auto &r : regs()) puts(r.first.c_str()); return 0; } }
  void (*fn)() = nullptr; for (auto &r : regs()) if (r.first == want) fn = r.second; if (!fn) { fprintf(stderr, "no harness %s\n", want.c_str()); return 2; }
  traceCap = 1 << 20; size_t slotBytes = sizeof(Entry) * traceCap + 64;
  struct Slot { pid_t pid = 0; int fd = -1; char *shm; std::string buf; std::vector<Item> kids; Item item; std::string end; double start; }; std::vector<Slot> slots(jobs);
  for (auto &s : slots) s.shm = (char *)mmap(nullptr, slotBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::deque<Item> work; Item first; first.pre = std::make_shared<std::vector<Entry>>(); first.bound = 0; first.m = init; work.push_back(first);
  double t0 = now(); u64 paths = 0, started = 0; std::map<std::string, u64> ends; std::vector<u64> S(17, 0); double qt = 0, mq = 0; u64 fdc = 0, fdcq = 0, fdbad = 0; double fdct = 0; std::vector<std::string> badM; i64 confEvery = getenv("SX_CONFIRM") ? atoll(getenv("SX_CONFIRM")) : 0; u64 trunc = 0, fdq = 0; double fdt = 0; std::set<std::string> R, F, CW; std::vector<std::string> viol, cex, models; u64 maxTerms = 0; bool stop = false, incomplete = false; std::set<std::string> violSeen; std::vector<std::string> timeouts; double budgetEnd = t0 + budget; u64 maxTrace = 0;
  auto handle = [&](Slot &s, const std::string &l) {
    if (l.compare(0, 5, "ITEM ") == 0) { Item it; it.bound = strtoull(l.c_str() + 5, nullptr, 10); size_t b = l.find('|'); it.m = parseModel(l.substr(b + 1)); if (it.bound == ~0ull) { it.confirm = true; it.bound = 0; } s.kids.push_back(std::move(it)); }
    else if (l.compare(0, 5, "STAT ") == 0) { std::istringstream is(l.substr(5)); u64 v; for (int i = 0; i < 17; ++i) { is >> v; S[i] += v; } double a, b; is >> a >> b; qt += a; mq = std::max(mq, b); is >> v; maxTerms = std::max(maxTerms, v); is >> v >> a; fdq += v; fdt += a; }
    else if (l.compare(0, 7, "FDCONF ") == 0) { std::istringstream is(l.substr(7)); u64 v; double a; is >> v; fdc += v; is >> v; fdcq += v; is >> v; fdbad += v; is >> a; fdct += a; if (v) badM.push_back(modelStr(s.item.m)); }
    else if (l.compare(0, 6, "REACH ") == 0) R.insert(l.substr(6)); else if (l.compare(0, 5, "FUNC ") == 0) F.insert(l.substr(5)); else if (l.compare(0, 5, "CONC ") == 0) CW.insert(l.substr(5));
    else if (l.compare(0, 4, "END ") == 0) s.end = l.substr(4); else if (l.compare(0, 4, "MSG ") == 0) s.end += "\x01" + l.substr(4);
    else if (l.compare(0, 4, "CEX ") == 0) cex.push_back(l.substr(4));
  };
  while (!stop) {
    int run = 0; for (auto &s : slots) if (s.pid) run++;
    if (work.empty() && !run) break;
    double nw = now();
    if (nw > budgetEnd || started >= maxPaths) { if (!work.empty() || (nw > budgetEnd + 0 && run)) incomplete = true; if (nw > budgetEnd) { for (auto &s : slots) if (s.pid) { kill(s.pid, SIGKILL); waitpid(s.pid, nullptr, 0); s.pid = 0; close(s.fd); } break; } if (!run) break; }
    for (auto &s : slots) if (!s.pid && !work.empty() && started < maxPaths) {
      s.item = std::move(work.front()); work.pop_front(); started++; s.kids.clear(); s.buf.clear(); s.end.clear(); *(u64 *)s.shm = 0; int pf[2]; if (pipe(pf)) abort(); s.start = now(); fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (!p) {
        if (confEvery > 0 && started % confEvery == 0) optConfirm = 1;
        close(pf[0]); outfd = pf[1]; inChild = true; model = s.item.m; prefix = s.item.pre.get(); bound = s.item.bound; traceLen = (u64 *)s.shm; trace = (Entry *)(s.shm + 64);
        static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int g : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) sigaction(g, &sa, nullptr);
        rlimit rl{3ull << 30, 3ull << 30}; (void)rl; std::set_terminate(onTerm); alarm(optPath); if (!getenv("SX_DEBUG")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
        sx_callee = nullptr; sx_retfn = nullptr;
        try { fn(); } catch (...) { onTerm(); }
        finish("ok");
      }
      close(pf[1]); s.pid = p; s.fd = pf[0];
    }
    std::vector<pollfd> pf; std::vector<int> ix; for (size_t i = 0; i < slots.size(); ++i) if (slots[i].pid) { pf.push_back({slots[i].fd, POLLIN, 0}); ix.push_back(i); }
    if (pf.empty()) continue; poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents) {
      Slot &s = slots[ix[k]]; char b[65536]; ssize_t n = read(s.fd, b, sizeof b);
      if (n > 0) { s.buf.append(b, n); size_t p; size_t o = 0; while ((p = s.buf.find('\n', o)) != std::string::npos) { handle(s, s.buf.substr(o, p - o)); o = p + 1; } s.buf.erase(0, o); continue; }
      close(s.fd); int wst; waitpid(s.pid, &wst, 0); s.pid = 0; paths++;
      u64 len = *(u64 *)s.shm; maxTrace = std::max(maxTrace, len); if (len > traceCap) { incomplete = true; len = traceCap; }
      Entry *tr = (Entry *)(s.shm + 64); auto pre = std::make_shared<std::vector<Entry>>(tr, tr + len);
      if (s.end.empty()) { s.end = WIFSIGNALED(wst) ? std::string("killed 0 0 | ") + modelStr(s.item.m) + "\x01signal " + std::to_string(WTERMSIG(wst)) : std::string("killed 0 0 | ") + modelStr(s.item.m); }
      std::string how = s.end.substr(0, s.end.find(' ')); std::string msg; std::string e = s.end; size_t mp = e.find('\x01'); if (mp != std::string::npos) { msg = e.substr(mp + 1); e = e.substr(0, mp); } std::string mod = e.substr(e.find('|') + 2);
      std::string hs = e.substr(e.find(' ') + 1, e.find('|') - e.find(' ') - 2);
      ends[how]++;
      if (how == "violation" || how == "crash") { std::string key = how + msg; if (violSeen.insert(key).second || viol.size() < 20) viol.push_back(how + "\x01" + msg + "\x01" + mod); if (viol.size() >= 20) { stop = true; } }
      else if (how == "timeout" || how == "killed") { incomplete = true; if (timeouts.size() < 20) timeouts.push_back(mod); }
      else if (how == "diverged") incomplete = true;
      if (how == "ok" || how == "assume") if (models.size() < 20000) models.push_back(hs + " | " + mod);
      for (auto &kid : s.kids) { if (single) break; kid.pre = pre; if (kid.confirm) { kid.pre = std::make_shared<std::vector<Entry>>(); kid.bound = 0; work.push_front(std::move(kid)); } else work.push_back(std::move(kid)); }
      if (single) stop = true;
    }
  }
  for (auto &s : slots) if (s.pid) { kill(s.pid, SIGKILL); waitpid(s.pid, nullptr, 0); }
  std::ostringstream o; o << "{\"harness\":\"" << want << "\",\"paths\":" << paths << ",\"pending\":" << work.size() << ",\"complete\":" << ((incomplete || !work.empty() || S[4] || S[11] || S[15]) ? "false" : "true") << ",\"wall\":" << now() - t0 << ",\"max_decisions\":" << maxTrace;
  const char *nm[] = {"branches", "queries", "sat", "unsat", "unknown", "checks", "check_queries", "check_unsat", "check_syntactic", "check_unknown", "concretizations", "conc_truncated", "stale", "mismatch", "gmp_unsupported", "diverged", "validate_fail"};
  for (int i = 0; i < 17; ++i) o << ",\"" << nm[i] << "\":" << S[i]; o << ",\"solver_s\":" << qt << ",\"max_query_s\":" << mq << ",\"fd_queries\":" << fdq << ",\"fd_s\":" << fdt << ",\"fd_confirmed\":" << fdc << ",\"fd_confirm_queries\":" << fdcq << ",\"fd_refuted\":" << fdbad << ",\"fd_confirm_s\":" << fdct << ",\"max_terms\":" << maxTerms << ",\"ends\":{"; bool f = true; for (auto &e : ends) { o << (f ? "" : ",") << "\"" << e.first << "\":" << e.second; f = false; }
  auto list = [&](const char *n, auto &v) { o << ",\"" << n << "\":["; bool f = true; for (auto &x : v) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; } o << "]"; };
  o << "}"; list("reached", R); list("functions", F); list("conc_sites", CW); list("cex", cex); list("timeouts", timeouts); list("models", models); o << ",\"violations\":["; f = true; for (auto &v : viol) { size_t a = v.find('\x01'), b = v.find('\x01', a + 1); o << (f ? "" : ",") << "{\"kind\":\"" << jesc(v.substr(0, a)) << "\",\"msg\":\"" << jesc(v.substr(a + 1, b - a - 1)) << "\",\"model\":\"" << jesc(v.substr(b + 1)) << "\"}"; f = false; } o << "]}";
  if (out == "-") puts(o.str().c_str()); else { std::ofstream(out) << o.str() << "\n"; }
  return viol.empty() ? 0 : 1;
}
