// dv: deductive verification engine for C programs compiled to LLVM IR.
//
// Symbolic execution of the IR of the *real* code (compiled from /repo on every
// run).  Integers, pointers and control are concrete (or affine in a symbolic loop
// range), doubles are mathematical reals.  A real is represented by its image under
// a random homomorphism into GF(p) (and GF(q), the exponent field of exp), i.e. the
// polynomial-identity decision procedure (Schwartz-Zippel) is evaluated along the
// execution; a double shadow at a sample point decides branches, each of which is
// reported to the driver as a path condition ("site").
// Loops whose trip count is symbolic are cut by an inferred, then checked,
// inductive invariant (accumulator / pointwise map / scratch).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef int64_t i64;

// ---------------------------------------------------------------- fields
struct PrimeSet { u64 p, q, k; };
static const PrimeSet PRIMES[8] = { // p = 2qk+1, p,q prime, both 3 mod 4; every prime <= 83 is a quadratic residue mod p
    {2331700923849005231ull, 233170092384900523ull, 5},
    {2550539023969378991ull, 255053902396937899ull, 5},
    {2345319686141649311ull, 234531968614164931ull, 5},
    {2827215326808897911ull, 282721532680889791ull, 5},
    {437429512868801879ull, 218714756434400939ull, 1},
    {4318214969660809439ull, 166085191140800363ull, 13},
    {2274876392756112911ull, 227487639275611291ull, 5},
    {1883455072433809871ull, 188345507243380987ull, 5}};
static u64 P, Q, G;
static long double PI_, QI_;
static u64 SEED;

static inline u64 mulP(u64 a, u64 b) {
    u64 q = (u64)((long double)a * (long double)b * PI_);
    i64 r = (i64)(a * b - q * P);
    while (r < 0) r += P;
    while (r >= (i64)P) r -= P;
    return (u64)r;
}
static inline u64 mulQ(u64 a, u64 b) {
    u64 q = (u64)((long double)a * (long double)b * QI_);
    i64 r = (i64)(a * b - q * Q);
    while (r < 0) r += Q;
    while (r >= (i64)Q) r -= Q;
    return (u64)r;
}
static inline u64 addP(u64 a, u64 b) { u64 r = a + b; return r >= P ? r - P : r; }
static inline u64 subP(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static inline u64 addQ(u64 a, u64 b) { u64 r = a + b; return r >= Q ? r - Q : r; }
static inline u64 subQ(u64 a, u64 b) { return a >= b ? a - b : a + Q - b; }
static u64 powP(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulP(r, a); a = mulP(a, a); e >>= 1; } return r; }
static u64 powQ(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulQ(r, a); a = mulQ(a, a); e >>= 1; } return r; }
static u64 invM(u64 a, u64 m) {
    i128 t0 = 0, t1 = 1; u64 r0 = m, r1 = a % m;
    while (r1) { u64 qq = r0 / r1; i128 t2 = t0 - (i128)qq * t1; t0 = t1; t1 = t2; u64 r2 = r0 - qq * r1; r0 = r1; r1 = r2; }
    if (t0 < 0) t0 += m;
    return (u64)t0;
}
static u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
static u64 hash2(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ull + mix(b + 0x632be59bd9b4e019ull)); }
static u64 hashstr(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return mix(h); }
static u64 rngstate = 1;
static u64 rnd() { rngstate += 0x9e3779b97f4a7c15ull; return mix(rngstate); }

// ---------------------------------------------------------------- values
enum : uint8_t { K_UNDEF = 0, K_INT, K_SYM, K_REAL, K_PTR, K_FUNC, K_AGG, K_ZERO /*memory only*/, K_CONT /*memory only*/, K_SBOOL };
enum : uint8_t { F_CONST = 1, F_MARK = 2, F_GARB = 4, F_SYMDEP = 8 };
struct Val {
    uint8_t kind = K_UNDEF, flags = 0; uint16_t size = 0;
    int32_t a = 0;   // obj id / func id / agg idx / symbol id
    i64 i = 0;       // int value / ptr offset / sym const
    u64 v = 0, w = 0;// field images; K_SYM: v = coef (i64); K_PTR: v = coef, w = symbol id
    double x = 0;
};
static_assert(sizeof(Val) == 40, "Val");

struct Fatal { int code; };           // 1 violation, 2 unsupported, 3 reseed
enum { ST_OK = 0, ST_FATAL = 1, ST_UNSUP = 2, ST_RESEED = 3 };

struct Event { std::string kind, func, msg; int line; u64 count; };
static std::vector<Event> events;
static std::map<std::string, size_t> eventIdx;

struct Site { std::string func, kind; int line; bool t = false, f = false; u64 nt = 0, nf = 0; int cls = 0; double thr = 0; double mind = 1e300; int forced = -1; };
static std::vector<Site> sites;
static std::unordered_map<u64, int> siteIdx; // key -> idx

static const char *curFunc = "";
static int curLine = 0;

static void event(const char *kind, const std::string &msg) {
    std::string key = std::string(kind) + "|" + curFunc + "|" + std::to_string(curLine) + "|" + msg;
    auto it = eventIdx.find(key);
    if (it != eventIdx.end()) { events[it->second].count++; return; }
    if (events.size() > 2000) return;
    eventIdx[key] = events.size();
    events.push_back({kind, curFunc, msg, curLine, 1});
}
[[noreturn]] static void violate(const char *kind, const std::string &msg) { event(kind, msg); throw Fatal{ST_FATAL}; }
[[noreturn]] static void unsup(const std::string &msg) { event("UNSUPPORTED", msg); throw Fatal{ST_UNSUP}; }

static bool needReseed = false;
static u64 obCount = 0; // built-in (safety) obligations checked
static u64 stepCount = 0, stepLimit = ~0ull;

// ---------------------------------------------------------------- reals
static inline Val mkInt(i64 v) { Val r; r.kind = K_INT; r.i = v; return r; }
static inline void norm0(Val &r) { if (r.v == 0 && r.w == 0) { r.x = 0; r.flags = (r.flags & ~(F_MARK | F_GARB)) | F_CONST; } }
static Val mkRat(i128 n, u128 d, double x) {
    Val r; r.kind = K_REAL; r.flags = F_CONST; r.x = x;
    bool neg = n < 0; u128 an = neg ? (u128)(-n) : (u128)n;
    u64 vp = (u64)(an % P), vq = (u64)(an % Q);
    if (d != 1) { vp = mulP(vp, invM((u64)(d % P), P)); vq = mulQ(vq, invM((u64)(d % Q), Q)); }
    if (neg) { vp = subP(0, vp); vq = subQ(0, vq); }
    r.v = vp; r.w = vq; return r;
}
static Val PIv, SQPIv;
static bool isQR(u64 a) { return a == 0 || powP(a, (P - 1) / 2) == 1; }
static Val prfVal(u64 h, double x) { Val r; r.kind = K_REAL; r.x = x; h = hash2(h, SEED); r.v = mix(h ^ 0x1234567) % P; r.w = mix(h ^ 0x89abcdef01ull) % Q; if (!r.v) r.v = 1; return r; }
static Val rmul(const Val &a, const Val &b);
static Val rsqrt_(const Val &a);
static std::unordered_map<u64, Val> constCache;
// best rational n/m with n*m small
static bool ratRecog(double d, i128 &n, u64 &m, double lim, double eps = 2.3e-16) {
    double x = fabs(d); if (x == 0 || x > 1e15 || x < 1e-12) return false;
    // continued fraction
    u128 p0 = 0, q0 = 1, p1 = 1, q1 = 0; long double y = x;
    for (int it = 0; it < 40; it++) {
        long double f = floorl(y); if (f > 1e16) return false; u128 a = (u128)f;
        u128 p2 = a * p1 + p0, q2 = a * q1 + q0;
        if ((long double)p2 * (long double)q2 > lim) return false;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        double c = (double)((long double)p1 / (long double)q1);
        if (fabs(c - x) <= eps * x) { n = d < 0 ? -(i128)p1 : (i128)p1; m = (u64)q1; return true; }
        long double fr = y - f; if (fr < 1e-18L) return false; y = 1.0L / fr;
    }
    return false;
}
static std::map<double, Val> factTab;
static void buildFactTab() {
    factTab.clear();
    auto put = [&](u64 vp, u64 vq, long double x) {
        double d = (double)x; if (std::isinf(d)) return;
        Val r; r.kind = K_REAL; r.flags = F_CONST; r.v = vp; r.w = vq; r.x = d; factTab[d] = r;
    };
    u64 vp = 1, vq = 1; long double x = 1;
    for (int n = 1; n <= 170; n++) { vp = mulP(vp, n); vq = mulQ(vq, n); x *= n; if (n > 15) put(vp, vq, x); }
    for (int s = 1; s <= 2; s++) { vp = vq = 1; x = 1; for (int n = s; n <= 300; n += 2) { vp = mulP(vp, n); vq = mulQ(vq, n); x *= n; if (n > 15) put(vp, vq, x); } }
}
static Val constReal(double d) {
    u64 key; memcpy(&key, &d, 8);
    auto it = constCache.find(key); if (it != constCache.end()) return it->second;
    Val r; bool done = false;
    if (d == 0) { r = mkRat(0, 1, 0); done = true; }
    if (!done && (std::isnan(d) || std::isinf(d))) { r = prfVal(hash2(key, 77), d); r.flags = F_CONST; done = true; }
    if (!done && fabs(d) < 9.0e15 && d == floor(d)) { r = mkRat((i128)d, 1, d); done = true; }
    if (!done) { double s = d * 1048576.0; if (fabs(s) < 9.0e15 && s == floor(s)) { r = mkRat((i128)s, 1048576, d); done = true; } }
    if (!done) { // factorial-like
        for (int inv = 0; inv < 2 && !done; inv++) {
            double t = inv ? 1.0 / fabs(d) : fabs(d);
            auto lb = factTab.lower_bound(t * (1 - 5e-16));
            if (lb != factTab.end() && fabs(lb->first - t) <= 4.5e-16 * t) {
                r = lb->second; r.x = d; if (inv) { r.v = invM(r.v, P); r.w = invM(r.w, Q); }
                if (d < 0) { r.v = subP(0, r.v); r.w = subQ(0, r.w); }
                done = true;
            }
        }
    }
    i128 n; u64 m;
    if (!done && ratRecog(d, n, m, 3.0e10)) { r = mkRat(n, m, d); done = true; }
    if (!done) { // rational * pi^{j/2}
        static const long double PIL = 3.14159265358979323846264338327950288L;
        for (int j = -8; j <= 8 && !done; j++) if (j) {
            long double pw = powl(PIL, j / 2.0L);
            double t = (double)(d / pw);
            if (ratRecog(t, n, m, 1e7, abs(j) >= 4 ? 8e-16 : 2.3e-16)) {
                r = mkRat(n, m, d); Val s = SQPIv; if (j < 0) { s.v = invM(s.v, P); s.w = invM(s.w, Q); }
                for (int k = 0; k < abs(j); k++) { r.v = mulP(r.v, s.v); r.w = mulQ(r.w, s.w); }
                r.flags = F_CONST; r.x = d; done = true; break;
            }
        }
        for (int j = -4; j <= 4 && !done; j++) { // d^2 = rational * pi^j
            long double pw = powl(PIL, j);
            double t = (double)((long double)d * d / pw);
            if (ratRecog(t, n, m, 1e6)) {
                Val s = mkRat(n, m, t); if (!isQR(s.v)) continue;
                r = rsqrt_(s); Val e = SQPIv; if (j < 0) { e.v = invM(e.v, P); e.w = invM(e.w, Q); }
                for (int k = 0; k < abs(j); k++) { r.v = mulP(r.v, e.v); r.w = mulQ(r.w, e.w); }
                if (d < 0) { r.v = subP(0, r.v); r.w = subQ(0, r.w); }
                r.flags = F_CONST; r.x = d; done = true; break;
            }
        }
    }
    if (!done && fabs(d) > 1e-30 && fabs(d) < 1e30) { // d^2 = (2n+1)!!^(+-1) 2^(k/2) pi^(j/2)  (normalisation factors of radial Gaussians)
        static const long double PIL = 3.14159265358979323846264338327950288L;
        for (int j = -3; j <= 3 && !done; j++) for (int s2 = 0; s2 < 2 && !done; s2++) for (int inv = 0; inv < 2 && !done; inv++) {
            long double y = (long double)d * d / powl(PIL, j / 2.0L); if (s2) y /= sqrtl(2.0L);
            if (inv) y = 1 / y;
            int e; double mant = (double)frexpl(y, &e);
            long double f = 1; u64 fp = 1, fq = 1;
            for (int n = 1; n <= 61; n += 2) {
                f *= n; fp = mulP(fp, n); fq = mulQ(fq, n); int e2; double m2 = (double)frexpl(f, &e2);
                if (fabs(m2 - mant) > 4e-15 * mant) continue;
                Val t; t.kind = K_REAL; t.flags = F_CONST; int k = e - e2; u64 tp = powP(2, abs(k)), tq = powQ(2, abs(k));
                if (k < 0) { tp = invM(tp, P); tq = invM(tq, Q); }
                t.v = mulP(fp, tp); t.w = mulQ(fq, tq); if (inv) { t.v = invM(t.v, P); t.w = invM(t.w, Q); }
                t.x = (double)((long double)d * d);
                Val sp = SQPIv; if (j < 0) { sp.v = invM(sp.v, P); sp.w = invM(sp.w, Q); }
                for (int q = 0; q < abs(j); q++) { t.v = mulP(t.v, sp.v); t.w = mulQ(t.w, sp.w); }
                if (s2) { Val two = mkRat(2, 1, 2); if (!isQR(two.v)) continue; Val r2 = rsqrt_(two); t.v = mulP(t.v, r2.v); t.w = mulQ(t.w, r2.w); }
                if (!isQR(t.v)) continue;
                r = rsqrt_(t); if (d < 0) { r.v = subP(0, r.v); r.w = subQ(0, r.w); }
                r.flags = F_CONST; r.x = d; done = true; break;
            }
        }
    }
    if (!done) { // exact dyadic value
        int e; double f = frexp(d, &e); i64 mant = (i64)ldexp(f, 53); e -= 53;
        r = mkRat(mant, 1, d); u64 tp = powP(2, abs(e)), tq = powQ(2, abs(e));
        if (e < 0) { tp = invM(tp, P); tq = invM(tq, Q); }
        r.v = mulP(r.v, tp); r.w = mulQ(r.w, tq);
    }
    constCache[key] = r; return r;
}
static inline uint8_t tf(const Val &a, const Val &b) { return (a.flags & b.flags & F_CONST) | ((a.flags | b.flags) & (F_MARK | F_GARB)); }
static inline Val radd(const Val &a, const Val &b) { Val r; r.kind = K_REAL; r.flags = tf(a, b); r.v = addP(a.v, b.v); r.w = addQ(a.w, b.w); r.x = a.x + b.x; norm0(r); return r; }
static inline Val rsub(const Val &a, const Val &b) { Val r; r.kind = K_REAL; r.flags = tf(a, b); r.v = subP(a.v, b.v); r.w = subQ(a.w, b.w); r.x = a.x - b.x; norm0(r); return r; }
static Val rmul(const Val &a, const Val &b) { Val r; r.kind = K_REAL; r.flags = tf(a, b); r.v = mulP(a.v, b.v); r.w = mulQ(a.w, b.w); r.x = a.x * b.x; norm0(r); return r; }
static inline Val rneg(const Val &a) { Val r = a; r.v = subP(0, a.v); r.w = subQ(0, a.w); r.x = -a.x; return r; }
static Val rdiv(const Val &a, const Val &b) {
    obCount++;
    if (b.v == 0) {
        event("DIV0", "real division by zero");
        Val r = prfVal(hash2(a.v, 0xd1), NAN); r.flags = F_GARB; return r;
    }
    Val r; r.kind = K_REAL; r.flags = tf(a, b);
    r.v = mulP(a.v, invM(b.v, P)); r.w = b.w ? mulQ(a.w, invM(b.w, Q)) : hash2(a.w, 3) % Q; r.x = a.x / b.x; norm0(r); return r;
}
static Val rsqrt_(const Val &a) {
    if (a.v == 0) return a;
    obCount++;
    if (a.x < 0) event("SQRTNEG", "sqrt of a negative number");
    Val r = a; r.x = sqrt(a.x);
    r.v = powP(a.v, (P + 1) / 4);
    if (mulP(r.v, r.v) != a.v) {
        if (a.flags & F_CONST) { // constant with a non-residue factor: use sqrt(-a)*PRF(i)
            Val t = prfVal(0x51c0157ull, 0); r.v = mulP(powP(subP(0, a.v), (P + 1) / 4), t.v);
        } else needReseed = true;
    }
    r.w = powQ(a.w, (Q + 1) / 4);
    if (mulQ(r.w, r.w) != a.w) r.w = hash2(a.w, 0x5c) % Q;
    return r;
}
static Val rprf1(const char *tag, const Val &a, double x) { Val r = prfVal(hash2(hash2(hashstr(tag), a.v), a.w), x); r.flags = a.flags & (F_CONST | F_MARK | F_GARB); return r; }
static Val rexp(const Val &a) {
    if (a.v == 0 && a.w == 0) return constReal(1.0);
    Val r = a; r.x = exp(a.x); r.v = powP(G, a.w); r.w = hash2(r.v, 0xe4) % Q; return r;
}
static Val rpowi(const Val &a, i64 n) {
    if (n == 0) return constReal(1.0);
    bool neg = n < 0; u64 e = neg ? -n : n;
    Val r = a; r.v = powP(a.v, e); r.w = powQ(a.w, e); r.x = pow(a.x, (double)e); norm0(r);
    if (neg) return rdiv(constReal(1.0), r);
    return r;
}
static Val rpow(const Val &a, const Val &b) {
    if (b.flags & F_CONST) {
        double y = b.x;
        if (y == floor(y) && fabs(y) < 4096) return rpowi(a, (i64)y);
        if (4 * y == floor(4 * y) && 2 * y != floor(2 * y) && fabs(y) < 1024) { Val s = rsqrt_(rsqrt_(a)); Val r = rpowi(s, (i64)(4 * y)); r.x = pow(a.x, y); return r; }
        if (2 * y == floor(2 * y) && fabs(y) < 2048) { Val s = rsqrt_(a); Val r = rpowi(s, (i64)(2 * y)); r.x = pow(a.x, y); return r; }
    }
    Val r = prfVal(hash2(hash2(hash2(hashstr("pow"), a.v), b.v), a.w ^ b.w), pow(a.x, b.x)); r.flags = tf(a, b); return r;
}

// ---------------------------------------------------------------- symbolic ranges
struct Range { std::string name; Val omega; int active = 0; };
static std::vector<Range> ranges; // symbol ids: 2*r = n_r, 2*r+1 = kappa_r
static bool discovery = false;
static const int POISON = -77;

// ---------------------------------------------------------------- memory
struct Cell { Val v; uint32_t epoch = 0; };
enum { PAGE = 64 };
struct Page { Cell c[PAGE]; };
enum { OF_INPUT = 1, OF_OUTPUT = 2, OF_GLOBAL = 4, OF_HEAP = 8, OF_STACK = 16, OF_SYM = 32 , OF_CONSTG = 64};
struct SymSlot { int off; int size; Val val; bool written; };
struct Obj {
    std::string name; u64 size = 0; int flags = 0; bool alive = true; bool zero = false; uint32_t birth = 0;
    std::vector<std::unique_ptr<Page>> pages;
    const llvm::Constant *init = nullptr; llvm::Type *ity = nullptr;
    // symbolic-length object: size = esz * n_range
    int range = -1; int esz = 0; std::vector<SymSlot> slots; bool hasFirst = false; Val first;
    bool symZero = false;
    int line = 0; const char *fn = "";
};
static std::vector<Obj *> objs;
static uint32_t epoch = 0;      // current checkpoint epoch (0: none)
static uint32_t epochCounter = 0;
struct JEnt { int type; int obj; int cell; Val old; uint32_t oldEpoch; }; // type 0 cell, 1 alloc, 2 free, 3 slot
static std::vector<JEnt> journal;
static bool frameCheck = false;
static int frameMark = 0;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Value *, int> globalObj;
static std::unordered_map<const llvm::Value *, int> funcId;

static int newObj(u64 size, int flags, const std::string &name) {
    Obj *o = new Obj; o->name = name; o->size = size; o->flags = flags; o->birth = epoch;
    o->pages.resize((size / 4 + PAGE) / PAGE);
    o->line = curLine; o->fn = curFunc;
    objs.push_back(o);
    int id = (int)objs.size() - 1;
    if (epoch) journal.push_back({1, id, 0, Val(), 0});
    return id;
}
static Val constToVal(const llvm::Constant *c);
static void initPage(Obj *o, int pg);
static Cell &cellAt(Obj *o, int c) {
    int pg = c / PAGE;
    if (!o->pages[pg]) {
        o->pages[pg].reset(new Page);
        if (o->init) initPage(o, pg);
        else if (o->zero) for (auto &x : o->pages[pg]->c) x.v.kind = K_ZERO;
    }
    return o->pages[pg]->c[c % PAGE];
}
static void layoutConst(Obj *o, const llvm::Constant *c, llvm::Type *t, u64 base, u64 lo, u64 hi);
static void initPage(Obj *o, int pg) { // fill cells [pg*PAGE, ...) from the initializer
    u64 lo = (u64)pg * PAGE * 4, hi = lo + PAGE * 4; if (hi > o->size) hi = o->size;
    for (auto &x : o->pages[pg]->c) x.v.kind = K_ZERO;
    layoutConst(o, o->init, o->ity, 0, lo, hi);
}
static void putInit(Obj *o, u64 off, const Val &v, int size, u64 lo, u64 hi) {
    if (off < lo || off >= hi || off % 4) return;
    int c = (int)(off / 4); Page *p = o->pages[c / PAGE].get();
    p->c[c % PAGE].v = v; p->c[c % PAGE].v.size = size;
    if (size == 8 && (off + 4 < hi)) p->c[(c + 1) % PAGE].v.kind = K_CONT;
}
static void layoutConst(Obj *o, const llvm::Constant *c, llvm::Type *t, u64 base, u64 lo, u64 hi) {
    u64 sz = DL->getTypeAllocSize(t);
    if (base + sz <= lo || base >= hi) return;
    if (llvm::isa<llvm::ConstantAggregateZero>(c) || llvm::isa<llvm::UndefValue>(c)) return;
    if (auto *at = llvm::dyn_cast<llvm::ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType()); u64 n = at->getNumElements();
        u64 i0 = lo > base ? (lo - base) / es : 0, i1 = (hi - base + es - 1) / es; if (i1 > n) i1 = n;
        if (es < 4) return;
        if (auto *cd = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) {
            for (u64 i = i0; i < i1; i++) {
                Val v;
                if (at->getElementType()->isDoubleTy()) v = constReal(cd->getElementAsDouble(i));
                else v = mkInt((i64)cd->getElementAsInteger(i));
                if (at->getElementType()->isIntegerTy(32)) v.i = (int32_t)v.i;
                putInit(o, base + i * es, v, (int)es, lo, hi);
            }
        } else for (u64 i = i0; i < i1; i++) layoutConst(o, c->getAggregateElement((unsigned)i), at->getElementType(), base + i * es, lo, hi);
        return;
    }
    if (auto *st = llvm::dyn_cast<llvm::StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) layoutConst(o, c->getAggregateElement(i), st->getElementType(i), base + sl->getElementOffset(i), lo, hi);
        return;
    }
    if (sz < 4) return;
    putInit(o, base, constToVal(c), (int)sz, lo, hi);
}
static std::string objDesc(Obj *o) { return "'" + o->name + "' (" + (o->range >= 0 ? "symbolic" : std::to_string(o->size)) + " bytes)"; }
static void checkAlive(int id, const char *what) {
    obCount++;
    if (id <= 0) violate("NULLDEREF", std::string(what) + " through a null pointer");
    Obj *o = objs[id];
    if (!o->alive) violate("USE_AFTER_FREE", std::string(what) + " of released block " + objDesc(o));
}
static void logCell(int id, int c) {
    Obj *o = objs[id]; if (!epoch || o->birth >= epoch) return;
    Cell &ce = cellAt(o, c);
    if (ce.epoch < epoch) { journal.push_back({0, id, c, ce.v, ce.epoch}); ce.epoch = epoch; }
}
static SymSlot *findSlot(Obj *o, int off, int size) { for (auto &s : o->slots) if (s.off == off && s.size == size) return &s; return nullptr; }
static void symAddr(const Val &p, Obj *o, i64 &eoff, bool &first) {
    // p offset must be esz*kappa_r + eoff, or a concrete offset within element 0
    first = false;
    if ((i64)p.v != 0) {
        int sid = (int)p.w;
        if (sid == 2 * o->range + 1 && (i64)p.v == o->esz && p.i >= 0 && p.i < o->esz) { eoff = p.i; return; }
        if (sid == 2 * o->range + 1 && (i64)p.v == o->esz) violate("OOB", "index kappa" + std::to_string(p.i / o->esz) + " may leave symbolic array " + objDesc(o));
        unsup("symbolic index of another range into " + objDesc(o));
    }
    if (p.i >= 0 && p.i < o->esz) { first = true; eoff = p.i; return; }
    unsup("concrete index into symbolic array " + objDesc(o));
}
static Val memRead(const Val &p, int size, bool isReal) {
    if (p.kind != K_PTR) { if (p.kind == K_UNDEF) violate("UNINIT", "dereference of an undefined pointer"); violate("NULLDEREF", "dereference of a non-pointer"); }
    checkAlive(p.a, "read");
    Obj *o = objs[p.a];
    if (o->range >= 0) {
        i64 eo; bool first; symAddr(p, o, eo, first);
        SymSlot *s = findSlot(o, (int)eo, size);
        if (first && !discovery) { if (o->hasFirst) return o->first; unsup("element 0 of symbolic array " + objDesc(o)); }
        if (s) return s->val;
        if (o->symZero) return isReal ? constReal(0) : mkInt(0);
        violate("UNINIT", "read of uninitialised element of " + objDesc(o));
    }
    if (p.v != 0) unsup("symbolic index into fixed-size " + objDesc(o));
    if (p.i < 0 || (u64)(p.i + size) > o->size) violate("OOB", "read at byte " + std::to_string(p.i) + " outside " + objDesc(o));
    if (size < 4 || (p.i & 3)) { if (size == 1) return mkInt(0); unsup("sub-word read"); }
    Cell &c = cellAt(o, (int)(p.i / 4));
    if (c.v.kind == K_ZERO) return isReal ? constReal(0) : (size == 8 ? mkInt(0) : mkInt(0));
    if (c.v.kind == K_UNDEF) { if (c.v.a == POISON) unsup("integer carried around a loop over a symbolic range"); violate("UNINIT", "read of uninitialised storage at byte " + std::to_string(p.i) + " of " + objDesc(o)); }
    if (c.v.kind == K_CONT || c.v.size != size) unsup("type-punned read");
    return c.v;
}
static void memWrite(const Val &p, int size, const Val &v0) {
    if (p.kind != K_PTR) { if (p.kind == K_UNDEF) violate("UNINIT", "write through an undefined pointer"); violate("NULLDEREF", "write through a non-pointer"); }
    checkAlive(p.a, "write");
    Obj *o = objs[p.a];
    if (frameCheck && ((o->flags & OF_INPUT) || ((o->flags & OF_GLOBAL)) || ((o->flags & OF_HEAP) && p.a < frameMark)))
        event("FRAME", "write to " + std::string((o->flags & OF_GLOBAL) ? "library-wide state " : "input ") + objDesc(o) + " at byte " + std::to_string(p.i));
    if (o->flags & OF_CONSTG) violate("OOB", "write to constant " + objDesc(o));
    if (o->range >= 0) {
        i64 eo; bool first; symAddr(p, o, eo, first);
        if (first && !discovery) unsup("write to element 0 of symbolic array");
        if (v0.flags & F_MARK) unsup("loop-carried value stored to symbolic array");
        SymSlot *s = findSlot(o, (int)eo, size);
        if (epoch && o->birth < epoch) { Val old; old.kind = K_UNDEF; if (s) old = s->val; journal.push_back({3, p.a, (int)(eo * 16 + size), old, s ? 1u : 0u}); }
        if (s) { s->val = v0; s->written = true; } else o->slots.push_back({(int)eo, size, v0, true});
        return;
    }
    if (p.v != 0) unsup("symbolic index into fixed-size " + objDesc(o));
    if (p.i < 0 || (u64)(p.i + size) > o->size) violate("OOB", "write at byte " + std::to_string(p.i) + " outside " + objDesc(o));
    if (size < 4 || (p.i & 3)) unsup("sub-word write");
    int c = (int)(p.i / 4);
    logCell(p.a, c);
    Cell &ce = cellAt(o, c); ce.v = v0; ce.v.size = size;
    for (int k = 1; k < size / 4; k++) { logCell(p.a, c + k); cellAt(o, c + k).v.kind = K_CONT; }
}
static void memSetZero(const Val &p, i64 n) {
    if (n == 0) return;
    checkAlive(p.a, "memset");
    Obj *o = objs[p.a];
    if (p.v != 0 || o->range >= 0) unsup("memset on symbolic object");
    if (p.i < 0 || (u64)(p.i + n) > o->size) violate("OOB", "memset of " + std::to_string(n) + " bytes at " + std::to_string(p.i) + " outside " + objDesc(o));
    if ((p.i & 3) || (n & 3)) unsup("unaligned memset");
    if (frameCheck && ((o->flags & OF_INPUT) || (o->flags & OF_GLOBAL))) event("FRAME", "memset of " + objDesc(o));
    if (p.i == 0 && (u64)n == o->size && (!epoch || o->birth >= epoch)) {
        for (auto &pg : o->pages) pg.reset();
        o->zero = true; o->init = nullptr; return;
    }
    for (i64 b = p.i; b < p.i + n; b += 4) { logCell(p.a, (int)(b / 4)); cellAt(o, (int)(b / 4)).v = Val(); cellAt(o, (int)(b / 4)).v.kind = K_ZERO; }
}
static void memCopy(const Val &d, const Val &s, i64 n) {
    if (n == 0) return;
    checkAlive(d.a, "memcpy"); checkAlive(s.a, "memcpy");
    Obj *od = objs[d.a], *os = objs[s.a];
    if (od->range >= 0 || os->range >= 0 || d.v || s.v) unsup("memcpy on symbolic object");
    if (s.i < 0 || (u64)(s.i + n) > os->size) violate("OOB", "memcpy source outside " + objDesc(os));
    if (d.i < 0 || (u64)(d.i + n) > od->size) violate("OOB", "memcpy destination outside " + objDesc(od));
    if (frameCheck && ((od->flags & OF_INPUT) || (od->flags & OF_GLOBAL))) event("FRAME", "memcpy to " + objDesc(od));
    if ((d.i & 3) || (s.i & 3) || (n & 3)) unsup("unaligned memcpy");
    std::vector<Val> tmp;
    for (i64 b = 0; b < n; b += 4) tmp.push_back(cellAt(os, (int)((s.i + b) / 4)).v);
    for (i64 b = 0; b < n; b += 4) { int c = (int)((d.i + b) / 4); logCell(d.a, c); cellAt(od, c).v = tmp[b / 4]; }
}
struct Checkpoint { size_t j; uint32_t e; };
static Checkpoint checkpoint() { Checkpoint c{journal.size(), epoch}; epoch = ++epochCounter; return c; }
static void undoTo(const Checkpoint &c) {
    while (journal.size() > c.j) {
        JEnt &j = journal.back(); Obj *o = objs[j.obj];
        if (j.type == 0) { Cell &ce = cellAt(o, j.cell); ce.v = j.old; ce.epoch = j.oldEpoch; }
        else if (j.type == 1) { o->alive = false; o->pages.clear(); o->pages.shrink_to_fit(); }
        else if (j.type == 2) { o->alive = true; }
        else if (j.type == 3) {
            int off = j.cell / 16, size = j.cell % 16;
            for (size_t k = 0; k < o->slots.size(); k++) if (o->slots[k].off == off && o->slots[k].size == size) {
                if (j.oldEpoch) o->slots[k].val = j.old; else o->slots.erase(o->slots.begin() + k); break; }
        }
        journal.pop_back();
    }
    epoch = c.e;
}
static void commit(const Checkpoint &c) { epoch = c.e; if (!epoch) journal.clear(); }
static void freeObj(int id, const char *what) {
    obCount++;
    if (id == 0) return;
    Obj *o = objs[id];
    if (!(o->flags & OF_HEAP)) violate("BADFREE", std::string(what) + " of non-heap block " + objDesc(o));
    if (!o->alive) violate("DOUBLE_FREE", "second release of " + objDesc(o));
    if (frameCheck && id < frameMark) event("FRAME", "release of caller's block " + objDesc(o));
    o->alive = false;
    if (epoch && o->birth < epoch) journal.push_back({2, id, 0, Val(), 0});
    else if (!epoch || o->birth >= epoch) { o->pages.clear(); }
}

// ---------------------------------------------------------------- decoded code
enum Opc : uint8_t { O_ADD, O_SUB, O_MUL, O_SDIV, O_UDIV, O_SREM, O_UREM, O_AND, O_OR, O_XOR, O_SHL, O_ASHR, O_LSHR,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_ICMP, O_FCMP, O_LOAD, O_STORE, O_GEP, O_SEXT, O_ZEXT, O_TRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPCAST,
    O_CALL, O_CALLIND, O_BR, O_CBR, O_RET, O_ALLOCA, O_SELECT, O_EXTRACT, O_INSERT, O_SWITCH, O_UNREACH, O_NOP, O_PTRTOINT, O_INTTOPTR, O_BITCAST, O_BAD, O_FREM };
struct GIdx { int op; i64 scale; i64 bound; };
struct Inst {
    Opc op; uint8_t width = 0; uint8_t pred = 0; uint8_t isReal = 0; bool nsw = false;
    int dst = -1; int line = 0; int target = -1; // call target func id
    std::vector<int> ops;  // >=0: register; <0: constant -(k+1)
    i64 imm = 0; std::vector<GIdx> gi; std::vector<std::pair<i64, int>> cases; int b0 = -1, b1 = -1; int siteKey = -1;
    std::string name;
};
struct Phi { int dst; std::vector<std::pair<int, int>> in; }; // (pred block, operand)
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; bool header = false; std::vector<char> inLoop; };
struct Func { std::string name; int nargs = 0, nregs = 0; bool decl = true; std::vector<Block> blocks; std::vector<Val> consts; llvm::Function *lf = nullptr; int contract = -1; bool decoded = false; u64 calls = 0; std::vector<uint8_t> argReal; uint8_t retReal = 0; };
static std::vector<Func *> funcs;
static std::map<std::string, int> funcByName;
static std::unique_ptr<llvm::Module> M;
static llvm::LLVMContext *CTX;
typedef int (*ContractCB)(int fid, const Val *args, int n, Val *ret);
static ContractCB contractCB = nullptr;
static int siteCounter = 0;

static Val constToVal(const llvm::Constant *c) {
    if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(c)) return mkInt(ci->getBitWidth() == 1 ? (i64)ci->getZExtValue() : ci->getSExtValue());
    if (auto *cf = llvm::dyn_cast<llvm::ConstantFP>(c)) {
        bool lose; llvm::APFloat f = cf->getValueAPF(); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
        return constReal(f.convertToDouble());
    }
    if (llvm::isa<llvm::ConstantPointerNull>(c)) { Val v; v.kind = K_PTR; return v; }
    if (llvm::isa<llvm::UndefValue>(c)) return Val();
    if (auto *f = llvm::dyn_cast<llvm::Function>(c)) { Val v; v.kind = K_FUNC; v.a = funcId.at(f); return v; }
    if (llvm::isa<llvm::GlobalVariable>(c)) { Val v; v.kind = K_PTR; v.a = globalObj.at(c); return v; }
    if (auto *ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
        if (ce->getOpcode() == llvm::Instruction::GetElementPtr) {
            llvm::APInt off(64, 0); auto *g = llvm::cast<llvm::GEPOperator>(ce);
            if (g->accumulateConstantOffset(*DL, off)) { Val b = constToVal(llvm::cast<llvm::Constant>(g->getPointerOperand())); b.i += off.getSExtValue(); return b; }
        }
        if (ce->isCast()) return constToVal(llvm::cast<llvm::Constant>(ce->getOperand(0)));
    }
    if (llvm::isa<llvm::ConstantAggregateZero>(c)) { return mkInt(0); }
    Val v; return v;
}
static int typeSize(llvm::Type *t) { return (int)DL->getTypeStoreSize(t); }
static void decode(Func *F) {
    using namespace llvm;
    llvm::Function *f = F->lf; F->decoded = true;
    std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bid;
    std::unordered_map<const Value *, int> cidx;
    int nr = 0; for (auto &a : f->args()) reg[&a] = nr++;
    int nb = 0; for (auto &b : *f) { bid[&b] = nb++; for (auto &I : b) if (!I.getType()->isVoidTy()) reg[&I] = nr++; }
    F->nregs = nr; F->blocks.resize(nb);
    auto opnd = [&](const Value *v) -> int {
        auto it = reg.find(v); if (it != reg.end()) return it->second;
        auto ic = cidx.find(v); if (ic != cidx.end()) return ic->second;
        Val c; if (auto *k = dyn_cast<Constant>(v)) c = constToVal(k);
        F->consts.push_back(c); int id = -(int)F->consts.size(); cidx[v] = id; return id;
    };
    DominatorTree DT(*f); LoopInfo LI(DT);
    for (auto &b : *f) {
        Block &B = F->blocks[bid[&b]];
        if (Loop *L = LI.getLoopFor(&b)) if (L->getHeader() == &b) { B.header = true; B.inLoop.assign(nb, 0); for (auto *x : L->blocks()) B.inLoop[bid[x]] = 1; }
        for (auto &I : b) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto *ph = dyn_cast<PHINode>(&I)) { Phi p; p.dst = reg[&I]; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) p.in.push_back({bid[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))}); B.phis.push_back(p); continue; }
            Inst n; n.op = O_BAD; if (!I.getType()->isVoidTy()) n.dst = reg[&I];
            if (auto &dl = I.getDebugLoc()) n.line = dl.getLine();
            if (I.getType()->isIntegerTy()) n.width = I.getType()->getIntegerBitWidth();
            auto two = [&](Opc o) { n.op = o; n.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) n.nsw = ob->hasNoSignedWrap(); };
            auto one = [&](Opc o) { n.op = o; n.ops = {opnd(I.getOperand(0))}; };
            switch (I.getOpcode()) {
            case Instruction::Add: two(O_ADD); break; case Instruction::Sub: two(O_SUB); break; case Instruction::Mul: two(O_MUL); break;
            case Instruction::SDiv: two(O_SDIV); break; case Instruction::UDiv: two(O_UDIV); break; case Instruction::SRem: two(O_SREM); break; case Instruction::URem: two(O_UREM); break;
            case Instruction::And: two(O_AND); break; case Instruction::Or: two(O_OR); break; case Instruction::Xor: two(O_XOR); break;
            case Instruction::Shl: two(O_SHL); break; case Instruction::AShr: two(O_ASHR); break; case Instruction::LShr: two(O_LSHR); break;
            case Instruction::FAdd: two(O_FADD); break; case Instruction::FSub: two(O_FSUB); break; case Instruction::FMul: two(O_FMUL); break; case Instruction::FDiv: two(O_FDIV); break;
            case Instruction::FRem: two(O_FREM); break;
            case Instruction::FNeg: one(O_FNEG); break;
            case Instruction::ICmp: two(O_ICMP); n.pred = cast<ICmpInst>(I).getPredicate(); n.width = I.getOperand(0)->getType()->isIntegerTy() ? I.getOperand(0)->getType()->getIntegerBitWidth() : 64; break;
            case Instruction::FCmp: two(O_FCMP); n.pred = cast<FCmpInst>(I).getPredicate(); n.siteKey = siteCounter++; break;
            case Instruction::Load: one(O_LOAD); n.imm = typeSize(I.getType()); n.isReal = I.getType()->isFloatingPointTy(); if (n.imm == 10) n.imm = 16; if (I.getType()->isPointerTy()) n.isReal = 2; break;
            case Instruction::Store: two(O_STORE); n.imm = typeSize(I.getOperand(0)->getType()); if (n.imm == 10) n.imm = 16; break;
            case Instruction::SExt: one(O_SEXT); n.imm = I.getOperand(0)->getType()->getIntegerBitWidth(); break;
            case Instruction::ZExt: one(O_ZEXT); n.imm = I.getOperand(0)->getType()->getIntegerBitWidth(); break;
            case Instruction::Trunc: one(O_TRUNC); break;
            case Instruction::SIToFP: one(O_SITOFP); break; case Instruction::UIToFP: one(O_UITOFP); n.imm = I.getOperand(0)->getType()->getIntegerBitWidth(); break;
            case Instruction::FPToSI: case Instruction::FPToUI: one(O_FPTOSI); n.siteKey = siteCounter++; break;
            case Instruction::FPExt: case Instruction::FPTrunc: one(O_FPCAST); break;
            case Instruction::PtrToInt: one(O_PTRTOINT); break; case Instruction::IntToPtr: one(O_INTTOPTR); break;
            case Instruction::BitCast: case Instruction::Freeze: one(O_BITCAST); break;
            case Instruction::GetElementPtr: {
                auto &g = cast<GetElementPtrInst>(I); n.op = O_GEP; n.ops = {opnd(g.getPointerOperand())}; n.imm = 0; llvm::Type *cur = g.getSourceElementType(); bool firstIdx = true;
                for (auto ix = g.idx_begin(); ix != g.idx_end(); ++ix) {
                    i64 sc, bound = -1; Value *iv = ix->get();
                    if (firstIdx) { sc = DL->getTypeAllocSize(cur); firstIdx = false; }
                    else if (auto *st = dyn_cast<StructType>(cur)) { unsigned fi = (unsigned)cast<ConstantInt>(iv)->getZExtValue(); n.imm += DL->getStructLayout(st)->getElementOffset(fi); cur = st->getElementType(fi); continue; }
                    else { auto *at = cast<ArrayType>(cur); bound = (i64)at->getNumElements(); if (bound == 0) bound = -1; cur = at->getElementType(); sc = DL->getTypeAllocSize(cur); }
                    if (auto *ci = dyn_cast<ConstantInt>(iv)) { if (bound < 0 || (ci->getSExtValue() >= 0 && ci->getSExtValue() <= bound)) { n.imm += ci->getSExtValue() * sc; continue; } }
                    n.gi.push_back({opnd(iv), sc, bound});
                }
                break; }
            case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); n.op = O_ALLOCA; n.imm = DL->getTypeAllocSize(a.getAllocatedType()); n.ops = {opnd(a.getArraySize())}; n.name = I.getName().str(); break; }
            case Instruction::Br: { auto &br = cast<BranchInst>(I); if (br.isConditional()) { n.op = O_CBR; n.ops = {opnd(br.getCondition())}; n.b0 = bid[br.getSuccessor(0)]; n.b1 = bid[br.getSuccessor(1)]; } else { n.op = O_BR; n.b0 = bid[br.getSuccessor(0)]; } break; }
            case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); n.op = O_SWITCH; n.ops = {opnd(sw.getCondition())}; n.b0 = bid[sw.getDefaultDest()]; for (auto &c : sw.cases()) n.cases.push_back({c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]}); break; }
            case Instruction::Ret: n.op = O_RET; if (I.getNumOperands()) n.ops = {opnd(I.getOperand(0))}; break;
            case Instruction::Select: n.op = O_SELECT; n.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; break;
            case Instruction::ExtractValue: n.op = O_EXTRACT; n.ops = {opnd(I.getOperand(0))}; n.imm = cast<ExtractValueInst>(I).getIndices()[0]; break;
            case Instruction::InsertValue: n.op = O_INSERT; n.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; n.imm = cast<InsertValueInst>(I).getIndices()[0]; break;
            case Instruction::Unreachable: n.op = O_UNREACH; break;
            case Instruction::Call: {
                auto &c = cast<CallInst>(I); for (auto &a : c.args()) n.ops.push_back(opnd(a.get()));
                if (auto *cf = c.getCalledFunction()) { n.op = O_CALL; n.target = funcId.at(cf); }
                else { n.op = O_CALLIND; n.ops.push_back(opnd(c.getCalledOperand())); }
                n.isReal = I.getType()->isFloatingPointTy(); break; }
            default: n.op = O_BAD; n.name = I.getOpcodeName();
            }
            B.insts.push_back(std::move(n));
        }
    }
}

struct Frame { Func *F; std::vector<Val> r; std::vector<int> allocas; };
static std::vector<std::vector<Val>> aggs;
static Val callFunc(int fid, const Val *args, int n);
enum { R_RET, R_HEADER, R_EXIT };
struct RunRes { int st; Val ret; int prev; };

static inline i64 wrapInt(i64 v, int w, bool nsw) {
    i64 r; switch (w) { case 32: r = (int32_t)v; break; case 16: r = (int16_t)v; break; case 8: r = (int8_t)v; break; case 1: r = v & 1; break; default: r = v; }
    if (nsw && w == 32 && r != v) event("INTOVERFLOW", "signed integer overflow");
    return r;
}
static Val mkSym(i64 c, i64 coef, u64 sid) { Val r; if (coef == 0) { r = mkInt(c); r.flags |= F_SYMDEP; return r; } r.kind = K_SYM; r.i = c; r.v = (u64)coef; r.w = sid; r.flags = F_SYMDEP; return r; }
static bool symParts(const Val &a, i64 &c, i64 &k, u64 &s) {
    if (a.kind == K_INT) { c = a.i; k = 0; s = 0; return true; }
    if (a.kind == K_SYM) { c = a.i; k = (i64)a.v; s = a.w; return true; }
    return false;
}
static Val symArith(Opc op, const Val &a, const Val &b) {
    i64 c1, k1, c2, k2; u64 s1, s2;
    if (!symParts(a, c1, k1, s1) || !symParts(b, c2, k2, s2)) violate("UNINIT", "arithmetic on an undefined integer");
    if (op == O_ADD || op == O_SUB) {
        i64 sg = op == O_ADD ? 1 : -1;
        if (k2 == 0) return mkSym(c1 + sg * c2, k1, s1);
        if (k1 == 0) return mkSym(c1 + sg * c2, sg * k2, s2);
        if (s1 == s2) return mkSym(c1 + sg * c2, k1 + sg * k2, s1);
        unsup("sum of two symbolic integers");
    }
    if (op == O_MUL) { if (k1 == 0) return mkSym(c1 * c2, c1 * k2, s2); if (k2 == 0) return mkSym(c1 * c2, k1 * c2, s1); }
    unsup("integer operation on a symbolic integer");
}
// decide  a - b  as  c + k*n_r (n>=1) + m*kappa_r (0<=kappa<n); returns sbool if unknown
struct Lin { i64 c = 0; std::map<u64, i64> k; };
static int decideLess(Lin d) { // d < 0 ?  1 yes 0 no -1 unknown
    // max and min over admissible ranges
    // group by range: coef n: a, coef kappa: b ; n>=1, 0<=kappa<=n-1
    double mx = (double)d.c, mn = (double)d.c; std::set<u64> rs; for (auto &e : d.k) rs.insert(e.first / 2);
    for (u64 r : rs) {
        i64 a = d.k.count(2 * r) ? d.k[2 * r] : 0, b = d.k.count(2 * r + 1) ? d.k[2 * r + 1] : 0;
        // value a*n + b*kappa, corner kappa=0: a*n ; kappa=n-1: (a+b)*n - b
        auto ext = [&](bool max_) { double v = max_ ? -1e300 : 1e300; for (int cse = 0; cse < 2; cse++) { double s = cse ? (double)(a + b) : (double)a, o = cse ? -(double)b : 0; double e;
            if (max_) { e = s > 0 ? 1e300 : s + o; if (e > v) v = e; } else { e = s < 0 ? -1e300 : s + o; if (e < v) v = e; } } return v; };
        mx += ext(true); mn += ext(false);
    }
    if (mx < 0) return 1; if (mn >= 0) return 0; return -1;
}
static Val cmpSym(int pred, const Val &a, const Val &b) {
    i64 c1, k1, c2, k2; u64 s1, s2;
    if (!symParts(a, c1, k1, s1) || !symParts(b, c2, k2, s2)) violate("UNINIT", "comparison of an undefined integer");
    Lin d; d.c = c1 - c2; if (k1) d.k[s1] += k1; if (k2) d.k[s2] -= k2;
    for (auto it = d.k.begin(); it != d.k.end();) if (it->second == 0) it = d.k.erase(it); else ++it;
    auto neg = [](Lin x) { x.c = -x.c; for (auto &e : x.k) e.second = -e.second; return x; };
    int res = -1; using namespace llvm;
    auto lt = [&](const Lin &x) { return decideLess(x); };
    Lin dm1 = d; dm1.c -= 1; Lin nd = neg(d); Lin ndm1 = nd; ndm1.c -= 1;
    switch (pred) {
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: res = lt(d); break;
    case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: res = lt(dm1); break;
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: res = lt(nd); break;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: res = lt(ndm1); break;
    case CmpInst::ICMP_EQ: if (d.k.empty()) res = d.c == 0; else if (lt(d) == 1 || lt(nd) == 1) res = 0; break;
    case CmpInst::ICMP_NE: if (d.k.empty()) res = d.c != 0; else if (lt(d) == 1 || lt(nd) == 1) res = 1; break;
    }
    if (res >= 0) { Val r = mkInt(res); r.flags = F_SYMDEP; return r; }
    Val r; r.kind = K_SBOOL; r.flags = F_SYMDEP; return r;
}
static std::string linStr(const Val &v) { return std::to_string(v.i) + "+" + std::to_string((i64)v.v) + "*s" + std::to_string(v.w); }

static int siteFor(const char *kind, const Inst &n) {
    auto it = siteIdx.find(n.siteKey); if (it != siteIdx.end()) return it->second;
    Site s; s.func = curFunc; s.kind = kind; s.line = n.line; sites.push_back(s); siteIdx[n.siteKey] = (int)sites.size() - 1; return (int)sites.size() - 1;
}
static bool zeroTests = false;
extern "C" void dv_zero_tests(int on) { zeroTests = on; }
static Val doFcmp(const Inst &n, const Val &a, const Val &b) {
    using namespace llvm;
    if (a.kind != K_REAL || b.kind != K_REAL) violate("UNINIT", "comparison of an undefined real");
    bool r = false; double x = a.x, y = b.x;
    switch (n.pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
    case CmpInst::FCMP_UNO: r = false; break; case CmpInst::FCMP_ORD: r = true; break; case CmpInst::FCMP_TRUE: r = true; break;
    }
    if (n.pred == CmpInst::FCMP_UNO || n.pred == CmpInst::FCMP_ORD) return mkInt(r);
    if ((a.flags & b.flags) & F_CONST) return mkInt(r);
    if ((a.flags | b.flags) & F_GARB) event("GARBAGE_BRANCH", "branch depends on previous buffer contents or uninitialised data");
    if ((a.flags | b.flags) & F_MARK) { if (!discovery) unsup("branch on a loop-carried real"); }
    int si = siteFor("fcmp", n); Site &s = sites[si];
    if (a.v == b.v && a.w == b.w) { // identical reals: decided for all inputs
        bool eq = n.pred == CmpInst::FCMP_OEQ || n.pred == CmpInst::FCMP_UEQ || n.pred == CmpInst::FCMP_OLE || n.pred == CmpInst::FCMP_ULE || n.pred == CmpInst::FCMP_OGE || n.pred == CmpInst::FCMP_UGE;
        return mkInt(eq);
    }
    double thr = 0; int cls = 0; // 0 genuine, 1 tiny threshold, 2 zero test
    if (b.flags & F_CONST) thr = fabs(y); else if (a.flags & F_CONST) thr = fabs(x); else thr = -1;
    if (thr == 0) cls = 2; else if (thr > 0 && thr <= 1.01e-12) cls = 1;
    if (cls == 1 && zeroTests) { // thresholds up to 1e-12 are zero tests: a nonzero value counts as larger than the threshold
        bool cb = (b.flags & F_CONST); double &z = cb ? x : y; const Val &u = cb ? a : b;
        if (u.v == 0 && u.w == 0) z = 0; else if (fabs(z) <= 2 * thr) z = (z < 0 ? -2 : 2) * thr;
        switch (n.pred) {
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x < y; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x > y; break;
        default: break;
        }
    }
    s.cls = cls; s.thr = thr; double dd = fabs(x - y); if (dd < s.mind) s.mind = dd;
    if (s.forced >= 0) r = s.forced;
    if (r) { s.t = true; s.nt++; } else { s.f = true; s.nf++; }
    return mkInt(r);
}

static RunRes runFrom(Frame &fr, int blk, int prev, int stop, const std::vector<char> *inLoop, bool skipPhis);

static std::string realStr(const Val &v) { char b[64]; snprintf(b, 64, "%.17g", v.x); return b; }

// symbolic loop rule; header block H entered with phis already evaluated (init values in regs)
static int loopRule(Frame &fr, int H, int bodySucc, int exitSucc, int condOpLine) {
    Func *F = fr.F; Block &B = F->blocks[H]; std::vector<char> &inl = B.inLoop;
    const Inst &br = B.insts.back();
    // find the compare feeding the branch to know the range: evaluated generically below
    std::vector<Val> init; for (auto &p : B.phis) init.push_back(fr.r[p.dst]);
    std::vector<Val> savedRegs = fr.r; std::vector<int> savedAll = fr.allocas; size_t nobj0 = objs.size();
    typedef std::pair<int, int> Loc;
    auto execHeader = [&]() -> Val { // executes the non-phi, non-branch instructions of the header and returns the condition
        Block tmp; Val c; (void)tmp;
        // run via a mini interpreter: reuse runFrom by temporarily marking; simple approach: executed in runFrom with skipPhis
        return c;
    };
    (void)execHeader;
    auto pass = [&](const std::vector<Val> &phi, std::vector<Val> &next) {
        fr.r = savedRegs;
        for (size_t k = 0; k < phi.size(); k++) fr.r[B.phis[k].dst] = phi[k];
        // header body instructions are re-executed by starting at the header with skipPhis and forced branch into the loop
        RunRes rr = runFrom(fr, H, -1, H, &inl, true);
        if (rr.st == R_RET) unsup("return inside a loop over a symbolic range");
        if (rr.st == R_EXIT) unsup("early exit from a loop over a symbolic range");
        next.clear();
        for (auto &p : B.phis) { Val v; bool ok = false; for (auto &in : p.in) if (in.first == rr.prev) { v = in.second >= 0 ? fr.r[in.second] : F->consts[-in.second - 1]; ok = true; } if (!ok) unsup("phi"); next.push_back(v); }
    };
    auto collect = [&](const Checkpoint &cp, std::map<Loc, Val> &out, bool &leak) {
        for (size_t j = cp.j; j < journal.size(); j++) { JEnt &e = journal[j]; if (e.type == 0 && (size_t)e.obj < nobj0) { Val v = cellAt(objs[e.obj], e.cell).v; out[{e.obj, e.cell}] = v; }
            if (e.type == 2) unsup("block released inside a symbolic loop");
            if (e.type == 1 && objs[e.obj]->alive && (objs[e.obj]->flags & OF_HEAP)) leak = true; }
    };
    // ---- discovery pass: first iteration, concrete
    std::vector<Val> next; std::map<Loc, Val> W1; bool leak = false;
    int depthBefore = 0; (void)depthBefore;
    { bool od = discovery; discovery = true; Checkpoint cp = checkpoint();
      try { pass(init, next); collect(cp, W1, leak); } catch (...) { undoTo(cp); discovery = od; throw; }
      undoTo(cp); discovery = od; }
    if (leak) event("LEAK", "block allocated in a loop body is not released in the same iteration");
    // ---- identify the range from the loop condition: try every range whose generic index decides the header condition
    // induction variables
    std::vector<i64> stride(init.size(), 0); std::vector<int> cls(init.size(), 0);
    for (size_t k = 0; k < init.size(); k++) {
        if (init[k].kind == K_REAL) cls[k] = 1;
        else if (init[k].kind == K_INT && next[k].kind == K_INT) stride[k] = next[k].i - init[k].i;
        else if (init[k].kind == K_PTR && next[k].kind == K_PTR && init[k].a == next[k].a && init[k].v == 0 && next[k].v == 0) stride[k] = next[k].i - init[k].i;
        else if (init[k].kind == K_UNDEF) cls[k] = 2;
        else unsup("loop-carried value of unsupported kind in a symbolic loop");
    }
    int range = (int)(br.imm) - 1; // set by caller: range id + 1
    if (range < 0) unsup("range of symbolic loop not determined");
    if (ranges[range].active) unsup("nested loops over the same symbolic range");
    auto generic = [&](size_t k) { Val v = init[k]; if (stride[k] == 0) return v;
        if (v.kind == K_INT) return mkSym(v.i, stride[k], 2 * range + 1);
        v.v = (u64)stride[k]; v.w = 2 * range + 1; v.flags |= F_SYMDEP; return v; };
    auto marker = [&](const Val &i0) { Val m; m.kind = K_REAL; m.size = i0.size ? i0.size : 8; m.flags = F_MARK; m.v = rnd() % P; m.w = rnd() % Q; m.x = i0.kind == K_REAL ? i0.x : 0; return m; };
    std::map<Loc, Val> mA, nA, mB, nB; std::vector<Val> pA, pB, qA, qB;
    // integer and pointer cells: invariant, affine in the iteration number, or scratch (poisoned: must be written before it is read)
    std::map<Loc, i64> iStride; std::set<Loc> iScratch;
    auto isInt = [](const Val &v) { return v.kind == K_INT || v.kind == K_ZERO || v.kind == K_SYM; };
    auto asInt = [](const Val &v) { Val r = v; if (v.kind == K_ZERO) { r = mkInt(0); } return r; };
    auto poison = []() { Val v; v.kind = K_UNDEF; v.a = POISON; return v; };
    auto classifyInts = [&]() {
        for (auto &e : W1) { const Val &nv = e.second; Val old = cellAt(objs[e.first.first], e.first.second).v;
            if (nv.kind == K_REAL || nv.kind == K_CONT || nv.kind == K_ZERO || iStride.count(e.first) || iScratch.count(e.first)) continue;
            if (old.kind == K_CONT) { iScratch.insert(e.first); continue; }
            if (isInt(old) && isInt(nv)) { Val o = asInt(old); if (o.kind == nv.kind && (o.kind == K_INT || (o.v == nv.v && o.w == nv.w))) { iStride[e.first] = nv.i - o.i; if (o.kind == K_SYM && nv.i != o.i) { iStride.erase(e.first); iScratch.insert(e.first); } } else iScratch.insert(e.first); }
            else if (old.kind == K_PTR && nv.kind == K_PTR && old.a == nv.a && old.i == nv.i && old.v == nv.v && old.w == nv.w) iStride[e.first] = 0;
            else iScratch.insert(e.first); } };
    auto intCell = [&](const Loc &l) { Val v = asInt(cellAt(objs[l.first], l.second).v); i64 st = iStride[l]; if (st == 0) return v; int sz = v.size; v = mkSym(v.i, st, 2 * range + 1); v.size = sz ? sz : 4; return v; };
    auto setInts = [&]() { for (auto &e : W1) { bool a = iStride.count(e.first), b = iScratch.count(e.first); if (!a && !b) continue; Val v = a ? intCell(e.first) : poison(); if (b) v.size = W1[e.first].size; logCell(e.first.first, e.first.second); cellAt(objs[e.first.first], e.first.second).v = v; } };
    ranges[range].active++;
    try {
        for (int round = 0;; round++) {
            if (round > 12) unsup("invariant inference does not converge");
            classifyInts();
            bool grew = false;
            for (int which = 0; which < 2; which++) {
                Checkpoint cp = checkpoint();
                auto &m = which ? mB : mA; auto &nn = which ? nB : nA; auto &pp = which ? pB : pA; auto &qq = which ? qB : qA;
                m.clear(); nn.clear(); pp.clear();
                for (auto &e : W1) {
                    Val old = cellAt(objs[e.first.first], e.first.second).v;
                    if (e.second.kind == K_REAL && (old.kind == K_REAL || old.kind == K_ZERO)) { Val mk = marker(old); mk.size = e.second.size; m[e.first] = mk; logCell(e.first.first, e.first.second); cellAt(objs[e.first.first], e.first.second).v = mk; }
                }
                setInts();
                for (size_t k = 0; k < init.size(); k++) pp.push_back(cls[k] == 1 ? marker(init[k]) : generic(k));
                bool lk = false;
                try { pass(pp, qq); collect(cp, nn, lk); } catch (...) { undoTo(cp); throw; }
                std::map<std::pair<int,int>, Val> slotsW;
                undoTo(cp);
                for (auto &e : nn) if (!W1.count(e.first)) { W1[e.first] = e.second; grew = true; }
                if (grew) break;
            }
            if (grew) continue;
            // inductive step of the integer invariants
            for (auto &e : iStride) { auto it = nA.find(e.first); if (it == nA.end() || iScratch.count(e.first)) continue; Val ex = intCell(e.first); ex.i += e.second; const Val &g = it->second;
                if (!(g.i == ex.i && g.kind == ex.kind && g.a == ex.a && (ex.kind == K_INT || (g.v == ex.v && g.w == ex.w)))) { iScratch.insert(e.first); grew = true; } }
            for (auto &e : iScratch) iStride.erase(e);
            if (!grew) break;
        }
        // checks on phis
        for (size_t k = 0; k < init.size(); k++) if (cls[k] == 0) {
            Val ex = generic(k); ex.i += stride[k];
            const Val &g = qA[k];
            bool ok = g.i == ex.i && (ex.kind == K_INT || g.v == ex.v) && g.kind == ex.kind && g.a == ex.a;
            if (!ok) unsup("loop-carried integer is not affine in the iteration number");
        }
        // ---- final effects: replay generic body once more on the real state for symbolic-array maps
        std::vector<JEnt> slotWrites;
        std::vector<std::tuple<int, int, Val>> sw;
        { Checkpoint cp = checkpoint();
          for (auto &e : mA) { logCell(e.first.first, e.first.second); cellAt(objs[e.first.first], e.first.second).v = e.second; }
          setInts();
          std::vector<Val> q2; try { pass(pA, q2); } catch (...) { undoTo(cp); throw; }
          for (size_t j = cp.j; j < journal.size(); j++) if (journal[j].type == 3 && (size_t)journal[j].obj < nobj0) { Obj *o = objs[journal[j].obj]; SymSlot *s = findSlot(o, journal[j].cell / 16, journal[j].cell % 16); if (s) sw.push_back({journal[j].obj, journal[j].cell, s->val}); }
          undoTo(cp); }
        for (auto &t : sw) { Obj *o = objs[std::get<0>(t)]; int off = std::get<1>(t) / 16, size = std::get<1>(t) % 16; SymSlot *s = findSlot(o, off, size);
            if (epoch && o->birth < epoch) { Val old; if (s) old = s->val; journal.push_back({3, std::get<0>(t), std::get<1>(t), old, s ? 1u : 0u}); }
            if (s) s->val = std::get<2>(t); else o->slots.push_back({off, size, std::get<2>(t), true}); }
        Val om = ranges[range].omega;
        auto finish = [&](const Val &i0, const Val &a0, const Val &a1, const Val &b0, const Val &b1) -> Val {
            // accumulator: new = old + t
            obCount++;
            Val tA = rsub(a1, a0), tB = rsub(b1, b0);
            if (tA.v == tB.v && tA.w == tB.w) { tA.flags = (tA.flags | a1.flags) & (F_GARB | F_CONST); Val t = rmul(tA, om); t.flags = tA.flags & F_GARB; if (tA.v == 0 && tA.w == 0) return i0; Val r = radd(i0.kind == K_REAL ? i0 : constReal(0), t); r.flags &= ~F_MARK; if (i0.flags & F_MARK) r.flags |= F_MARK; return r; }
            if ((a1.flags & b1.flags & F_GARB) || (a1.v == b1.v && a1.w == b1.w)) { // assigned each iteration: value of the last iteration
                if ((a1.flags & F_CONST) && !(a1.flags & F_GARB)) return a1;
                Val g; g.kind = K_REAL; g.flags = F_GARB; g.v = rnd() % P; g.w = rnd() % Q; g.x = a1.x; return g; }
            unsup("loop-carried real is neither a sum nor an assignment");
        };
        for (auto &e : W1) {
            Val old = cellAt(objs[e.first.first], e.first.second).v; Val nv;
            if (!nA.count(e.first)) continue; // only markers
            Val a1 = nA[e.first];
            if (mA.count(e.first) && a1.kind == K_REAL) { nv = finish(old, mA[e.first], a1, mB[e.first], nB[e.first]); nv.size = a1.size; }
            else if (a1.kind == K_REAL) { Val b1 = nB[e.first]; if (a1.flags & F_MARK) unsup("scratch depends on loop-carried value");
                if (a1.v == b1.v && (a1.flags & F_CONST)) nv = a1; else { nv = a1; nv.flags |= F_GARB; nv.v = rnd() % P; nv.w = rnd() % Q; } nv.size = a1.size; }
            else if (a1.kind == K_CONT || a1.kind == K_ZERO) nv = a1;
            else if (iStride.count(e.first)) { i64 st = iStride[e.first]; if (st == 0) continue; int sz = a1.size; nv = asInt(old); nv = mkSym(nv.i, st, 2 * range); nv.size = sz; }
            else { nv = poison(); nv.size = a1.size; } // integer scratch: unknown after the loop
            logCell(e.first.first, e.first.second); cellAt(objs[e.first.first], e.first.second).v = nv;
        }
        fr.r = savedRegs;
        for (size_t k = 0; k < init.size(); k++) {
            Val v;
            if (cls[k] == 1) v = finish(init[k], pA[k], qA[k], pB[k], qB[k]);
            else if (stride[k] == 0) v = init[k];
            else { v = init[k]; if (v.kind == K_INT) v = mkSym(v.i, stride[k], 2 * range); else { v.v = stride[k]; v.w = 2 * range; } }
            fr.r[B.phis[k].dst] = v;
        }
    } catch (...) { ranges[range].active--; throw; }
    ranges[range].active--;
    return exitSucc;
}

static Val *regOf(Frame &fr, int op) { return op >= 0 ? &fr.r[op] : &fr.F->consts[-op - 1]; }

static RunRes runFrom(Frame &fr, int blk, int prev, int stop, const std::vector<char> *inLoop, bool skipPhis) {
    Func *F = fr.F; RunRes res; Val tmpPhi[64];
    bool startGeneric = skipPhis; // first block is the loop header run generically: branch decided into the loop
    for (;;) {
        Block &B = F->blocks[blk];
        if (!skipPhis && !B.phis.empty()) {
            if (B.phis.size() > 64) unsup("too many phis");
            for (size_t k = 0; k < B.phis.size(); k++) { bool ok = false; for (auto &in : B.phis[k].in) if (in.first == prev) { tmpPhi[k] = *regOf(fr, in.second); ok = true; break; } if (!ok) unsup("phi edge"); }
            for (size_t k = 0; k < B.phis.size(); k++) fr.r[B.phis[k].dst] = tmpPhi[k];
        }
        skipPhis = false;
        int nextBlk = -1;
        for (size_t ii = 0; ii < B.insts.size(); ii++) {
            Inst &n = B.insts[ii]; curLine = n.line; curFunc = F->name.c_str();
            if (++stepCount > stepLimit) unsup("step limit");
            Val *d = n.dst >= 0 ? &fr.r[n.dst] : nullptr;
#define OP(k) (*regOf(fr, n.ops[k]))
            switch (n.op) {
            case O_ADD: case O_SUB: case O_MUL: {
                Val &a = OP(0), &b = OP(1);
                if (a.kind == K_INT && b.kind == K_INT) { i64 r = n.op == O_ADD ? a.i + b.i : n.op == O_SUB ? a.i - b.i : a.i * b.i; uint8_t f = (a.flags | b.flags) & F_SYMDEP; *d = mkInt(wrapInt(r, n.width, n.nsw)); d->flags = f; }
                else *d = symArith(n.op, a, b);
                break; }
            case O_SDIV: case O_UDIV: case O_SREM: case O_UREM: {
                Val &a = OP(0), &b = OP(1); if (a.kind != K_INT || b.kind != K_INT) { if (a.kind == K_UNDEF || b.kind == K_UNDEF) violate("UNINIT", "undefined integer"); 
                    if ((n.op == O_SDIV || n.op == O_UDIV) && a.kind == K_SYM && b.kind == K_INT && b.i > 0 && a.i % b.i == 0 && (i64)a.v % b.i == 0) { *d = mkSym(a.i / b.i, (i64)a.v / b.i, a.w); break; }
                    unsup("division of symbolic integers"); }
                obCount++; if (b.i == 0) violate("DIV0", "integer division by zero");
                i64 r; if (n.op == O_SDIV) r = a.i / b.i; else if (n.op == O_SREM) r = a.i % b.i;
                else { u64 ua = n.width == 32 ? (uint32_t)a.i : (u64)a.i, ub = n.width == 32 ? (uint32_t)b.i : (u64)b.i; r = (i64)(n.op == O_UDIV ? ua / ub : ua % ub); }
                *d = mkInt(wrapInt(r, n.width, false)); break; }
            case O_AND: case O_OR: case O_XOR: case O_SHL: case O_ASHR: case O_LSHR: {
                Val &a = OP(0), &b = OP(1);
                if (a.kind != K_INT || b.kind != K_INT) { if (a.kind == K_UNDEF || b.kind == K_UNDEF) violate("UNINIT", "undefined integer");
                    if (n.op == O_SHL && a.kind == K_SYM && b.kind == K_INT) { *d = mkSym(a.i << b.i, (i64)a.v << b.i, a.w); break; }
                    if (n.width == 1 && n.op == O_XOR && a.kind == K_SBOOL) unsup("negated symbolic condition");
                    unsup("bit operation on symbolic integer"); }
                i64 r = 0; u64 ua = n.width == 32 ? (uint32_t)a.i : n.width == 1 ? (a.i & 1) : (u64)a.i;
                switch (n.op) { case O_AND: r = a.i & b.i; break; case O_OR: r = a.i | b.i; break; case O_XOR: r = a.i ^ b.i; break; case O_SHL: r = (i64)((u64)a.i << b.i); break; case O_ASHR: r = a.i >> b.i; break; default: r = (i64)(ua >> b.i); }
                uint8_t f = (a.flags | b.flags) & F_SYMDEP; *d = mkInt(wrapInt(r, n.width, false)); d->flags = f; break; }
            case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
                Val &a = OP(0), &b = OP(1);
                if (a.kind != K_REAL || b.kind != K_REAL) violate("UNINIT", "arithmetic on an undefined real");
                Val r; switch (n.op) { case O_FADD: r = radd(a, b); break; case O_FSUB: r = rsub(a, b); break; case O_FMUL: r = rmul(a, b); break; case O_FDIV: r = rdiv(a, b); break; default: unsup("frem"); }
                *d = r; break; }
            case O_FNEG: { Val &a = OP(0); if (a.kind != K_REAL) violate("UNINIT", "negation of an undefined real"); *d = rneg(a); break; }
            case O_ICMP: {
                Val &a = OP(0), &b = OP(1); using namespace llvm;
                if (a.kind == K_INT && b.kind == K_INT) {
                    i64 x = a.i, y = b.i; u64 ux = n.width == 32 ? (uint32_t)x : (u64)x, uy = n.width == 32 ? (uint32_t)y : (u64)y; bool r = false;
                    switch (n.pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break;
                        case CmpInst::ICMP_ULT: r = ux < uy; break; case CmpInst::ICMP_ULE: r = ux <= uy; break; case CmpInst::ICMP_UGT: r = ux > uy; break; case CmpInst::ICMP_UGE: r = ux >= uy; break; }
                    uint8_t f = (a.flags | b.flags) & F_SYMDEP; *d = mkInt(r); d->flags = f;
                } else if (a.kind == K_PTR || b.kind == K_PTR || a.kind == K_FUNC || b.kind == K_FUNC) {
                    if (a.kind == K_UNDEF || b.kind == K_UNDEF) violate("UNINIT", "comparison of an undefined pointer");
                    bool same = a.kind == b.kind && a.a == b.a && a.i == b.i && a.v == b.v;
                    // memory-zeroed pointers read back as integer 0
                    auto isnull = [](const Val &z) { return (z.kind == K_INT && z.i == 0) || (z.kind == K_PTR && z.a == 0 && z.i == 0); };
                    if (isnull(a) && isnull(b)) same = true;
                    if (n.pred == CmpInst::ICMP_EQ || n.pred == CmpInst::ICMP_NE) {
                        if (a.kind == K_PTR && b.kind == K_PTR && a.a == b.a && (a.v || b.v)) { Val x = mkSym(a.i, (i64)a.v, a.w), y = mkSym(b.i, (i64)b.v, b.w); *d = cmpSym(n.pred, x, y); }
                        else *d = mkInt(n.pred == CmpInst::ICMP_EQ ? same : !same);
                    } else {
                        if (a.kind != K_PTR || b.kind != K_PTR || a.a != b.a) unsup("ordering of unrelated pointers");
                        Val x = mkSym(a.i, (i64)a.v, a.w), y = mkSym(b.i, (i64)b.v, b.w); *d = cmpSym(n.pred, x, y);
                    }
                } else { *d = cmpSym(n.pred, a, b); 
                    // remember the range for the loop rule
                    d->i = d->kind == K_INT ? d->i : 0; d->a = 0; if (a.kind == K_SYM) d->a = (int)(a.w / 2) + 1; if (b.kind == K_SYM) d->a = (int)(b.w / 2) + 1; }
                if (d->kind == K_INT && (d->flags & F_SYMDEP) && d->a == 0) { if (a.kind == K_SYM) d->a = (int)(a.w / 2) + 1; else if (b.kind == K_SYM) d->a = (int)(b.w / 2) + 1; else if (b.kind == K_PTR && b.v) d->a = (int)(b.w / 2) + 1; else if (a.kind == K_PTR && a.v) d->a = (int)(a.w / 2) + 1; }
                break; }
            case O_FCMP: *d = doFcmp(n, OP(0), OP(1)); break;
            case O_LOAD: { Val r = memRead(OP(0), (int)n.imm, n.isReal == 1);
                if (n.isReal == 1 && r.kind != K_REAL) unsup("integer storage read as a real");
                if (n.isReal == 2 && r.kind == K_INT && r.i == 0) { r = Val(); r.kind = K_PTR; }
                if (n.isReal == 0 && r.kind == K_REAL) unsup("real storage read as an integer");
                *d = r; break; }
            case O_STORE: { Val &v = OP(0); Val p = OP(1); if (v.kind == K_UNDEF) violate("UNINIT", "store of an undefined value"); memWrite(p, (int)n.imm, v); break; }
            case O_GEP: {
                Val r = OP(0); if (r.kind == K_UNDEF) violate("UNINIT", "undefined pointer"); if (r.kind == K_INT && r.i == 0) { r = Val(); r.kind = K_PTR; }
                if (r.kind != K_PTR) unsup("gep base");
                r.i += n.imm;
                for (auto &g : n.gi) {
                    Val &x = *regOf(fr, g.op);
                    if (x.kind == K_INT) { if (g.bound >= 0) { obCount++; if (x.i < 0 || x.i > g.bound) violate("OOB", "index " + std::to_string(x.i) + " outside array dimension [" + std::to_string(g.bound) + "] of " + objDesc(objs[r.a])); } r.i += x.i * g.scale; r.flags |= x.flags & F_SYMDEP; }
                    else if (x.kind == K_SYM) { if (r.v && r.w != x.w) unsup("two symbolic indices"); if (g.bound >= 0) unsup("symbolic index into a fixed array"); r.i += x.i * g.scale; r.v = (u64)((i64)r.v + (i64)x.v * g.scale); r.w = x.w; }
                    else violate("UNINIT", "undefined index");
                }
                *d = r; break; }
            case O_SEXT: { Val r = OP(0); if (r.kind == K_UNDEF) violate("UNINIT", "undefined integer"); if (n.imm == 1 && r.kind == K_INT) r.i = r.i ? -1 : 0; *d = r; break; }
            case O_ZEXT: { Val r = OP(0); if (r.kind == K_UNDEF) violate("UNINIT", "undefined integer"); if (r.kind == K_INT) { if (n.imm == 32) r.i = (i64)(uint32_t)r.i; else if (n.imm == 1) r.i &= 1; else if (n.imm == 8) r.i &= 255; else if (n.imm == 16) r.i &= 65535; } *d = r; break; }
            case O_TRUNC: { Val r = OP(0); if (r.kind == K_INT) r.i = wrapInt(r.i, n.width, false); *d = r; break; }
            case O_SITOFP: case O_UITOFP: { Val &a = OP(0); if (a.kind != K_INT) { if (a.kind == K_UNDEF) violate("UNINIT", "undefined integer"); unsup("symbolic integer converted to real"); } i64 v = a.i; if (n.op == O_UITOFP && n.imm == 32) v = (uint32_t)v; if (n.op == O_UITOFP && n.imm == 64) { *d = mkRat((i128)(u64)v, 1, (double)(u64)v); } else *d = mkRat(v, 1, (double)v); break; }
            case O_FPTOSI: { Val &a = OP(0); if (a.kind != K_REAL) violate("UNINIT", "undefined real"); if (!(a.flags & F_CONST)) { int si = siteFor("fptosi", n); sites[si].t = true; sites[si].nt++; if (a.flags & F_MARK) unsup("index from loop-carried real"); }
                obCount++; if (!(fabs(a.x) < 9.2e18) || (n.width == 32 && fabs(a.x) >= 2147483648.0)) violate("INTOVERFLOW", "real to integer conversion out of range"); *d = mkInt((i64)a.x); break; }
            case O_FPCAST: case O_BITCAST: *d = OP(0); break;
            case O_PTRTOINT: unsup("ptrtoint"); break; case O_INTTOPTR: unsup("inttoptr"); break;
            case O_SELECT: { Val &c = OP(0); if (c.kind != K_INT) unsup("select on symbolic condition"); *d = c.i ? OP(1) : OP(2); break; }
            case O_ALLOCA: { Val &c = OP(0); if (c.kind != K_INT) unsup("alloca of symbolic size"); int id = newObj((u64)n.imm * c.i, OF_STACK, n.name); objs[id]->line = n.line; objs[id]->name = F->name + "::" + n.name; fr.allocas.push_back(id); Val p; p.kind = K_PTR; p.a = id; *d = p; break; }
            case O_EXTRACT: { Val &a = OP(0); if (a.kind != K_AGG) unsup("extractvalue"); *d = aggs[a.a][n.imm]; break; }
            case O_INSERT: { Val a = OP(0); Val e = OP(1); std::vector<Val> v(2); if (a.kind == K_AGG) v = aggs[a.a]; v[n.imm] = e; aggs.push_back(v); Val r; r.kind = K_AGG; r.a = (int)aggs.size() - 1; *d = r; break; }
            case O_CALL: case O_CALLIND: {
                int fid = n.target; size_t na = n.ops.size();
                if (n.op == O_CALLIND) { Val &f = OP(na - 1); na--; if (f.kind != K_FUNC) violate("NULLDEREF", "call through a bad function pointer"); fid = f.a; }
                Val args[32]; if (na > 32) unsup("too many arguments"); for (size_t k = 0; k < na; k++) args[k] = OP(k);
                int ln = n.line; Val r = callFunc(fid, args, (int)na); curFunc = F->name.c_str(); curLine = ln; if (d) fr.r[n.dst] = r; break; }
            case O_RET: res.st = R_RET; if (!n.ops.empty()) res.ret = OP(0); return res;
            case O_UNREACH: violate("UNREACHABLE", "control reaches an unreachable point"); break;
            case O_BR: nextBlk = n.b0; break;
            case O_CBR: {
                Val &c = OP(0);
                if (startGeneric) { startGeneric = false; bool t0 = inLoop && (*inLoop)[n.b0]; bool t1 = inLoop && (*inLoop)[n.b1];
                    // generic iteration: the condition must hold for the generic index (or be the concrete first iteration)
                    if (c.kind == K_INT) nextBlk = c.i ? n.b0 : n.b1;
                    else nextBlk = -2;
                    if (nextBlk == -2) { if (discovery && t0 != t1) nextBlk = t0 ? n.b0 : n.b1; else unsup("loop condition not implied by 0 <= kappa < n"); }
                    if (!(*inLoop)[nextBlk]) unsup("generic iteration leaves the loop");
                    break; }
                if (c.kind == K_UNDEF) violate("UNINIT", "branch on an undefined value");
                if (B.header && (c.kind == K_SBOOL || (c.flags & F_SYMDEP))) {
                    bool t0 = B.inLoop[n.b0], t1 = B.inLoop[n.b1];
                    if (t0 != t1) {
                        int body = t0 ? n.b0 : n.b1, ex = t0 ? n.b1 : n.b0;
                        // was it already finished (phi at n)?
                        if (c.kind == K_INT && !(t0 ? c.i : !c.i)) { nextBlk = ex; break; }
                        n.imm = c.a; if (n.imm == 0) unsup("symbolic loop without a range");
                        int e = loopRule(fr, blk, body, ex, n.line);
                        // re-evaluate header instructions with final phi values is unnecessary for values used after the loop only through phis;
                        // recompute them for safety
                        nextBlk = e; 
                        // recompute non-phi header values
                        for (size_t jj = 0; jj + 1 < B.insts.size(); jj++) { Inst &h = B.insts[jj]; if (h.dst >= 0 && h.op != O_LOAD && h.op != O_CALL && h.op != O_CALLIND) { /* values are dead outside well-formed for-loops */ } }
                        break;
                    }
                }
                if (c.kind == K_SBOOL) unsup("branch on a symbolic range");
                nextBlk = c.i ? n.b0 : n.b1; break; }
            case O_SWITCH: { Val &c = OP(0); if (c.kind != K_INT) { if (c.kind == K_UNDEF) violate("UNINIT", "switch on an undefined value"); unsup("switch on symbolic value"); } nextBlk = n.b0; for (auto &cs : n.cases) if (cs.first == c.i) { nextBlk = cs.second; break; } break; }
            case O_NOP: break;
            default: unsup("instruction " + n.name);
            }
        }
        if (stop >= 0) {
            if (nextBlk == stop) { res.st = R_HEADER; res.prev = blk; return res; }
            if (inLoop && !(*inLoop)[nextBlk]) { res.st = R_EXIT; res.prev = blk; return res; }
        }
        prev = blk; blk = nextBlk;
    }
}

static int mallocObj(const Val &sz, bool zero) {
    if (sz.kind == K_INT) { if (sz.i < 0) violate("OOB", "negative allocation size"); int id = newObj((u64)sz.i, OF_HEAP, std::string("heap block from ") + curFunc + ":" + std::to_string(curLine)); objs[id]->zero = zero; return id; }
    if (sz.kind == K_SYM && sz.w % 2 == 0 && sz.i >= 0) { int id = newObj(0, OF_HEAP | OF_SYM, std::string("heap block from ") + curFunc + ":" + std::to_string(curLine)); Obj *o = objs[id]; o->range = (int)(sz.w / 2); o->esz = (int)(i64)sz.v; o->symZero = zero; return id; }
    unsup("allocation of unsupported symbolic size");
}
static Val ptrTo(int id) { Val p; p.kind = K_PTR; p.a = id; return p; }
static int depth = 0;
static Val callFunc(int fid, const Val *args, int n) {
    Func *F = funcs[fid];
    F->calls++;
    if (F->contract >= 0) {
        Val ret; const char *of = curFunc; int ol = curLine; (void)of; (void)ol;
        int st = contractCB(fid, args, n, &ret);
        if (st == 0) return ret;
        if (st != 100) throw Fatal{st}; // 100: decline -> inline the body
    }
    if (!F->decl) {
        if (!F->decoded) decode(F);
        if (depth > 200) unsup("recursion depth");
        Frame fr; fr.F = F; fr.r.resize(F->nregs);
        for (int k = 0; k < n && k < F->nargs; k++) fr.r[k] = args[k];
        size_t ag = aggs.size(); depth++;
        RunRes r;
        try { r = runFrom(fr, 0, -1, -1, nullptr, false); } catch (...) { depth--; throw; }
        depth--;
        for (int id : fr.allocas) { Obj *o = objs[id]; o->alive = false; if (!epoch || o->birth >= epoch) o->pages.clear(); else journal.push_back({2, id, 0, Val(), 0}); }
        if (r.ret.kind == K_AGG) { auto v = aggs[r.ret.a]; aggs.resize(ag); aggs.push_back(v); r.ret.a = (int)aggs.size() - 1; }
        else if (depth == 0) aggs.resize(ag);
        return r.ret;
    }
    const std::string &nm = F->name; Val ret;
    auto R = [&](int k) -> const Val & { if (args[k].kind != K_REAL) violate("UNINIT", "undefined real passed to " + nm); return args[k]; };
    if (nm == "exp" || nm == "llvm.exp.f64") return rexp(R(0));
    if (nm == "sqrt" || nm == "llvm.sqrt.f64") return rsqrt_(R(0));
    if (nm == "expm1") return radd(rexp(R(0)), constReal(-1));
    if (nm == "hypot") return rsqrt_(radd(rmul(R(0), R(0)), rmul(R(1), R(1))));
    if (nm == "cosh") return rmul(constReal(0.5), radd(rexp(R(0)), rexp(rneg(R(0)))));
    if (nm == "sinh") return rmul(constReal(0.5), radd(rexp(R(0)), rneg(rexp(rneg(R(0))))));
    if (nm == "ldexp") { if (args[1].kind != K_INT) unsup("ldexp"); return rmul(R(0), constReal(ldexp(1.0, (int)args[1].i))); }
    if (nm == "erfc") { if (R(0).v == 0) return constReal(1); return radd(constReal(1), rneg(rprf1("erf", R(0), erf(R(0).x)))); }
    if (nm == "llvm.is.fpclass.f64") { double x = R(0).x; int c = x == 0 ? 6 : x > 0 ? 8 : 3; return mkInt((args[1].i >> c) & 1); }
    if (nm == "memcmp") {
        if (args[2].kind != K_INT || args[2].i % 4 || args[0].kind != K_PTR || args[1].kind != K_PTR) unsup("memcmp");
        for (i64 k = 0; k < args[2].i; k += 4) {
            Val a = args[0], b = args[1]; a.i += k; b.i += k; Val x = memRead(a, 4, false), y = memRead(b, 4, false);
            if (x.kind == K_UNDEF || y.kind == K_UNDEF) violate("UNINIT", "memcmp of undefined memory");
            if (x.kind != K_INT || y.kind != K_INT) unsup("memcmp of symbolic values");
            unsigned u = (unsigned)x.i, w = (unsigned)y.i; if (u != w) { u = __builtin_bswap32(u); w = __builtin_bswap32(w); return mkInt(u < w ? -1 : 1); }
        }
        return mkInt(0);
    }
    if (nm == "pow" || nm == "llvm.pow.f64") return rpow(R(0), R(1));
    if (nm == "log") { if (R(0).x <= 0) event("SQRTNEG", "log of a non-positive number"); return rprf1("log", R(0), log(R(0).x)); }
    if (nm == "erf") { if (R(0).v == 0) return constReal(0); return rprf1("erf", R(0), erf(R(0).x)); }
    if (nm == "llvm.fabs.f64" || nm == "fabs" || nm == "llvm.fabs.f80") { const Val &a = R(0); return a.x < 0 ? rneg(a) : a; }
    if (nm == "llvm.floor.f64" || nm == "floor") { const Val &a = R(0); if (a.flags & F_CONST) return constReal(floor(a.x)); Val r = rprf1("floor", a, floor(a.x)); return r; }
    if (nm == "llvm.round.f64" || nm == "round") { const Val &a = R(0); if (a.flags & F_CONST) return constReal(round(a.x)); return rprf1("round", a, round(a.x)); }
    if (nm == "llvm.fmuladd.f64" || nm == "fma" || nm == "llvm.fma.f64") return radd(rmul(R(0), R(1)), R(2));
    if (nm == "sin") return rprf1("sin", R(0), sin(R(0).x));
    if (nm == "cos") return rprf1("cos", R(0), cos(R(0).x));
    if (nm == "fmax" || nm == "llvm.maxnum.f64") return R(0).x >= R(1).x ? R(0) : R(1);
    if (nm == "fmin" || nm == "llvm.minnum.f64") return R(0).x <= R(1).x ? R(0) : R(1);
    if (nm.rfind("llvm.abs.", 0) == 0) { if (args[0].kind != K_INT) unsup("abs"); return mkInt(args[0].i < 0 ? -args[0].i : args[0].i); }
    if ((nm.rfind("llvm.smax.", 0) == 0 || nm.rfind("llvm.smin.", 0) == 0) && (args[0].kind != K_INT || args[1].kind != K_INT)) unsup("maximum of symbolic integers");
    if (nm == "llvm.smax.i64") return mkInt(std::max(args[0].i, args[1].i));
    if (nm == "llvm.smin.i64") return mkInt(std::min(args[0].i, args[1].i));
    if (nm == "labs") { if (args[0].kind != K_INT) unsup("abs"); return mkInt(args[0].i < 0 ? -args[0].i : args[0].i); }
    if (nm == "llvm.smax.i32") return mkInt(std::max(args[0].i, args[1].i));
    if (nm == "llvm.smin.i32") return mkInt(std::min(args[0].i, args[1].i));
    if (nm == "malloc") return ptrTo(mallocObj(args[0], false));
    if (nm == "calloc") { Val s = (args[0].kind == K_INT && args[1].kind == K_INT) ? mkInt(args[0].i * args[1].i) : symArith(O_MUL, args[0], args[1]); return ptrTo(mallocObj(s, true)); }
    if (nm == "realloc") {
        if (args[0].a == 0) return ptrTo(mallocObj(args[1], false));
        Obj *o = objs[args[0].a]; if (!o->alive) violate("USE_AFTER_FREE", "realloc of a released block"); if (args[1].kind != K_INT || o->range >= 0) {
            if (o->range >= 0) { // shrinking a symbolic block: keep contents
                unsup("realloc of symbolic block"); }
            unsup("realloc of symbolic size"); }
        int id = mallocObj(args[1], false); u64 m = std::min(o->size, objs[id]->size); m -= m % 4; Val d = ptrTo(id), s = args[0];
        bool fc = frameCheck; frameCheck = false; memCopy(d, s, (i64)m); frameCheck = fc; freeObj(args[0].a, "realloc"); return d;
    }
    if (nm == "free") { if (args[0].kind == K_INT && args[0].i == 0) return ret; if (args[0].kind != K_PTR) violate("BADFREE", "free of an undefined pointer"); if (args[0].a && args[0].i != 0) violate("BADFREE", "free of an interior pointer"); freeObj(args[0].a, "free"); return ret; }
    if (nm.rfind("llvm.memset", 0) == 0 || nm == "memset") { if (args[1].kind != K_INT || args[1].i != 0) unsup("memset with non-zero byte"); if (args[2].kind != K_INT) {
            if (args[2].kind == K_SYM && args[0].kind == K_PTR && objs[args[0].a]->range >= 0) { objs[args[0].a]->slots.clear(); objs[args[0].a]->symZero = true; return args[0]; } unsup("memset of symbolic size"); } memSetZero(args[0], args[2].i); return args[0]; }
    if (nm.rfind("llvm.memcpy", 0) == 0 || nm.rfind("llvm.memmove", 0) == 0 || nm == "memcpy" || nm == "memmove") {
        if (args[2].kind == K_SYM && args[0].kind == K_PTR && args[1].kind == K_PTR && objs[args[0].a]->range >= 0 && objs[args[0].a]->range == objs[args[1].a]->range && objs[args[0].a]->esz == objs[args[1].a]->esz && args[2].w == (u64)(2 * objs[args[0].a]->range) && (i64)args[2].v == objs[args[0].a]->esz && args[2].i == 0) {
            checkAlive(args[0].a, "memcpy"); checkAlive(args[1].a, "memcpy");
            Obj *o = objs[args[0].a], *s = objs[args[1].a]; for (auto &sl : s->slots) { Val d = args[0]; d.v = o->esz; d.w = 2 * o->range + 1; d.i = sl.off; memWrite(d, sl.size, sl.val); } return args[0]; }
        if (args[2].kind != K_INT) unsup("memcpy of symbolic size"); memCopy(args[0], args[1], args[2].i); return args[0]; }
    if (nm.rfind("llvm.lifetime", 0) == 0 || nm.rfind("llvm.dbg", 0) == 0 || nm.rfind("__kmpc", 0) == 0 || nm.rfind("llvm.assume", 0) == 0 || nm.rfind("omp_", 0) == 0) return mkInt(0);
    if (nm == "printf" || nm == "puts" || nm == "fprintf" || nm == "putchar" || nm == "fflush") { return mkInt(0); }
    if (nm == "__assert_fail") violate("ASSERT", "assertion fails");
    if (nm == "exit" || nm == "abort") violate("ABORT", nm + "() is called");
    unsup("call of external function " + nm);
}

// ---------------------------------------------------------------- C API
static void reseedFields(int pi, u64 seed) {
    P = PRIMES[pi].p; Q = PRIMES[pi].q; PI_ = 1.0L / P; QI_ = 1.0L / Q; SEED = seed; rngstate = hash2(seed, 99);
    constCache.clear(); buildFactTab();
    u64 h = 2; for (;; h++) { G = powP(h, 2 * PRIMES[pi].k); if (G != 1) break; }
    for (;;) { SQPIv = Val(); SQPIv.kind = K_REAL; SQPIv.flags = F_CONST; SQPIv.v = rnd() % P; SQPIv.w = rnd() % Q; SQPIv.x = sqrt(M_PI); if (SQPIv.v && isQR(SQPIv.v)) break; }
    PIv = rmul(SQPIv, SQPIv); PIv.x = M_PI;
    u64 key; double d = M_PI; memcpy(&key, &d, 8); constCache[key] = PIv;
}
template <class Fn> static int guard(Fn f) {
    try { f(); return needReseed ? ST_RESEED : ST_OK; } catch (Fatal &e) { depth = 0; discovery = false; for (auto &r : ranges) r.active = 0; return e.code; }
}
extern "C" {
int dv_open(const char *path, int pi, u64 seed) {
    reseedFields(pi, seed);
    CTX = new llvm::LLVMContext; llvm::SMDiagnostic err; M = llvm::parseIRFile(path, err, *CTX);
    if (!M) { std::string s; llvm::raw_string_ostream o(s); err.print("dv", o); fprintf(stderr, "%s\n", s.c_str()); return 1; }
    DL = &M->getDataLayout();
    objs.push_back(new Obj); objs[0]->alive = false; objs[0]->name = "NULL";
    for (auto &f : *M) { Func *F = new Func; F->name = f.getName().str(); F->decl = f.isDeclaration(); F->lf = &f; F->nargs = (int)f.arg_size(); for (auto &a : f.args()) F->argReal.push_back(a.getType()->isFloatingPointTy() ? 1 : a.getType()->isPointerTy() ? 2 : 0); F->retReal = f.getReturnType()->isFloatingPointTy() ? 1 : f.getReturnType()->isPointerTy() ? 2 : f.getReturnType()->isVoidTy() ? 3 : 0; funcs.push_back(F); funcId[&f] = (int)funcs.size() - 1; funcByName[F->name] = (int)funcs.size() - 1; }
    for (auto &g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); int id = newObj(sz, OF_GLOBAL | (g.isConstant() ? OF_CONSTG : 0), g.getName().str()); globalObj[&g] = id; }
    for (auto &g : M->globals()) { Obj *o = objs[globalObj[&g]]; if (g.hasInitializer()) { o->init = g.getInitializer(); o->ity = g.getValueType(); } }
    return 0;
}
int dv_func(const char *name) { auto it = funcByName.find(name); return it == funcByName.end() ? -1 : it->second; }
int dv_nfuncs() { return (int)funcs.size(); }
const char *dv_func_name(int f) { return funcs[f]->name.c_str(); }
int dv_func_sig(int f, int *n, uint8_t *kinds, int *ret, int *decl) { *n = funcs[f]->nargs; for (int k = 0; k < *n && k < 32; k++) kinds[k] = funcs[f]->argReal[k]; *ret = funcs[f]->retReal; *decl = funcs[f]->decl; return 0; }
u64 dv_func_calls(int f) { return funcs[f]->calls; }
void dv_reset_calls() { for (auto *f : funcs) f->calls = 0; }
void dv_set_callback(ContractCB cb) { contractCB = cb; }
int dv_set_contract(const char *name, int on) { int f = dv_func(name); if (f < 0) return -1; funcs[f]->contract = on ? f : -1; return f; }
void dv_clear_contracts() { for (auto *f : funcs) f->contract = -1; }
int dv_call(int f, const Val *args, int n, Val *ret) { return guard([&] { *ret = callFunc(f, args, n); }); }
int dv_new_obj(u64 size, int flags, const char *name) { return newObj(size, flags, name); }
int dv_new_symobj(int range, int esz, int flags, const char *name) { int id = newObj(0, flags | OF_SYM, name); objs[id]->range = range; objs[id]->esz = esz; return id; }
void dv_sym_set(int id, int off, int size, const Val *v) { Obj *o = objs[id]; SymSlot *s = findSlot(o, off, size); if (s) s->val = *v; else o->slots.push_back({off, size, *v, false}); }
int dv_sym_get(int id, int off, int size, Val *v) { Obj *o = objs[id]; SymSlot *s = findSlot(o, off, size); if (!s) { if (o->symZero) { *v = constReal(0); return 0; } return 1; } *v = s->val; return 0; }
void dv_sym_first(int id, const Val *v) { objs[id]->hasFirst = true; objs[id]->first = *v; }
void dv_set_flags(int id, int flags) { objs[id]->flags = flags; }
int dv_get_flags(int id) { return objs[id]->flags; }
int dv_new_range(const char *name) { Range r; r.name = name; r.omega = prfVal(hash2(hashstr(name), 0x0e6a), 1.0); ranges.push_back(r); return (int)ranges.size() - 1; }
void dv_range_omega(int r, Val *v) { *v = ranges[r].omega; }
void dv_range_n(int r, Val *v) { *v = mkSym(0, 1, 2 * r); }
int dv_read(int obj, i64 off, int size, int isReal, Val *out) { return guard([&] { Val p = ptrTo(obj); p.i = off; *out = memRead(p, size, isReal); }); }
int dv_write(int obj, i64 off, int size, const Val *v) { return guard([&] { Val p = ptrTo(obj); p.i = off; bool fc = frameCheck; frameCheck = false; try { memWrite(p, size, *v); } catch (...) { frameCheck = fc; throw; } frameCheck = fc; }); }
int dv_cread(const Val *p, int size, int isReal, Val *out) { return guard([&] { *out = memRead(*p, size, isReal); }); }
int dv_cwrite(const Val *p, int size, const Val *v) { return guard([&] { memWrite(*p, size, *v); }); }
int dv_read_reals(int obj, i64 off, i64 n, u64 *v, double *x, uint8_t *fl) {
    return guard([&] { for (i64 k = 0; k < n; k++) { Val p = ptrTo(obj); p.i = off + 8 * k; Val r = memRead(p, 8, true); if (r.kind != K_REAL) unsup("not a real"); v[k] = r.v; x[k] = r.x; fl[k] = r.flags; } });
}
int dv_write_vals(int obj, i64 off, i64 n, const Val *v, int size) { return guard([&] { bool fc = frameCheck; frameCheck = false; for (i64 k = 0; k < n; k++) { Val p = ptrTo(obj); p.i = off + size * k; memWrite(p, size, v[k]); } frameCheck = fc; }); }
void dv_fill_garbage(int obj, u64 tag) { Obj *o = objs[obj]; for (u64 k = 0; k < o->size / 8; k++) { Val g = prfVal(hash2(hash2(tag, k), 0x6a7b), 1.0 + (k % 7)); g.flags = F_GARB; Val p = ptrTo(obj); p.i = 8 * k; bool fc = frameCheck; frameCheck = false; memWrite(p, 8, g); frameCheck = fc; } }
void dv_const(double d, Val *v) { *v = constReal(d); }
void dv_int(i64 d, Val *v) { *v = mkInt(d); }
void dv_rat(i64 n, i64 d, Val *v) { *v = mkRat(n, d, (double)n / d); }
void dv_pi(Val *v) { *v = PIv; }
void dv_symbol(const char *name, double x, int positive, Val *v) { u64 h = hashstr(name); for (u64 t = 0;; t++) { *v = prfVal(hash2(h, t), x); if (!positive || isQR(v->v)) break; } v->kind = K_REAL; v->flags = 0; }
void dv_prf(const char *tag, const Val *a, int n, double x, Val *v) { u64 h = hashstr(tag); uint8_t f = F_CONST; uint8_t g = 0; for (int k = 0; k < n; k++) { h = hash2(h, a[k].kind == K_REAL ? hash2(a[k].v, a[k].w) : hash2(a[k].kind, (u64)a[k].i)); if (a[k].kind == K_REAL) { f &= a[k].flags; g |= a[k].flags & (F_MARK | F_GARB); } } *v = prfVal(h, x); (void)f; v->flags = g; }
int dv_op(int op, const Val *a, const Val *b, Val *r) { switch (op) { case 0: *r = radd(*a, *b); break; case 1: *r = rsub(*a, *b); break; case 2: *r = rmul(*a, *b); break; case 3: *r = rdiv(*a, *b); break; case 4: *r = rsqrt_(*a); break; case 5: *r = rexp(*a); break; case 6: *r = rneg(*a); break; case 7: *r = rpow(*a, *b); break; case 8: *r = rprf1("log", *a, log(a->x)); break; case 9: if (a->v == 0) *r = constReal(0); else *r = rprf1("erf", *a, erf(a->x)); break; } return needReseed; }
u64 dv_G() { return G; } u64 dv_P() { return P; } u64 dv_Q() { return Q; }
int dv_reseed_needed() { int r = needReseed; needReseed = false; return r; }
void dv_frame_check(int on) { frameCheck = on; frameMark = (int)objs.size(); }
int dv_checkpoint(size_t *j, uint32_t *e) { Checkpoint c = checkpoint(); *j = c.j; *e = c.e; return 0; }
void dv_undo(size_t j, uint32_t e) { Checkpoint c{j, e}; undoTo(c); }
int dv_nobj() { return (int)objs.size(); }
int dv_live_heap(int from, int *out, int max) { int n = 0; for (size_t k = from; k < objs.size(); k++) if (objs[k]->alive && (objs[k]->flags & OF_HEAP)) { if (n < max) out[n] = (int)k; n++; } return n; }
const char *dv_obj_name(int id) { return objs[id]->name.c_str(); }
i64 dv_obj_size(int id) { return objs[id]->range >= 0 ? -1 : (i64)objs[id]->size; }
int dv_obj_alive(int id) { return objs[id]->alive; }
int dv_obj_range(int id) { return objs[id]->range; }
int dv_global(const char *name) { for (auto &g : M->globals()) if (g.getName() == name) return globalObj[&g]; return -1; }
void dv_drop_dead() { for (auto *o : objs) if (!o->alive) { o->pages.clear(); o->pages.shrink_to_fit(); o->slots.clear(); } }
static std::string js(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; } return r; }
static std::string jbuf;
const char *dv_events() { jbuf = "["; for (size_t k = 0; k < events.size(); k++) { auto &e = events[k]; jbuf += (k ? "," : "") + std::string("{\"kind\":\"") + e.kind + "\",\"func\":\"" + js(e.func) + "\",\"line\":" + std::to_string(e.line) + ",\"msg\":\"" + js(e.msg) + "\",\"count\":" + std::to_string(e.count) + "}"; } jbuf += "]"; return jbuf.c_str(); }
void dv_clear_events() { events.clear(); eventIdx.clear(); needReseed = false; }
const char *dv_sites() { jbuf = "["; for (size_t k = 0; k < sites.size(); k++) { auto &s = sites[k]; char b[512]; snprintf(b, 512, "%s{\"id\":%zu,\"func\":\"%s\",\"kind\":\"%s\",\"line\":%d,\"nt\":%llu,\"nf\":%llu,\"cls\":%d,\"thr\":%.6g,\"mind\":%.6g}", k ? "," : "", k, js(s.func).c_str(), s.kind.c_str(), s.line, (unsigned long long)s.nt, (unsigned long long)s.nf, s.cls, s.thr, s.mind); jbuf += b; } jbuf += "]"; return jbuf.c_str(); }
void dv_clear_sites() { for (auto &s : sites) { s.t = s.f = false; s.nt = s.nf = 0; s.mind = 1e300; } }
void dv_force(int site, int val) { sites[site].forced = val; }
void dv_unforce() { for (auto &s : sites) s.forced = -1; }
u64 dv_obligations() { return obCount; }
u64 dv_steps() { return stepCount; }
void dv_step_limit(u64 n) { stepLimit = n ? stepCount + n : ~0ull; }
}
