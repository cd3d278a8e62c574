// Runtime of the symbolic executor: expression table, shadow memory, path condition, Z3 queries,
// path scheduler. Built as a shared library; nothing of it is instrumented.
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <string>
#include <system_error>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include "z3dl.h"

#define EXP __attribute__((visibility("default")))
typedef uint32_t Sh;

extern "C" {
extern Sh __sx_args[64];
extern Sh __sx_ret[16];
extern void* __sx_callee;
extern void* __sx_retfn;
extern void* __sx_byval[64];
}
extern "C" void sxg_harness();
extern "C" void sxg_prepare();
extern "C" void sxg_ostream_insert(void* os, const char* s, size_t n);

namespace {

// fixed-length text of a finite double: +d.ddddddddddddddddde+ddd
void fpText(char* t, double d)
{
    snprintf(t, 64, "%+.17e", d);
    if (strlen(t) == 24) { memmove(t + 23, t + 22, 3); t[22] = '0'; }
}

//---------------------------------------------------------------- expressions
enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_EQ, O_ULT, O_SLT, O_NOT, O_ITE, O_ZEXT, O_SEXT, O_EXTR, O_CONCAT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
    O_DIGIT, O_HEXD /* digit number, HexUp: upper case */, O_FPCH, O_CTPOP, O_CTLZ, O_CTTZ
};

static const uint64_t HexUp = 256;

struct Node {
    uint8_t op, w;
    uint16_t depth;
    Sh a, b, c;
    uint64_t k;         // constant value / var index / extract offset / digit index
    uint64_t cv;        // value on the current path
    uint64_t lo, hi;    // unsigned range
    uint64_t hash;
    uint64_t v0, v1;    // variables it depends on
    Z3_ast z;
};

std::vector<Node> N;
std::vector<Sh> HT;     // open addressing
size_t HTmask = 0;

struct Var { std::string name; unsigned w; uint64_t lo, hi, val; Sh node; };
std::vector<Var> vars;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

// loss accounting: anything that makes exploration less than exhaustive
struct Stats {
    uint64_t decisions, queries, sat, unsat, unknown, us, stale, conc, nlost, loads_sym;
} S;
std::map<std::string, uint64_t> lostWhy;
bool exploring = false;     // inside a path
void lost(const char* why) { if (!exploring) return; S.nlost++; lostWhy[why]++; }

uint64_t evalop(uint8_t op, unsigned w, uint64_t k, const Node* a, const Node* b, const Node* c)
{
    uint64_t x = a ? a->cv : 0, y = b ? b->cv : 0, m = maskw(w);
    unsigned aw = a ? a->w : 0;
    switch (op) {
    case O_ADD: return (x + y) & m; case O_SUB: return (x - y) & m; case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? (x / y) & m : m;
    case O_UREM: return y ? (x % y) & m : x;
    case O_SDIV: { int64_t p = sxt(x, w), q = sxt(y, w); if (!q) return p < 0 ? 1 : m; if (q == -1) return (0 - x) & m; return (uint64_t)(p / q) & m; }
    case O_SREM: { int64_t p = sxt(x, w), q = sxt(y, w); if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & m; }
    case O_SHL: return y >= w ? 0 : (x << y) & m;
    case O_LSHR: return y >= w ? 0 : (x >> y) & m;
    case O_ASHR: return (uint64_t)(sxt(x, w) >> (y >= w ? w - 1 : y)) & m;
    case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
    case O_EQ: return x == y; case O_ULT: return x < y; case O_SLT: return sxt(x, aw) < sxt(y, b->w);
    case O_NOT: return !x;
    case O_ITE: return x ? y : c->cv;
    case O_ZEXT: return x;
    case O_SEXT: return (uint64_t)sxt(x, aw) & m;
    case O_EXTR: return (x >> k) & m;
    case O_CONCAT: return ((x << b->w) | y) & m;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
        if (w == 64) {
            double p, q, r; memcpy(&p, &x, 8); memcpy(&q, &y, 8);
            r = op == O_FADD ? p + q : op == O_FSUB ? p - q : op == O_FMUL ? p * q : op == O_FDIV ? p / q : fmod(p, q);
            uint64_t o; memcpy(&o, &r, 8); return o;
        } else {
            float p, q, r; memcpy(&p, &x, 4); memcpy(&q, &y, 4);
            r = op == O_FADD ? p + q : op == O_FSUB ? p - q : op == O_FMUL ? p * q : op == O_FDIV ? p / q : fmodf(p, q);
            uint32_t o; memcpy(&o, &r, 4); return o;
        }
    case O_FPEXT: { float p; memcpy(&p, &x, 4); double r = p; uint64_t o; memcpy(&o, &r, 8); return o; }
    case O_FPTRUNC: { double p; memcpy(&p, &x, 8); float r = (float)p; uint32_t o; memcpy(&o, &r, 4); return o; }
    case O_SITOFP: case O_UITOFP: {
        if (w == 64) { double r = op == O_SITOFP ? (double)sxt(x, aw) : (double)x; uint64_t o; memcpy(&o, &r, 8); return o; }
        float r = op == O_SITOFP ? (float)sxt(x, aw) : (float)x; uint32_t o; memcpy(&o, &r, 4); return o;
    }
    case O_FPTOSI: case O_FPTOUI: {
        double p; if (aw == 64) memcpy(&p, &x, 8); else { float f; memcpy(&f, &x, 4); p = f; }
        if (op == O_FPTOSI) return (uint64_t)(int64_t)p & m;
        return (uint64_t)p & m;
    }
    case O_DIGIT: { for (uint64_t i = 0; i < k; ++i) x /= 10; return '0' + x % 10; }
    case O_HEXD: return (k & HexUp ? "0123456789ABCDEF" : "0123456789abcdef")[(x >> (4 * (k & 255))) & 15];
    case O_FPCH: { char t[64]; double d; memcpy(&d, &x, 8); fpText(t, d); return (unsigned char)t[k]; }
    case O_CTPOP: return __builtin_popcountll(x);
    case O_CTLZ: { if (!x) return w; return __builtin_clzll(x) - (64 - w); }
    case O_CTTZ: { if (!x) return w; return __builtin_ctzll(x); }
    }
    return 0;
}

void growHT()
{
    size_t n = HTmask ? (HTmask + 1) * 2 : 65536;
    HT.assign(n, 0); HTmask = n - 1;
    for (Sh i = 1; i < N.size(); ++i) {
        size_t h = N[i].hash & HTmask;
        while (HT[h]) h = (h + 1) & HTmask;
        HT[h] = i;
    }
}

void initExpr() { N.clear(); N.emplace_back(); memset(&N[0], 0, sizeof(Node)); HTmask = 0; growHT(); }

uint64_t pow2up(uint64_t v) { uint64_t m = v; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; return m; }

Sh raw(uint8_t op, unsigned w, Sh a, Sh b, Sh c, uint64_t k, uint64_t lo, uint64_t hi, uint64_t cvForVar = 0)
{
    uint64_t h = mixh(op * 131 + w, k);
    h = mixh(h, a ? N[a].hash : 0); h = mixh(h, b ? N[b].hash : 1); h = mixh(h, c ? N[c].hash : 2);
    size_t p = h & HTmask;
    while (HT[p]) {
        const Node& n = N[HT[p]];
        if (n.hash == h && n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.k == k) return HT[p];
        p = (p + 1) & HTmask;
    }
    Node n; memset(&n, 0, sizeof n);
    n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.k = k; n.lo = lo; n.hi = hi; n.hash = h;
    if (op == O_CONST) n.cv = k;
    else if (op == O_VAR) { n.cv = cvForVar; (k & 64 ? n.v1 : n.v0) = 1ull << (k & 63); }
    else {
        n.cv = evalop(op, w, k, a ? &N[a] : nullptr, b ? &N[b] : nullptr, c ? &N[c] : nullptr);
        for (Sh x : {a, b, c}) if (x) { n.v0 |= N[x].v0; n.v1 |= N[x].v1; n.depth = std::max<unsigned>(n.depth, std::min(60000, N[x].depth + 1)); }
    }
    N.push_back(n);
    HT[p] = N.size() - 1;
    Sh r = N.size() - 1;
    if (N.size() * 2 > HTmask) growHT();
    return r;
}

inline Sh K(uint64_t v, unsigned w) { v &= maskw(w); return raw(O_CONST, w, 0, 0, 0, v, v, v); }
inline bool isK(Sh s) { return N[s].op == O_CONST; }
inline bool isK(Sh s, uint64_t v) { return N[s].op == O_CONST && N[s].k == v; }
inline Sh H(Sh s, uint64_t v, unsigned w) { return s ? s : K(v, w); }
// handle 0 is what travels through shadows for constants
inline Sh out(Sh s) { return isK(s) ? 0 : s; }

bool constTree(Sh s, int d)
{
    if (isK(s)) return true;
    return d > 0 && N[s].op == O_ITE && constTree(N[s].b, d - 1) && constTree(N[s].c, d - 1);
}
Sh mkbin(uint8_t op, unsigned w, Sh a, Sh b);
Sh mknot(Sh a);
Sh mkite(Sh c, Sh x, Sh y);
Sh mkcmp(uint8_t op, Sh a, Sh b);
Sh mkextr(Sh a, unsigned lo, unsigned w);
Sh mkzext(Sh a, unsigned w);
Sh mkconcat(Sh a, Sh b);

std::unordered_map<Sh, bool> decided;      // truth values fixed by the branches taken on this path
// a truth value that the path has fixed already
Sh known(Sh a)
{
    if (N[a].w != 1 || isK(a) || decided.empty()) return a;
    bool neg = N[a].op == O_NOT;
    auto it = decided.find(neg ? N[a].a : a);
    return it == decided.end() ? a : K(it->second != neg, 1);
}

// intervals (unsigned) that the branches taken on this path imply
struct R { uint64_t lo, hi; };
std::unordered_map<Sh, R> pathB;
R rng(Sh a, int d = 6)
{
    Node n = N[a]; R r{n.lo, n.hi};
    if (pathB.empty() || isK(a)) return r;
    uint64_t m = maskw(n.w);
    auto cut = [&r](uint64_t lo, uint64_t hi) { uint64_t l = std::max(r.lo, lo), h = std::min(r.hi, hi); if (l <= h) { r.lo = l; r.hi = h; } };
    auto it = pathB.find(a);
    if (it != pathB.end()) cut(it->second.lo, it->second.hi);
    if (d) switch (n.op) {
    case O_ZEXT: { R x = rng(n.a, d - 1); cut(x.lo, x.hi); break; }
    case O_SEXT: {
        unsigned iw = N[n.a].w; if (iw < 2) break;
        R x = rng(n.a, d - 1); uint64_t half = maskw(iw - 1);
        if (x.hi <= half) cut(x.lo, x.hi);
        else if (x.lo > half) cut((uint64_t)sxt(x.lo, iw) & m, (uint64_t)sxt(x.hi, iw) & m);
        break;
    }
    case O_ADD: if (isK(n.b)) { R x = rng(n.a, d - 1); uint64_t l = (x.lo + N[n.b].k) & m, h = (x.hi + N[n.b].k) & m; if (l <= h && h - l == x.hi - x.lo) cut(l, h); } break;
    case O_SUB: if (isK(n.a)) { R x = rng(n.b, d - 1); uint64_t l = (N[n.a].k - x.hi) & m, h = (N[n.a].k - x.lo) & m; if (l <= h && h - l == x.hi - x.lo) cut(l, h); } break;
    case O_EXTR: {
        R x = rng(n.a, d - 1); unsigned k = n.k; uint64_t l = x.lo >> k, h = x.hi >> k;
        if (n.w < 64 && (l >> n.w) != (h >> n.w)) break;
        cut(l & m, h & m);
        break;
    }
    case O_CONCAT: { R x = rng(n.a, d - 1), y = rng(n.b, d - 1); unsigned bw = N[n.b].w; cut((x.lo << bw) | y.lo, (x.hi << bw) | y.hi); break; }
    case O_ITE: if (n.w > 1) { R x = rng(n.b, d - 1), y = rng(n.c, d - 1); cut(std::min(x.lo, y.lo), std::max(x.hi, y.hi)); } break;
    case O_DIGIT: {
        R x = rng(n.a, d - 1); uint64_t p = 1; for (uint64_t i = 0; i < n.k; ++i) p *= 10;
        uint64_t l = x.lo / p, h = x.hi / p;
        if (l / 10 == h / 10) cut('0' + l % 10, '0' + h % 10);
        break;
    }
    case O_UDIV: if (isK(n.b) && N[n.b].k) { R x = rng(n.a, d - 1); cut(x.lo / N[n.b].k, x.hi / N[n.b].k); } break;
    default: break;
    }
    if (n.cv < r.lo || n.cv > r.hi) { lost("interval"); return R{n.lo, n.hi}; }
    return r;
}
void learnB(Sh a, uint64_t lo, uint64_t hi, int d = 6)
{
    if (isK(a) || lo > hi) return;
    R r = rng(a, 0);
    lo = std::max(lo, r.lo); hi = std::min(hi, r.hi);
    if (lo > hi) return;
    pathB[a] = R{lo, hi};
    if (!d) return;
    Node n = N[a]; uint64_t m = maskw(n.w);
    if (n.op == O_ZEXT) learnB(n.a, lo, std::min(hi, maskw(N[n.a].w)), d - 1);
    else if (n.op == O_ADD && isK(n.b)) { uint64_t l = (lo - N[n.b].k) & m, h = (hi - N[n.b].k) & m; if (l <= h && h - l == hi - lo) learnB(n.a, l, h, d - 1); }
    else if (n.op == O_SEXT && N[n.a].w > 1) {
        unsigned iw = N[n.a].w; uint64_t half = maskw(iw - 1);
        if (hi <= (m >> 1)) learnB(n.a, lo, std::min(hi, half), d - 1);
        else if (lo > (m >> 1)) learnB(n.a, std::max(lo & maskw(iw), half + 1), hi & maskw(iw), d - 1);
    }
    else if (n.op == O_EXTR && n.k + n.w == N[n.a].w) learnB(n.a, lo << n.k, (hi << n.k) | maskw(n.k ? n.k : 1) * (n.k > 0), d - 1);
    else if (n.op == O_SUB && isK(n.a)) { uint64_t l = (N[n.a].k - hi) & m, h = (N[n.a].k - lo) & m; if (l <= h && h - l == hi - lo) learnB(n.b, l, h, d - 1); }
}
void learn(Sh e, bool val, int d = 8)
{
    Node n = N[e];
    if (n.op == O_CONST) return;
    if (n.op == O_NOT) { learn(n.a, !val, d); return; }
    decided.emplace(e, val);
    if (d && ((n.op == O_AND && val) || (n.op == O_OR && !val))) { learn(n.a, val, d - 1); learn(n.b, val, d - 1); return; }
    if (n.op == O_EXTR && n.w == 1) { unsigned w = N[n.a].w; if (n.k == w - 1 && w > 1) { if (val) learnB(n.a, maskw(w - 1) + 1, maskw(w)); else learnB(n.a, 0, maskw(w - 1)); } return; }
    if (!n.a || !n.b || N[n.a].w < 2) return;
    unsigned w = N[n.a].w; uint64_t m = maskw(w), half = m >> 1;
    bool ka = isK(n.a), kb = isK(n.b);
    if (!ka && !kb) return;
    uint64_t k = ka ? N[n.a].k : N[n.b].k;
    if (n.op == O_EQ) {
        Sh x = ka ? n.b : n.a; R r = rng(x, 1);
        if (val) learnB(x, k, k);
        else if (r.lo == k && r.lo < r.hi) learnB(x, k + 1, r.hi);
        else if (r.hi == k && r.lo < r.hi) learnB(x, r.lo, k - 1);
    }
    else if (n.op == O_ULT) {
        if (kb) { if (val) { if (k) learnB(n.a, 0, k - 1); } else learnB(n.a, k, m); }
        else { if (val) { if (k < m) learnB(n.b, k + 1, m); } else learnB(n.b, 0, k); }
    }
    else if (n.op == O_SLT) {
        if (kb) { if (!val && k <= half) learnB(n.a, k, half); else if (val && k > half + 1) learnB(n.a, half + 1, k - 1); }
        else { if (val && (k < half || k == m)) learnB(n.b, (k + 1) & m, half); else if (!val && k > half) learnB(n.b, half + 1, k); }
    }
}

Sh mknot(Sh a)
{
    if (isK(a)) return K(!N[a].k, 1);
    if (N[a].op == O_NOT) return N[a].a;
    return raw(O_NOT, 1, a, 0, 0, 0, 0, 1);
}

Sh mkzext(Sh a, unsigned w)
{
    if (N[a].w == w) return a;
    a = known(a);
    if (isK(a)) return K(N[a].k, w);
    if (N[a].op == O_ZEXT) return mkzext(N[a].a, w);
    if (N[a].op == O_ITE && isK(N[a].b) && isK(N[a].c)) { Node n = N[a]; Sh p = mkzext(n.b, w), q = mkzext(n.c, w); return mkite(n.a, p, q); }
    if (N[a].op == O_ADD || N[a].op == O_MUL) {
        // wider, when it does not wrap: keeps sums and products of different widths comparable
        Node n = N[a]; uint64_t x = rng(n.a).hi, y = rng(n.b).hi, r;
        bool over = n.op == O_ADD ? __builtin_add_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
        if (!over && r <= maskw(n.w)) { Sh p = mkzext(n.a, w), q = mkzext(n.b, w); return mkbin(n.op, w, p, q); }
    }
    return raw(O_ZEXT, w, a, 0, 0, 0, N[a].lo, N[a].hi);
}

Sh mksext(Sh a, unsigned w)
{
    if (N[a].w == w) return a;
    a = known(a);
    if (isK(a)) return K((uint64_t)sxt(N[a].k, N[a].w), w);
    if (N[a].w > 1 && N[a].hi <= maskw(N[a].w - 1)) return mkzext(a, w);
    if (N[a].op == O_SEXT) return mksext(N[a].a, w);
    if (N[a].op == O_ITE && isK(N[a].b) && isK(N[a].c)) { Node n = N[a]; Sh p = mksext(n.b, w), q = mksext(n.c, w); return mkite(n.a, p, q); }
    return raw(O_SEXT, w, a, 0, 0, 0, 0, maskw(w));
}

Sh mkextr(Sh a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == N[a].w) return a;
    if (isK(a)) return K(N[a].k >> lo, w);
    Node n = N[a];
    switch (n.op) {
    case O_EXTR: return mkextr(n.a, lo + n.k, w);
    case O_ZEXT: {
        unsigned iw = N[n.a].w;
        if (lo >= iw) return K(0, w);
        if (lo + w <= iw) return mkextr(n.a, lo, w);
        return mkzext(mkextr(n.a, lo, iw - lo), w);
    }
    case O_SEXT: {
        unsigned iw = N[n.a].w;
        if (lo + w <= iw) return mkextr(n.a, lo, w);
        if (lo < iw && lo == 0) return mksext(n.a, w);
        break;
    }
    case O_CONCAT: {
        unsigned bw = N[n.b].w;
        if (lo + w <= bw) return mkextr(n.b, lo, w);
        if (lo >= bw) return mkextr(n.a, lo - bw, w);
        return mkconcat(mkextr(n.a, 0, lo + w - bw), mkextr(n.b, lo, bw - lo));
    }
    case O_ITE: if (isK(n.b) && isK(n.c)) { Sh p = mkextr(n.b, lo, w), q = mkextr(n.c, lo, w); return mkite(n.a, p, q); } break;
    case O_AND: case O_OR: case O_XOR: if (n.w > 1 && (isK(n.a) || isK(n.b))) { Sh p = mkextr(n.a, lo, w), q = mkextr(n.b, lo, w); return mkbin(n.op, w, p, q); } break;
    case O_ADD: case O_SUB: case O_MUL:
        if (lo == 0) { Sh p = mkextr(n.a, 0, w), q = mkextr(n.b, 0, w); if (w > 1) return mkbin(n.op, w, p, q); }
        break;
    default: break;
    }
    uint64_t rl = 0, rh = maskw(w);
    if (lo == 0 && n.hi <= rh) { rl = n.lo; rh = n.hi; }
    else if (lo && (n.hi >> lo) <= rh) { rl = n.lo >> lo; rh = n.hi >> lo; }
    if (rl == rh) return K(rl, w);
    if (w == 1 && !pathB.empty()) { R r = rng(a); if (lo == n.w - 1u || (r.lo >> lo) == (r.hi >> lo)) { if ((r.lo >> lo) == (r.hi >> lo)) return K((r.lo >> lo) & 1, 1); } }
    return raw(O_EXTR, w, a, 0, 0, lo, rl, rh);
}

Sh mkconcat(Sh a, Sh b)      // a is the high part
{
    unsigned w = N[a].w + N[b].w;
    if (isK(a) && isK(b)) return K((N[a].k << N[b].w) | N[b].k, w);
    if (isK(a, 0)) return mkzext(b, w);
    if (N[a].op == O_EXTR && N[b].op == O_EXTR && N[a].a == N[b].a && N[a].k == N[b].k + N[b].w)
        return mkextr(N[a].a, N[b].k, w);
    // concat(extr(x, |b|..), b) where b is x's low part (extractions go into sums, so b need not look like one)
    if (N[a].op == O_EXTR && N[a].k >= N[b].w) { unsigned o = N[a].k - N[b].w, ww = w; Sh x = N[a].a; if ((N[x].op == O_ADD || N[x].op == O_SUB || N[x].op == O_MUL || N[x].op == O_SEXT) && mkextr(x, o, N[b].w) == b) return mkextr(x, o, ww); }
    if (N[a].op == O_ZEXT) { Sh in = mkconcat(N[a].a, b); return mkzext(in, w); }
    if (N[b].op == O_CONCAT) { Sh ba = N[b].a, bb = N[b].b; if (N[a].op == O_EXTR && N[ba].op == O_EXTR && N[a].a == N[ba].a && N[a].k == N[ba].k + N[ba].w) { Sh p = mkconcat(a, ba); return mkconcat(p, bb); } }
    if (N[a].op == O_ITE && N[b].op == O_ITE && N[a].a == N[b].a) {
        Node p = N[a], q = N[b]; Sh x = mkconcat(p.b, q.b), y = mkconcat(p.c, q.c); return mkite(p.a, x, y);
    }
    unsigned bw = N[b].w;
    return raw(O_CONCAT, w, a, b, 0, 0, (N[a].lo << bw) | N[b].lo, (N[a].hi << bw) | N[b].hi);
}

Sh mkite(Sh c, Sh x, Sh y)
{
    c = known(c);
    if (isK(c)) return N[c].k ? x : y;
    if (x == y) return x;
    if (N[c].op == O_NOT) return mkite(N[c].a, y, x);
    if (N[x].w == 1) {
        if (isK(x, 1) && isK(y, 0)) return c;
        if (isK(x, 0) && isK(y, 1)) return mknot(c);
        if (isK(x, 1)) return mkbin(O_OR, 1, c, y);
        if (isK(x, 0)) return mkbin(O_AND, 1, mknot(c), y);
        if (isK(y, 1)) return mkbin(O_OR, 1, mknot(c), x);
        if (isK(y, 0)) return mkbin(O_AND, 1, c, x);
    }
    if (N[y].op == O_ITE && N[y].a == c) y = N[y].c;
    if (N[x].op == O_ITE && N[x].a == c) x = N[x].b;
    if (x == y) return x;
    return raw(O_ITE, N[x].w, c, x, y, 0, std::min(N[x].lo, N[y].lo), std::max(N[x].hi, N[y].hi));
}

bool commut(uint8_t op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL; }

Sh mkbin(uint8_t op, unsigned w, Sh a, Sh b)
{
    if (isK(a) && isK(b)) return K(evalop(op, w, 0, &N[a], &N[b], nullptr), w);
    if (commut(op) && (isK(a) || (!isK(b) && a > b && op != O_EQ))) std::swap(a, b);
    uint64_t m = maskw(w);
    uint64_t al = N[a].lo, ah = N[a].hi, bl = N[b].lo, bh = N[b].hi;
    uint64_t lo = 0, hi = m;
    if (w == 1) {
        switch (op) {
        case O_AND: case O_MUL: if (isK(b, 0)) return b; if (isK(b, 1)) return a; if (a == b) return a; if (N[a].op == O_NOT && N[a].a == b) return K(0, 1); if (N[b].op == O_NOT && N[b].a == a) return K(0, 1); op = O_AND; break;
        case O_OR: if (isK(b, 1)) return b; if (isK(b, 0)) return a; if (a == b) return a; if (N[a].op == O_NOT && N[a].a == b) return K(1, 1); if (N[b].op == O_NOT && N[b].a == a) return K(1, 1); break;
        case O_XOR: case O_ADD: case O_SUB: if (isK(b, 0)) return a; if (isK(b, 1)) return mknot(a); if (a == b) return K(0, 1); op = O_XOR; break;
        default: break;
        }
        return raw(op, 1, a, b, 0, 0, 0, 1);
    }
    switch (op) {
    case O_ADD:
        if (isK(b, 0)) return a;
        if (isK(b) && N[a].op == O_ADD && isK(N[a].b)) { Sh x = N[a].a; return mkbin(O_ADD, w, x, K(N[N[a].b].k + N[b].k, w)); }
        if (ah <= m - bh) { lo = al + bl; hi = ah + bh; }
        else if (isK(b) && al >= ((0 - N[b].k) & m)) { lo = (al + bl) & m; hi = (ah + bh) & m; }     // adding a negative constant
        break;
    case O_SUB:
        if (a == b) return K(0, w);
        if (isK(b)) return mkbin(O_ADD, w, a, K(0 - N[b].k, w));
        if (isK(a) && N[b].op == O_SUB && isK(N[b].a)) { Sh x = N[b].b; return mkbin(O_ADD, w, x, K(N[a].k - N[N[b].a].k, w)); }
        if (al >= bh) { lo = al - bh; hi = ah - bl; }
        if (N[a].op == O_ADD && N[a].a == b) return N[a].b;
        if (N[a].op == O_ADD && N[a].b == b) return N[a].a;
        break;
    case O_MUL:
        if (isK(b, 0)) return b;
        if (isK(b, 1)) return a;
        if (isK(b) && !(N[b].k & (N[b].k - 1))) return mkbin(O_SHL, w, a, K(__builtin_ctzll(N[b].k), w));
        { unsigned __int128 p = (unsigned __int128)ah * bh; if (p <= m) { lo = al * bl; hi = (uint64_t)p; } }
        break;
    case O_UDIV:
        if (isK(b, 1)) return a;
        if (isK(b) && N[b].k) { if (!(N[b].k & (N[b].k - 1))) return mkbin(O_LSHR, w, a, K(__builtin_ctzll(N[b].k), w)); lo = al / N[b].k; hi = ah / N[b].k; }
        break;
    case O_UREM:
        if (isK(b) && N[b].k) {
            if (ah < N[b].k) return a;
            if (!(N[b].k & (N[b].k - 1))) return mkbin(O_AND, w, a, K(N[b].k - 1, w));
            hi = N[b].k - 1;
        }
        break;
    case O_SDIV:
        if (isK(b, 1)) return a;
        if (ah <= (m >> 1) && bh <= (m >> 1) && bl > 0) return mkbin(O_UDIV, w, a, b);
        break;
    case O_SREM:
        if (ah <= (m >> 1) && bh <= (m >> 1) && bl > 0) return mkbin(O_UREM, w, a, b);
        break;
    case O_SHL:
        if (isK(b, 0)) return a;
        if (isK(b)) {
            unsigned k = N[b].k; if (k >= w) return K(0, w);
            return mkconcat(mkextr(a, 0, w - k), K(0, k));
        }
        break;
    case O_LSHR:
        if (isK(b, 0)) return a;
        if (isK(b)) { unsigned k = N[b].k; if (k >= w) return K(0, w); return mkzext(mkextr(a, k, w - k), w); }
        hi = ah;
        break;
    case O_ASHR:
        if (isK(b, 0)) return a;
        if (ah <= (m >> 1)) return mkbin(O_LSHR, w, a, b);
        if (isK(b)) { unsigned k = std::min<uint64_t>(N[b].k, w - 1); return mksext(mkextr(a, k, w - k), w); }
        break;
    case O_AND:
        if (isK(b, 0)) return b;
        if (isK(b, m)) return a;
        if (a == b) return a;
        if (isK(b)) {
            uint64_t kk = N[b].k;
            if (!(kk & (kk + 1))) { unsigned n = __builtin_popcountll(kk); return mkzext(mkextr(a, 0, n), w); }
            if (N[a].op == O_ZEXT) { unsigned iw = N[N[a].a].w; Sh in = N[a].a; return mkzext(mkbin(O_AND, iw, in, K(kk, iw)), w); }
            // contiguous run of ones above zeros
            unsigned tz = __builtin_ctzll(kk); uint64_t t = kk >> tz;
            if (!(t & (t + 1))) { unsigned n = __builtin_popcountll(t); Sh e = mkextr(a, tz, n); Sh r = mkconcat(e, K(0, tz)); return mkzext(r, w); }
        }
        hi = std::min(ah, bh);
        break;
    case O_OR:
        if (isK(b, 0)) return a;
        if (isK(b, m)) return b;
        if (a == b) return a;
        for (int sw = 0; sw < 2; ++sw) {
            Sh p = sw ? b : a, q = sw ? a : b;
            Sh pc = p; if (N[pc].op == O_ZEXT) pc = N[pc].a;
            if (N[pc].op == O_CONCAT && isK(N[pc].b, 0)) {
                unsigned kw = N[N[pc].b].w;
                if (N[q].hi <= maskw(kw)) { Sh hiP = N[pc].a; Sh r = mkconcat(hiP, mkextr(q, 0, kw)); return mkzext(r, w); }
            }
        }
        lo = std::max(al, bl); hi = std::min(m, pow2up(ah | bh));
        break;
    case O_XOR:
        if (isK(b, 0)) return a;
        if (a == b) return K(0, w);
        if (isK(b) && N[a].op == O_XOR && isK(N[a].b)) { Sh x = N[a].a; return mkbin(O_XOR, w, x, K(N[N[a].b].k ^ N[b].k, w)); }
        if (isK(b, m)) { lo = m - ah; hi = m - al; }
        else hi = std::min(m, pow2up(ah | bh));
        break;
    default: break;
    }
    // push constants through two-leaf ITEs
    if (isK(b) && op == O_ADD && N[a].op == O_ITE && constTree(a, 8)) {
        Node n = N[a]; Sh x = mkbin(op, w, n.b, b), y = mkbin(op, w, n.c, b); return mkite(n.a, x, y);
    }
    if (isK(b) && N[a].op == O_ITE && isK(N[a].b) && isK(N[a].c)) {
        Node n = N[a]; Sh x = mkbin(op, w, n.b, b), y = mkbin(op, w, n.c, b); return mkite(n.a, x, y);
    }
    if (lo == hi) return K(lo, w);
    return raw(op, w, a, b, 0, 0, lo, hi);
}

inline bool nonneg(Sh a) { return N[a].w > 1 && N[a].hi <= maskw(N[a].w - 1); }
inline bool neg(Sh a) { return N[a].lo > maskw(N[a].w - 1); }

Sh mkcmp(uint8_t op, Sh a, Sh b)
{
    if (isK(a) && isK(b)) return K(evalop(op, 1, 0, &N[a], &N[b], nullptr), 1);
    if (a == b) return K(op == O_EQ, 1);
    unsigned w = N[a].w;
    if (w > 1 && !pathB.empty()) {
        R x = rng(a), y = rng(b);
        if (op == O_EQ) { if (x.hi < y.lo || y.hi < x.lo) return K(0, 1); if (x.lo == x.hi && y.lo == y.hi && x.lo == y.lo) return K(1, 1); }
        else {
            uint64_t half = maskw(w - 1);
            if (op == O_SLT) {
                bool an = x.lo > half, ap = x.hi <= half, bn = y.lo > half, bp = y.hi <= half;
                if (an && bp) return K(1, 1);
                if (ap && bn) return K(0, 1);
                if ((an && bn) || (ap && bp)) op = O_ULT;
            }
            if (op == O_ULT) { if (x.hi < y.lo) return K(1, 1); if (x.lo >= y.hi) return K(0, 1); }
        }
    }
    if (op == O_EQ) {
        if (isK(a)) std::swap(a, b);
        if (N[a].hi < N[b].lo || N[b].hi < N[a].lo) return K(0, 1);
        if (w == 1) { if (isK(b)) return N[b].k ? a : mknot(a); if (N[a].op == O_NOT && N[a].a == b) return K(0, 1); }
        Node n = N[a], nb = N[b];
        if (isK(b)) {
            switch (n.op) {
            case O_ZEXT: { unsigned iw = N[n.a].w; if (nb.k > maskw(iw)) return K(0, 1); return mkcmp(O_EQ, n.a, K(nb.k, iw)); }
            case O_SEXT: { unsigned iw = N[n.a].w; if (((uint64_t)sxt(nb.k & maskw(iw), iw) & maskw(w)) != nb.k) return K(0, 1); return mkcmp(O_EQ, n.a, K(nb.k, iw)); }
            case O_ADD: if (isK(n.b)) return mkcmp(O_EQ, n.a, K(nb.k - N[n.b].k, w)); break;
            case O_XOR: if (isK(n.b)) return mkcmp(O_EQ, n.a, K(nb.k ^ N[n.b].k, w)); break;
            case O_SUB: if (nb.k == 0) return mkcmp(O_EQ, n.a, n.b); break;
            case O_CONCAT: { unsigned bw = N[n.b].w; Sh x = mkcmp(O_EQ, n.a, K(nb.k >> bw, w - bw)); if (isK(x, 0)) return x; Sh y = mkcmp(O_EQ, n.b, K(nb.k, bw)); return mkbin(O_AND, 1, x, y); }
            case O_ITE: { Sh x = mkcmp(O_EQ, n.b, b), y = mkcmp(O_EQ, n.c, b); return mkite(n.a, x, y); }
            case O_DIGIT: { uint64_t pw = 1; for (uint64_t i = 0; i < n.k; ++i) pw *= 10; R x = rng(n.a); if (pw == 1 && x.hi <= 9 && nb.k >= '0' && nb.k <= '9') return mkcmp(O_EQ, n.a, K(nb.k - '0', N[n.a].w)); break; }
            case O_HEXD: { uint64_t c = nb.k, al = n.k & HexUp ? 'A' : 'a'; uint64_t d = c <= '9' ? c - '0' : c - al + 10; if (!((c >= '0' && c <= '9') || (c >= al && c < al + 6))) return K(0, 1); Sh x = mkextr(n.a, 4 * (n.k & 255), 4); return mkcmp(O_EQ, x, K(d, 4)); }
            default: break;
            }
        }
        else {
            if (n.op == O_ZEXT && nb.op == O_ZEXT && N[n.a].w == N[nb.a].w) return mkcmp(O_EQ, n.a, nb.a);
            if (n.op == O_SEXT && nb.op == O_SEXT && N[n.a].w == N[nb.a].w) return mkcmp(O_EQ, n.a, nb.a);
            if (n.op == O_ADD && nb.op == O_ADD && n.b == nb.b) return mkcmp(O_EQ, n.a, nb.a);
            if (n.op == O_ADD && n.a == b) return mkcmp(O_EQ, n.b, K(0, w));
            if (n.op == O_ADD && n.b == b) return mkcmp(O_EQ, n.a, K(0, w));
            if (n.op == O_ITE && nb.op == O_ITE && n.a == nb.a) { Sh x = mkcmp(O_EQ, n.b, nb.b), y = mkcmp(O_EQ, n.c, nb.c); return mkite(n.a, x, y); }
            if (a > b) std::swap(a, b);
        }
        return raw(O_EQ, 1, a, b, 0, 0, 0, 1);
    }
    if (op == O_SLT && w > 1) {
        if (isK(b, 0)) return mkextr(a, w - 1, 1);
        if (isK(a, maskw(w))) return mknot(mkextr(b, w - 1, 1));
    }
    if (op == O_ULT) {
        if (N[a].hi < N[b].lo) return K(1, 1);
        if (N[a].lo >= N[b].hi) return K(0, 1);
        Node n = N[a], nb = N[b];
        if (w == 1) return mkbin(O_AND, 1, mknot(a), b);
        if (n.op == O_ADD && (n.a == b || n.b == b)) { uint64_t r; if (!__builtin_add_overflow(rng(n.a).hi, rng(n.b).hi, &r) && r <= maskw(w)) return K(0, 1); }
        if (isK(b, 1)) return mkcmp(O_EQ, a, K(0, w));
        if (isK(a, 0)) return mknot(mkcmp(O_EQ, b, K(0, w)));
        if (isK(b) && n.op == O_ZEXT) { unsigned iw = N[n.a].w; if (nb.k > maskw(iw)) return K(1, 1); if (iw > 1) return mkcmp(O_ULT, n.a, K(nb.k, iw)); }
        if (isK(a) && nb.op == O_ZEXT) { unsigned iw = N[nb.a].w; if (n.k >= maskw(iw)) return K(0, 1); if (iw > 1) return mkcmp(O_ULT, K(n.k, iw), nb.a); }
        if (n.op == O_ZEXT && nb.op == O_ZEXT && N[n.a].w == N[nb.a].w && N[n.a].w > 1) return mkcmp(O_ULT, n.a, nb.a);
        if (isK(b) && n.op == O_ITE && (isK(n.b) || isK(n.c))) { Sh x = mkcmp(op, n.b, b), y = mkcmp(op, n.c, b); return mkite(n.a, x, y); }
        if (isK(a) && nb.op == O_ITE && (isK(nb.b) || isK(nb.c))) { Sh x = mkcmp(op, a, nb.b), y = mkcmp(op, a, nb.c); return mkite(nb.a, x, y); }
        return raw(O_ULT, 1, a, b, 0, 0, 0, 1);
    }
    // SLT
    {
        if (w > 1) {
            if ((nonneg(a) && nonneg(b)) || (neg(a) && neg(b))) return mkcmp(O_ULT, a, b);
            if (nonneg(a) && neg(b)) return K(0, 1);
            if (neg(a) && nonneg(b)) return K(1, 1);
        }
        Node n = N[a], nb = N[b];
        if (isK(b) && n.op == O_SEXT) { unsigned iw = N[n.a].w; int64_t c = sxt(nb.k, w); int64_t mx = (int64_t)maskw(iw - 1), mn = -mx - 1; if (c > mx) return K(1, 1); if (c <= mn) return K(0, 1); if (iw > 1) return mkcmp(O_SLT, n.a, K(nb.k, iw)); }
        if (isK(a) && nb.op == O_SEXT) { unsigned iw = N[nb.a].w; int64_t c = sxt(n.k, w); int64_t mx = (int64_t)maskw(iw - 1), mn = -mx - 1; if (c >= mx) return K(0, 1); if (c < mn) return K(1, 1); if (iw > 1) return mkcmp(O_SLT, K(n.k, iw), nb.a); }
        if (n.op == O_SEXT && nb.op == O_SEXT && N[n.a].w == N[nb.a].w && N[n.a].w > 1) return mkcmp(O_SLT, n.a, nb.a);
        if (isK(b) && n.op == O_ITE && (isK(n.b) || isK(n.c))) { Sh x = mkcmp(op, n.b, b), y = mkcmp(op, n.c, b); return mkite(n.a, x, y); }
        if (isK(a) && nb.op == O_ITE && (isK(nb.b) || isK(nb.c))) { Sh x = mkcmp(op, a, nb.b), y = mkcmp(op, a, nb.c); return mkite(nb.a, x, y); }
        return raw(O_SLT, 1, a, b, 0, 0, 0, 1);
    }
}

//---------------------------------------------------------------- Z3
Z3_context ctx = nullptr;
Z3_solver solver = nullptr;
Z3_sort sortCache[65];
Z3_sort bv(unsigned w) { if (!sortCache[w]) { sortCache[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sortCache[w])); } return sortCache[w]; }
void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(97); }

void initZ3()
{
    const char* lib = getenv("SX_Z3"); if (!lib) lib = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so";
    if (!z3dl::open(lib) && !z3dl::open("libz3.so.4")) _exit(98);
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, z3err);
    const char* lg = getenv("SX_LOGIC");
    solver = lg && *lg ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg)) : Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, solver);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    const char* rl = getenv("SX_RLIMIT");
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl ? atoi(rl) : 60000000);
    Z3_solver_set_params(ctx, solver, p);
    for (unsigned i : {1u, 8u, 16u, 32u, 64u}) bv(i);
}

Z3_ast zlow(Sh s);
Z3_ast zk(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bv(w)); }
Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
Z3_ast tofp(Z3_ast b, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, b, fsort(w)); }

Z3_ast sltBool(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, Z3_mk_not(ctx, b)}; return Z3_mk_and(ctx, 2, t); }

Z3_ast zbuild(const Node& n)
{
    unsigned w = n.w;
    if (n.op == O_CONST) return w == 1 ? (n.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : zk(n.k, w);
    if (n.op == O_VAR) {
        char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)n.k);
        return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), w == 1 ? Z3_mk_bool_sort(ctx) : bv(w));
    }
    Z3_ast a = zlow(n.a), b = n.b ? zlow(n.b) : nullptr, c = n.c ? zlow(n.c) : nullptr;
    unsigned aw = N[n.a].w;
    Z3_ast two[2] = {a, b};
    auto zext1 = [&](Z3_ast q, unsigned to) { return Z3_mk_ite(ctx, q, zk(1, to), zk(0, to)); };
    switch (n.op) {
    case O_ADD: return Z3_mk_bvadd(ctx, a, b); case O_SUB: return Z3_mk_bvsub(ctx, a, b); case O_MUL: return Z3_mk_bvmul(ctx, a, b);
    case O_UDIV: return Z3_mk_bvudiv(ctx, a, b); case O_SDIV: return Z3_mk_bvsdiv(ctx, a, b);
    case O_UREM: return Z3_mk_bvurem(ctx, a, b); case O_SREM: return Z3_mk_bvsrem(ctx, a, b);
    case O_SHL: return Z3_mk_bvshl(ctx, a, b); case O_LSHR: return Z3_mk_bvlshr(ctx, a, b); case O_ASHR: return Z3_mk_bvashr(ctx, a, b);
    case O_AND: return w == 1 ? Z3_mk_and(ctx, 2, two) : Z3_mk_bvand(ctx, a, b);
    case O_OR: return w == 1 ? Z3_mk_or(ctx, 2, two) : Z3_mk_bvor(ctx, a, b);
    case O_XOR: return w == 1 ? Z3_mk_xor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b);
    case O_EQ: return aw == 1 ? Z3_mk_iff(ctx, a, b) : Z3_mk_eq(ctx, a, b);
    case O_ULT: return Z3_mk_bvult(ctx, a, b);
    case O_SLT: return aw == 1 ? sltBool(a, b) : Z3_mk_bvslt(ctx, a, b);
    case O_NOT: return Z3_mk_not(ctx, a);
    case O_ITE: return Z3_mk_ite(ctx, a, b, c);
    case O_ZEXT: return aw == 1 ? zext1(a, w) : Z3_mk_zero_ext(ctx, w - aw, a);
    case O_SEXT: return aw == 1 ? Z3_mk_ite(ctx, a, zk(maskw(w), w), zk(0, w)) : Z3_mk_sign_ext(ctx, w - aw, a);
    case O_EXTR: {
        if (aw == 1) return a;
        Z3_ast e = Z3_mk_extract(ctx, n.k + w - 1, n.k, a);
        return w == 1 ? Z3_mk_eq(ctx, e, zk(1, 1)) : e;
    }
    case O_CONCAT: {
        if (aw == 1) a = zext1(a, 1);
        if (N[n.b].w == 1) b = zext1(b, 1);
        return Z3_mk_concat(ctx, a, b);
    }
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
        Z3_ast rm = Z3_mk_fpa_rne(ctx), p = tofp(a, w), q = tofp(b, w), r;
        r = n.op == O_FADD ? Z3_mk_fpa_add(ctx, rm, p, q) : n.op == O_FSUB ? Z3_mk_fpa_sub(ctx, rm, p, q) : n.op == O_FMUL ? Z3_mk_fpa_mul(ctx, rm, p, q) : Z3_mk_fpa_div(ctx, rm, p, q);
        return Z3_mk_fpa_to_ieee_bv(ctx, r);
    }
    case O_FPEXT: case O_FPTRUNC: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), tofp(a, aw), fsort(w)));
    case O_SITOFP: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), a, fsort(w)));
    case O_UITOFP: if (aw == 1) { a = zext1(a, 8); } return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), a, fsort(w)));
    case O_FPTOSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), tofp(a, aw), w);
    case O_FPTOUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), tofp(a, aw), w);
    case O_DIGIT: {
        uint64_t p = 1; for (uint64_t i = 0; i < n.k; ++i) p *= 10;
        Z3_ast q = p == 1 ? a : Z3_mk_bvudiv(ctx, a, zk(p, aw));
        Z3_ast r = Z3_mk_bvurem(ctx, q, zk(10, aw));
        Z3_ast lowb = aw == 8 ? r : Z3_mk_extract(ctx, 7, 0, r);
        return Z3_mk_bvadd(ctx, lowb, zk('0', 8));
    }
    case O_HEXD: {
        unsigned ni = n.k & 255;
        Z3_ast e = Z3_mk_zero_ext(ctx, 4, Z3_mk_extract(ctx, 4 * ni + 3, 4 * ni, a));
        return Z3_mk_ite(ctx, Z3_mk_bvult(ctx, e, zk(10, 8)), Z3_mk_bvadd(ctx, e, zk('0', 8)), Z3_mk_bvadd(ctx, e, zk((n.k & HexUp ? 'A' : 'a') - 10, 8)));
    }
    case O_CTPOP: {
        Z3_ast r = zk(0, w);
        for (unsigned i = 0; i < w; ++i) r = Z3_mk_bvadd(ctx, r, w == 1 ? a : Z3_mk_zero_ext(ctx, w - 1, Z3_mk_extract(ctx, i, i, a)));
        return r;
    }
    case O_CTLZ: case O_CTTZ: {
        Z3_ast r = zk(w, w);
        for (unsigned j = 0; j < w; ++j) {
            unsigned i = n.op == O_CTLZ ? j : w - 1 - j;
            r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, i, i, a), zk(1, 1)), zk(n.op == O_CTLZ ? w - 1 - i : i, w), r);
        }
        return r;
    }
    }
    return nullptr;
}

bool lowerable(Sh s, std::unordered_map<Sh, bool>& memo)
{
    auto it = memo.find(s); if (it != memo.end()) return it->second;
    const Node n = N[s];
    bool ok = n.op != O_FPCH && n.op != O_FREM;
    for (Sh x : {n.a, n.b, n.c}) if (ok && x) ok = lowerable(x, memo);
    return memo[s] = ok;
}
std::unordered_map<Sh, bool> lowMemo;

Z3_ast zlow(Sh s)
{
    if (N[s].z) return N[s].z;
    Z3_ast z = zbuild(N[s]);
    Z3_inc_ref(ctx, z);
    N[s].z = z;
    return z;
}

//---------------------------------------------------------------- path
struct Cons { Sh e; bool val; uint64_t v0, v1; };
std::vector<Cons> path;
unsigned bound = 0;             // decisions before this index were explored by an ancestor
uint64_t hist = 0, wantHist = 0;
bool diverged = false;
int wfd = -1;
std::set<const char*> fnsDecided, reached;
std::vector<uint64_t> inputVals;
const unsigned MaxDecisions = 60000;

void wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = ::write(wfd, c, n); if (k <= 0) { if (errno == EINTR) continue; _exit(96); } c += k; n -= k; } }
void rec(char type, const std::string& body) { std::string m; uint32_t n = body.size(); m.push_back(type); m.append((char*)&n, 4); m += body; wr(m.data(), m.size()); }
template <class T> void put(std::string& s, T v) { s.append((const char*)&v, sizeof v); }

void emitJob(unsigned b, uint64_t h, const std::vector<uint64_t>& vals, bool prio)
{
    std::string s; put<uint8_t>(s, prio); put<uint32_t>(s, b); put<uint64_t>(s, h); put<uint32_t>(s, vals.size());
    for (auto v : vals) put<uint64_t>(s, v);
    rec('J', s);
}

uint64_t nowus() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }

std::string show(Sh s, int d = 0);
// Is path[0..n) & (e == val) satisfiable? Fills vals.
int query(size_t n, Sh e, bool val, std::vector<uint64_t>& vals)
{
    if (!lowerable(e, lowMemo)) { lost("opaque-text-branch"); return 0; }
    uint64_t m0 = N[e].v0, m1 = N[e].v1;
    std::vector<char> in(n, 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < n; ++i) {
            if (in[i]) continue;
            if ((path[i].v0 & m0) | (path[i].v1 & m1)) {
                in[i] = 1; uint64_t o0 = m0, o1 = m1; m0 |= path[i].v0; m1 |= path[i].v1;
                if (o0 != m0 || o1 != m1) ch = true;
            }
        }
    }
    // libz3 may run template code that the executable exports (instrumented): nothing of it is tracked
    struct Off { Off() { exploring = false; } ~Off() { exploring = true; } } off;
    uint64_t t0 = nowus();
    Z3_solver_push(ctx, solver);
    for (size_t i = 0; i < vars.size(); ++i) {
        if (!((i & 64 ? m1 : m0) >> (i & 63) & 1)) continue;
        auto& v = vars[i];
        if (v.w == 1) continue;
        if (v.lo) Z3_solver_assert(ctx, solver, Z3_mk_bvule(ctx, zk(v.lo, v.w), zlow(v.node)));
        if (v.hi != maskw(v.w)) Z3_solver_assert(ctx, solver, Z3_mk_bvule(ctx, zlow(v.node), zk(v.hi, v.w)));
    }
    bool skipped = false;
    for (size_t i = 0; i < n; ++i) if (in[i]) {
        if (!lowerable(path[i].e, lowMemo)) { skipped = true; continue; }
        Z3_ast z = zlow(path[i].e); Z3_solver_assert(ctx, solver, path[i].val ? z : Z3_mk_not(ctx, z));
    }
    if (skipped) { exploring = true; lost("opaque-text-constraint"); exploring = false; }
    Z3_ast z = zlow(e);
    Z3_solver_assert(ctx, solver, val ? z : Z3_mk_not(ctx, z));
    Z3_lbool r = Z3_solver_check(ctx, solver);
    S.queries++;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, m);
        for (size_t i = 0; i < vars.size(); ++i) {
            if (!((i & 64 ? m1 : m0) >> (i & 63) & 1)) { vals.push_back(vars[i].val); continue; }
            Z3_ast o = nullptr; uint64_t x = vars[i].val;
            if (Z3_model_eval(ctx, m, zlow(vars[i].node), true, &o) && o) {
                if (vars[i].w == 1) x = Z3_get_bool_value(ctx, o) == Z3_L_TRUE;
                else Z3_get_numeral_uint64(ctx, o, &x);
            }
            vals.push_back(x);
        }
        Z3_model_dec_ref(ctx, m);
        S.sat++;
    }
    else if (r == Z3_L_FALSE) S.unsat++;
    else { S.unknown++; lost("solver-unknown"); if (getenv("SX_DEBUG")) fprintf(stderr, "unknown: %s\n", Z3_solver_get_reason_unknown(ctx, solver)); }
    Z3_solver_pop(ctx, solver, 1);
    S.us += nowus() - t0;
    if (static const char* slow = getenv("SX_SLOW"); slow && nowus() - t0 > (uint64_t)atoi(slow)) fprintf(stderr, "slow %llu us r=%d cons=%d: %s\n", (unsigned long long)(nowus() - t0), (int)r, (int)std::count(in.begin(), in.end(), 1), show(e).c_str());
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
}

std::string show(Sh s, int d)
{
    static const char* nm[] = {"k", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "slt", "not", "ite", "zext", "sext", "extr", "concat",
        "fadd", "fsub", "fmul", "fdiv", "frem", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "digit", "hexd", "fpch", "ctpop", "ctlz", "cttz"};
    const Node& n = N[s];
    char t[64];
    if (n.op == O_CONST) { snprintf(t, sizeof t, "%llx:%d", (unsigned long long)n.k, n.w); return t; }
    if (n.op == O_VAR) return vars[n.k].name;
    if (d > 12) return "...";
    std::string r = std::string("(") + nm[n.op];
    if (n.op == O_EXTR) { snprintf(t, sizeof t, "[%d+%d]", (int)n.k, n.w); r += t; }
    if (n.op == O_DIGIT || n.op == O_HEXD) r += std::to_string(n.k);
    for (Sh x : {n.a, n.b, n.c}) if (x) r += " " + show(x, d + 1);
    return r + ")";
}
bool debugPaths() { static int v = -1; if (v < 0) v = getenv("SX_DEBUG") && atoi(getenv("SX_DEBUG")) > 1; return v; }

// Records that the path continues with e == (its concrete value); schedules the other side.
void decide(Sh e, bool prio = false)
{
    if (!exploring || isK(e)) return;
    bool val = N[e].cv;
    if (N[e].op == O_NOT) { e = N[e].a; val = !val; }
    // conjunctions known true / disjunctions known false split into their parts
    if (decided.count(e)) return;
    if (path.size() >= MaxDecisions) { lost("path-too-long"); return; }
    uint64_t hPos = mixh(hist, N[e].hash);
    unsigned idx = path.size();
    S.decisions++;
    if (debugPaths()) fprintf(stderr, "[%d] %u%s %s = %d\n", (int)getpid(), idx, idx < bound ? "<" : "", show(e).c_str(), (int)val);
    if (idx >= bound) {
        std::vector<uint64_t> vals;
        if (query(idx, e, !val, vals) == 1) emitJob(idx + 1, mixh(hPos, !val), vals, prio);
    }
    hist = mixh(hPos, val);
    path.push_back({e, val, N[e].v0, N[e].v1});
    learn(e, val);
    if (idx + 1 == bound && hist != wantHist) { diverged = true; lost("divergence"); if (getenv("SX_DEBUG")) fprintf(stderr, "[%d] divergence at %u\n", (int)getpid(), idx); }
}

void leaves(Sh s, std::set<uint64_t>& out, unsigned max);
// constants combined by choices only (as addresses of objects selected without a branch)?
bool chosenConst(Sh s, unsigned& fuel)
{
    if (isK(s)) return true;
    if (!fuel--) return false;
    const Node n = N[s];
    if (n.op == O_VAR || (!n.a && !n.b && !n.c)) return false;
    if (n.op == O_ITE) return chosenConst(n.b, fuel) && chosenConst(n.c, fuel);
    for (Sh x : {n.a, n.b, n.c}) if (x && !chosenConst(x, fuel)) return false;
    return true;
}
void pinChoices(Sh s)
{
    if (!s || isK(s)) return;
    const Node n = N[s];
    if (n.op == O_ITE) { decide(n.a); pinChoices(N[n.a].cv ? n.b : n.c); return; }
    for (Sh x : {n.a, n.b, n.c}) pinChoices(x);
}
uint64_t concretize(Sh s, const char* why)
{
    if (!exploring) return N[s].cv;
    if (debugPaths()) {
        fprintf(stderr, "[%d] concretize (%s) %s\n", (int)getpid(), why, show(s).c_str());
        if (strcmp(why, "choice")) { void* bt[12]; int n = backtrace(bt, 12); backtrace_symbols_fd(bt, n, 2); }
    }
    if (!s || isK(s)) return s ? N[s].cv : 0;
    S.conc++;
    if (exploring) lostWhy[std::string("(pinned) ") + why]++;
    // The questions asked must not depend on the value itself (paths share prefixes): leaves, then small
    // ranges in order, then bit by bit.
    unsigned w = N[s].w; uint64_t cv = N[s].cv;
    unsigned fuel = 64;
    if ((!strcmp(why, "load-address") || !strcmp(why, "store-address")) && chosenConst(s, fuel)) { pinChoices(s); return cv; }
    std::set<uint64_t> lv;
    if (N[s].op == O_ITE) { leaves(s, lv, 16); if (lv.size() > 16 || !lv.count(cv)) lv.clear(); }
    if (!lv.empty()) {
        for (uint64_t v : lv) { decide(mkcmp(O_EQ, s, K(v, w))); if (v == cv) break; }
        return cv;
    }
    uint64_t lo = N[s].lo, hi = N[s].hi;
    if (hi - lo < 40) {
        for (uint64_t v = lo; v <= cv; ++v) decide(mkcmp(O_EQ, s, K(v, w)));
        return cv;
    }
    for (unsigned i = 64 - __builtin_clzll(hi); i-- > 0;) decide(mkextr(s, i, 1));
    return cv;
}

//---------------------------------------------------------------- shadow memory
const unsigned PB = 12;
struct Page { Sh s[1 << PB]; };
const size_t PTN = 1 << 16;
uint64_t ptKey[PTN]; Page* ptVal[PTN];
uint8_t bloom[1 << 16];
inline size_t bh(uint64_t pg) { return (pg * 0x9e3779b97f4a7c15ull) >> 48; }
inline Page* page(uint64_t a)
{
    uint64_t pg = a >> PB;
    size_t h = bh(pg);
    if (__builtin_expect(!bloom[h], 1)) return nullptr;
    for (size_t i = h;; i = (i + 1) & (PTN - 1)) { if (ptVal[i] == nullptr) return nullptr; if (ptKey[i] == pg) return ptVal[i]; }
}
Page* pageMk(uint64_t a)
{
    if (Page* p = page(a)) return p;
    uint64_t pg = a >> PB; size_t h = bh(pg);
    Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    bloom[h] = 1;
    size_t i = h; while (ptVal[i]) i = (i + 1) & (PTN - 1);
    ptKey[i] = pg; ptVal[i] = p;
    return p;
}
inline Sh rd(uint64_t a) { Page* p = page(a); return p ? p->s[a & 4095] : 0; }
inline void wrs(uint64_t a, Sh s) { if (s) pageMk(a)->s[a & 4095] = s; else if (Page* p = page(a)) p->s[a & 4095] = 0; }
// shadow of one byte, dropped if memory moved on without us
inline Sh rdc(uint64_t a)
{
    Sh s = rd(a);
    if (s && N[s].cv != *(const uint8_t*)a) { wrs(a, 0); S.stale++; return 0; }
    return s;
}
void clearRange(uint64_t a, uint64_t n)
{
    while (n) {
        uint64_t in = std::min<uint64_t>(n, 4096 - (a & 4095));
        if (Page* p = page(a)) memset(&p->s[a & 4095], 0, in * sizeof(Sh));
        a += in; n -= in;
    }
}
bool anySym(uint64_t a, uint64_t n)
{
    for (uint64_t i = 0; i < n;) {
        Page* p = page(a + i);
        uint64_t in = std::min<uint64_t>(n - i, 4096 - ((a + i) & 4095));
        if (p) for (uint64_t j = 0; j < in; ++j) if (p->s[(a + i + j) & 4095] && rdc(a + i + j)) return true;
        i += in;
    }
    return false;
}
Sh byteAt(const void* p) { Sh s = rdc((uint64_t)p); return s ? s : K(*(const uint8_t*)p, 8); }

Sh loadConc(uint64_t a, unsigned bytes)   // node (never 0) of bytes*8 bits
{
    Sh r = byteAt((void*)a);
    for (unsigned i = 1; i < bytes; ++i) { Sh b = byteAt((void*)(a + i)); r = mkconcat(b, r); }
    return r;
}
bool safeRead(uint64_t a, void* dst, size_t n)
{
    iovec l{dst, n}, r{(void*)a, n};
    return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}
void leaves(Sh s, std::set<uint64_t>& out, unsigned max)
{
    if (out.size() > max) return;
    if (isK(s)) { out.insert(N[s].k); return; }
    if (N[s].op == O_ITE) { Sh b = N[s].b, c = N[s].c; leaves(b, out, max); leaves(c, out, max); return; }
    for (unsigned i = 0; i <= max; ++i) out.insert(~0ull - i * 7);   // not an ITE of constants
}
uint64_t stride(Sh s)
{
    const Node& n = N[s];
    if (n.op == O_CONST) return n.k & 7 ? (n.k & 1 ? 1 : n.k & 3 ? 2 : 4) : 8;
    if (n.op == O_CONCAT && isK(n.b, 0)) { unsigned w = N[n.b].w; return w >= 6 ? 64 : 1ull << w; }
    if (n.op == O_ZEXT) return stride(n.a);
    return 1;
}
uint64_t addrStride(Sh s)   // base + (x << k)
{
    const Node& n = N[s];
    if (n.op == O_ADD && isK(n.b)) return stride(n.a);
    return 1;
}

//---------------------------------------------------------------- violation reporting
std::string xmlDump();
void pathEnd();
std::vector<std::string> choiceLog;
void violation(const std::string& key)
{
    std::string s; put<uint32_t>(s, key.size()); s += key;
    put<uint32_t>(s, vars.size());
    for (auto& v : vars) { put<uint64_t>(s, v.val); put<uint32_t>(s, v.name.size()); s += v.name; }
    std::string d = xmlDump();
    put<uint32_t>(s, d.size()); s += d;
    rec('V', s);
}

//---------------------------------------------------------------- documents
struct Doc { std::string name, text; };
std::vector<Doc> docs;
struct Run { std::string text; std::vector<Sh> sh; };
std::vector<Run> runs;
std::string docsDump;
std::string xmlDump() { return docsDump; }

bool exactStreams = false;
int vfsOn = 0;
struct VFile { std::string name; std::string data; std::vector<Sh> sh; bool copied = false; };
std::vector<VFile> vfiles;
std::unordered_map<void*, int> vopen;
//faults of the environment: the operation number faultAt fails
bool faultOn = false;
Sh faultAt = 0, faultKind = 0; uint64_t faultAtV = 0, faultKindV = 0;
uint64_t faultNo = 0; int faultHit = 0; std::string faultName;
std::unordered_set<void*> vbroken;
std::vector<VFile> vinputs;                       // files that can be read, not part of the output
struct VRead { VFile f; size_t pos; };
std::unordered_map<void*, VRead> vread;
std::set<std::string> vdirs;

} // namespace

//================================================================ instrumentation entry points
extern "C" {

EXP Sh __sx_bin(uint32_t op, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    uint8_t o;
    switch (op) {   // llvm::Instruction opcodes (LLVM 18)
    case 13: o = O_ADD; break; case 15: o = O_SUB; break; case 17: o = O_MUL; break;
    case 19: o = O_UDIV; break; case 20: o = O_SDIV; break; case 22: o = O_UREM; break; case 23: o = O_SREM; break;
    case 25: o = O_SHL; break; case 26: o = O_LSHR; break; case 27: o = O_ASHR; break;
    case 28: o = O_AND; break; case 29: o = O_OR; break; case 30: o = O_XOR; break;
    default: lost("binop"); return 0;
    }
    if (o >= O_UDIV && o <= O_SREM && b) {
        decide(mkcmp(O_EQ, y, K(0, w)));
        if (o == O_SDIV || o == O_SREM) decide(mkbin(O_AND, 1, mkcmp(O_EQ, y, K(~0ull, w)), mkcmp(O_EQ, x, K(1ull << (w - 1), w))));
        if (!N[y].cv) return 0;
    }
    else if ((o == O_SDIV) && !b && sxt(bv_, w) == -1) decide(mkcmp(O_EQ, x, K(1ull << (w - 1), w)));
    if (o >= O_SHL && o <= O_ASHR && b) {
        decide(mkcmp(O_ULT, y, K(w, w)));
        if (N[y].cv >= w) { lostWhy["(poison) oversized-shift"]++; return 0; }     // poison; an instrumented "ub" build traps
    }
    return out(mkbin(o, w, x, y));
}

EXP Sh __sx_cmp(uint32_t pred, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    switch (pred) {
    case 32: return out(mkcmp(O_EQ, x, y));
    case 33: return out(mknot(mkcmp(O_EQ, x, y)));
    case 34: return out(mkcmp(O_ULT, y, x));
    case 35: return out(mknot(mkcmp(O_ULT, x, y)));
    case 36: return out(mkcmp(O_ULT, x, y));
    case 37: return out(mknot(mkcmp(O_ULT, y, x)));
    case 38: return out(mkcmp(O_SLT, y, x));
    case 39: return out(mknot(mkcmp(O_SLT, x, y)));
    case 40: return out(mkcmp(O_SLT, x, y));
    case 41: return out(mknot(mkcmp(O_SLT, y, x)));
    }
    lost("cmp"); return 0;
}

static Sh fnan(Sh x, unsigned w)
{
    uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
    return mkcmp(O_ULT, K(inf, w), mkbin(O_AND, w, x, K(maskw(w) >> 1, w)));
}
static Sh feq(Sh x, Sh y, unsigned w)     // both not NaN
{
    Sh z = mkbin(O_AND, 1, mkcmp(O_EQ, mkbin(O_AND, w, x, K(maskw(w) >> 1, w)), K(0, w)), mkcmp(O_EQ, mkbin(O_AND, w, y, K(maskw(w) >> 1, w)), K(0, w)));
    return mkbin(O_OR, 1, mkcmp(O_EQ, x, y), z);
}
static Sh fkey(Sh x, unsigned w)
{
    Sh sg = mkextr(x, w - 1, 1);
    return mkite(sg, mkbin(O_XOR, w, x, K(maskw(w), w)), mkbin(O_OR, w, x, K(1ull << (w - 1), w)));
}
static Sh flt(Sh x, Sh y, unsigned w)
{
    Sh z = mkbin(O_AND, 1, mkcmp(O_EQ, mkbin(O_AND, w, x, K(maskw(w) >> 1, w)), K(0, w)), mkcmp(O_EQ, mkbin(O_AND, w, y, K(maskw(w) >> 1, w)), K(0, w)));
    return mkbin(O_AND, 1, mknot(z), mkcmp(O_ULT, fkey(x, w), fkey(y, w)));
}

EXP Sh __sx_fcmp(uint32_t pred, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    Sh uno = mkbin(O_OR, 1, fnan(x, w), fnan(y, w)), r;
    // pred bits: 1 = eq, 2 = gt, 4 = lt, 8 = unordered
    r = K(0, 1);
    if (pred & 1) r = mkbin(O_OR, 1, r, feq(x, y, w));
    if (pred & 2) r = mkbin(O_OR, 1, r, flt(y, x, w));
    if (pred & 4) r = mkbin(O_OR, 1, r, flt(x, y, w));
    if ((pred & 7) == 7) r = K(1, 1);
    r = mkbin(O_AND, 1, r, mknot(uno));
    if (pred & 8) r = mkbin(O_OR, 1, r, uno);
    return out(r);
}

EXP Sh __sx_fbin(uint32_t op, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    uint8_t o = op == 14 ? O_FADD : op == 16 ? O_FSUB : op == 18 ? O_FMUL : op == 21 ? O_FDIV : O_FREM;
    if (isK(x) && isK(y)) return 0;
    return raw(o, w, x, y, 0, 0, 0, maskw(w));
}

EXP Sh __sx_cast(uint32_t op, uint32_t sw, uint32_t dw, Sh a)
{
    if (!a) return 0;
    switch (op) {
    case 38: return out(mkextr(a, 0, dw));
    case 39: return out(mkzext(a, dw));
    case 40: return out(mksext(a, dw));
    case 49: case 47: case 48: return sw == dw ? a : sw > dw ? out(mkextr(a, 0, dw)) : out(mkzext(a, dw));
    case 41: case 42: {
        // out of range conversions are undefined: split them off
        unsigned fw = sw;
        double lo = op == 42 ? -std::ldexp(1.0, dw - 1) : 0, hi = std::ldexp(1.0, op == 42 ? dw - 1 : dw);
        uint64_t lb, hb;
        if (fw == 64) { memcpy(&lb, &lo, 8); memcpy(&hb, &hi, 8); }
        else { float l = lo, h = hi; uint32_t t; memcpy(&t, &l, 4); lb = t; memcpy(&t, &h, 4); hb = t; }
        Sh in = mkbin(O_AND, 1, mknot(fnan(a, fw)), mkbin(O_AND, 1, mknot(flt(a, K(lb, fw), fw)), flt(a, K(hb, fw), fw)));
        decide(in);
        if (!isK(in) && !N[in].cv) { concretize(a, "fp-to-int out of range"); return 0; }
        return raw(op == 42 ? O_FPTOSI : O_FPTOUI, dw, a, 0, 0, 0, 0, maskw(dw));
    }
    case 43: return raw(O_UITOFP, dw, a, 0, 0, 0, 0, maskw(dw));
    case 44: return raw(O_SITOFP, dw, a, 0, 0, 0, 0, maskw(dw));
    case 45: return raw(O_FPTRUNC, dw, a, 0, 0, 0, 0, maskw(dw));
    case 46: return raw(O_FPEXT, dw, a, 0, 0, 0, 0, maskw(dw));
    }
    lost("cast"); return 0;
}

EXP void __sx_clear(void* p, uint64_t n) { clearRange((uint64_t)p, n); }

EXP Sh __sx_load(void* addr, Sh ash, uint32_t bytes, uint32_t bits)
{
    uint64_t a = (uint64_t)addr;
    if (__builtin_expect(!ash, 1)) {
        Page* p = page(a);
        if (!p && ((a & 4095) + bytes <= 4096)) return 0;
        bool any = false;
        for (unsigned i = 0; i < bytes; ++i) if (rd(a + i)) { any = true; break; }
        if (!any) return 0;
        Sh r = loadConc(a, bytes);
        if (bits != bytes * 8) r = mkextr(r, 0, bits);
        return out(r);
    }
    // symbolic address
    S.loads_sym++;
    if (isK(ash)) return __sx_load(addr, 0, bytes, bits);
    std::set<uint64_t> cand;
    if (N[ash].op == O_ITE) { leaves(ash, cand, 64); if (cand.size() > 64) cand.clear(); }
    if (cand.empty()) {
        uint64_t st = addrStride(ash), lo = N[ash].lo, hi = N[ash].hi;
        if (hi >= lo && (hi - lo) / st <= 1024) for (uint64_t x = lo; x <= hi; x += st) cand.insert(x);
    }
    if (cand.empty() || !cand.count(a)) { concretize(ash, "load-address"); return __sx_load(addr, 0, bytes, bits); }
    Sh r = 0;
    for (uint64_t x : cand) {
        uint8_t tmp[8];
        if (!safeRead(x, tmp, bytes)) { concretize(ash, "load-address"); return __sx_load(addr, 0, bytes, bits); }
    }
    // ITE over the address; built in a fixed order
    Sh def = 0;
    for (uint64_t x : cand) {
        Sh v = loadConc(x, bytes);
        if (!def) { def = r = v; continue; }
        if (v == def) continue;
        r = mkite(mkcmp(O_EQ, ash, K(x, 64)), v, r);
    }
    if (bits != bytes * 8) r = mkextr(r, 0, bits);
    return out(r);
}

EXP void __sx_store(void* addr, Sh ash, Sh s, uint32_t bytes, uint32_t bits)
{
    uint64_t a = (uint64_t)addr;
    if (__builtin_expect(ash != 0, 0)) concretize(ash, "store-address");
    if (!s) {
        if ((a & 4095) + bytes <= 4096) { Page* p = page(a); if (!p) return; memset(&p->s[a & 4095], 0, bytes * sizeof(Sh)); return; }
        clearRange(a, bytes); return;
    }
    if (bits != bytes * 8) s = mkzext(s, bytes * 8);
    for (unsigned i = 0; i < bytes; ++i) wrs(a + i, out(mkextr(s, i * 8, 8)));
}

EXP void __sx_br(Sh s, bool c, const char* fn)
{
    if (!s || !exploring) return;
    if ((bool)N[s].cv != c) { lost("branch-mismatch"); if (getenv("SX_DEBUG")) fprintf(stderr, "branch mismatch in %s op %d\n", fn, N[s].op); return; }
    fnsDecided.insert(fn);
    decide(s);
}

EXP void __sx_switch(Sh s, uint64_t v, uint32_t w, uint32_t n, const uint64_t* cs, const char* fn)
{
    if (!s || !exploring) return;
    if (N[s].cv != (v & maskw(w))) { lost("switch-mismatch"); return; }
    fnsDecided.insert(fn);
    for (unsigned i = 0; i < n; ++i) {
        decide(mkcmp(O_EQ, s, K(cs[i], w)));
        if (cs[i] == (v & maskw(w))) return;
    }
}

EXP Sh __sx_select(Sh cs, bool c, Sh t, Sh f, uint64_t tv, uint64_t fv, uint32_t w)
{
    if (!cs) return c ? t : f;
    // pointers: one level of choice stays symbolic, deeper ones fork
    if (w & 256) { w &= 255; if (t || f) { decide(cs); return c ? t : f; } }
    return out(mkite(cs, H(t, tv, w), H(f, fv, w)));
}

EXP void __sx_conc(Sh s, const char* why) { if (s) concretize(s, why); }

static bool ignorable(const char* n) { return strstr(n, "_M_insert") || strstr(n, "xmlFree") || !strcmp(n, "_ZNSt8ios_base4InitC1Ev"); }
EXP void __sx_postcall(void* fn, uint32_t n, const char* name)
{
    if (__sx_callee != fn) return;      // consumed by an instrumented body
    __sx_callee = nullptr;
    if (ignorable(name)) return;
    for (unsigned i = 0; i < n; ++i) if (__sx_args[i]) concretize(__sx_args[i], name);
}

EXP void __sx_memcpy(void* d, const void* s, uint64_t n)
{
    if (!s || !n || d == s) return;
    uint64_t D = (uint64_t)d, Sx = (uint64_t)s;
    // fast: no page of either side has shadows
    bool any = false;
    for (uint64_t p = Sx >> PB; p <= (Sx + n - 1) >> PB && !any; ++p) any = page(p << PB) != nullptr;
    if (!any) { clearRange(D, n); return; }
    if (D < Sx || D >= Sx + n) for (uint64_t i = 0; i < n; ++i) wrs(D + i, rdc(Sx + i));
    else for (uint64_t i = n; i-- > 0;) wrs(D + i, rdc(Sx + i));
}
EXP void __sx_memset(void* d, Sh s, uint64_t n)
{
    if (!s) { clearRange((uint64_t)d, n); return; }
    s = mkextr(s, 0, 8);
    for (uint64_t i = 0; i < n; ++i) wrs((uint64_t)d + i, out(s));
}
EXP void __sx_loadlost(void* a, uint64_t n, const char*)
{
    if (exploring && anySym((uint64_t)a, n)) { for (uint64_t i = 0; i < n; ++i) { Sh s = rdc((uint64_t)a + i); if (s) concretize(s, "wide-load"); } }
}

EXP Sh __sx_ovf(uint32_t kind, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    switch (kind) {
    case 0: return out(mkcmp(O_ULT, mkbin(O_ADD, w, x, y), x));
    case 2: return out(mkcmp(O_ULT, x, y));
    case 1: case 3: {
        Sh r = mkbin(kind == 1 ? O_ADD : O_SUB, w, x, y);
        Sh sa = mkextr(x, w - 1, 1), sb = mkextr(y, w - 1, 1), sr = mkextr(r, w - 1, 1);
        Sh p = mkbin(O_XOR, 1, sa, sr);
        Sh q = kind == 1 ? mkbin(O_XOR, 1, sb, sr) : mknot(mkbin(O_XOR, 1, sb, sr));
        return out(mkbin(O_AND, 1, p, q));
    }
    case 4: {   // umul
        if (isK(x)) std::swap(x, y);
        if (isK(y)) { if (!N[y].k) return 0; return out(mkcmp(O_ULT, K(maskw(w) / N[y].k, w), x)); }
        // x != 0 && (x*y)/x != y
        Sh m = mkbin(O_MUL, w, x, y);
        Sh nz = mknot(mkcmp(O_EQ, x, K(0, w)));
        return out(mkbin(O_AND, 1, nz, mknot(mkcmp(O_EQ, mkbin(O_UDIV, w, m, x), y))));
    }
    case 5: {
        if (isK(x)) std::swap(x, y);
        if (isK(y)) {
            int64_t k = sxt(N[y].k, w); if (k == 0 || k == 1) return 0;
            int64_t mx = (int64_t)(maskw(w) >> 1), mn = -mx - 1;
            if (k == -1) return out(mkcmp(O_EQ, x, K((uint64_t)mn, w)));
            int64_t lo = k > 0 ? mn / k : mx / k, hi = k > 0 ? mx / k : mn / k;
            return out(mkbin(O_OR, 1, mkcmp(O_SLT, x, K((uint64_t)lo, w)), mkcmp(O_SLT, K((uint64_t)hi, w), x)));
        }
        if (w <= 32) {
            Sh p = mkbin(O_MUL, 2 * w, mksext(x, 2 * w), mksext(y, 2 * w));
            return out(mknot(mkcmp(O_EQ, mksext(mkextr(p, 0, w), 2 * w), p)));
        }
        concretize(y, "smul-overflow");
        return __sx_ovf(5, w, x, 0, 0, N[y].cv);
    }
    }
    return 0;
}
EXP Sh __sx_minmax(uint32_t kind, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    switch (kind) {
    case 0: return out(mkite(mkcmp(O_ULT, x, y), x, y));
    case 1: return out(mkite(mkcmp(O_ULT, y, x), x, y));
    case 2: return out(mkite(mkcmp(O_SLT, x, y), x, y));
    case 3: return out(mkite(mkcmp(O_SLT, y, x), x, y));
    case 4: { Sh s = mkbin(O_ADD, w, x, y); return out(mkite(mkcmp(O_ULT, s, x), K(~0ull, w), s)); }
    case 5: return out(mkite(mkcmp(O_ULT, x, y), K(0, w), mkbin(O_SUB, w, x, y)));
    }
    return 0;
}
EXP Sh __sx_fsh(uint32_t dir, uint32_t w, Sh a, Sh b, uint64_t av, uint64_t bv_, uint64_t k)
{
    if (!(a | b)) return 0;
    Sh x = H(a, av, w), y = H(b, bv_, w);
    k %= w;
    if (k == 0) return out(dir == 0 ? x : y);
    if (dir == 1) k = w - k;
    return out(mkconcat(mkextr(x, 0, w - k), mkextr(y, w - k, k)));
}
EXP Sh __sx_un(uint32_t kind, uint32_t w, Sh a)
{
    if (!a) return 0;
    switch (kind) {
    case 1: return out(mkbin(O_XOR, w, a, K(1ull << (w - 1), w)));
    case 2: return out(mkite(mkcmp(O_SLT, a, K(0, w)), mkbin(O_SUB, w, K(0, w), a), a));
    case 3: return out(mkbin(O_AND, w, a, K(maskw(w) >> 1, w)));
    case 4: return raw(O_CTPOP, w, a, 0, 0, 0, 0, w);
    case 5: { Sh r = mkextr(a, 0, 8); for (unsigned i = 1; i < w / 8; ++i) r = mkconcat(r, mkextr(a, i * 8, 8)); return out(r); }
    case 6: return raw(O_CTLZ, w, a, 0, 0, 0, 0, w);
    case 7: return raw(O_CTTZ, w, a, 0, 0, 0, 0, w);
    }
    return 0;
}

//================================================================ call helpers for the twins
} // extern C
namespace {
void* beginArgs(Sh* a, unsigned n)
{
    void* self = __sx_callee;
    for (unsigned i = 0; i < n; ++i) a[i] = self ? __sx_args[i] : 0;
    __sx_callee = nullptr;
    return self;
}
void retSh(void* self, Sh s) { if (s && self && !isK(s)) { __sx_ret[0] = s; __sx_retfn = self; } else __sx_retfn = nullptr; }

Sh inr(Sh c, unsigned lo, unsigned hi)      // lo <= c <= hi
{
    unsigned w = N[c].w;
    return mkcmp(O_ULT, mkbin(O_SUB, w, c, K(lo, w)), K(hi - lo + 1, w));
}
Sh orr(Sh a, Sh b) { return mkbin(O_OR, 1, a, b); }
Sh isDigitE(Sh c) { return inr(c, '0', '9'); }
Sh isUpperE(Sh c) { return inr(c, 'A', 'Z'); }
Sh isLowerE(Sh c) { return inr(c, 'a', 'z'); }
Sh isAlphaE(Sh c) { return orr(isUpperE(c), isLowerE(c)); }
Sh isAlnumE(Sh c) { return orr(isAlphaE(c), isDigitE(c)); }
Sh isSpaceE(Sh c) { return orr(mkcmp(O_EQ, c, K(' ', N[c].w)), inr(c, 9, 13)); }
Sh isXdigitE(Sh c) { if (N[c].op == O_HEXD || N[c].op == O_DIGIT) return K(1, 1); return orr(isDigitE(c), orr(inr(c, 'a', 'f'), inr(c, 'A', 'F'))); }
Sh isPrintE(Sh c) { return inr(c, 32, 126); }
Sh isPunctE(Sh c) { return mkbin(O_AND, 1, inr(c, 33, 126), mknot(isAlnumE(c))); }

int ctypeWrap(int c, Sh (*f)(Sh), int (*real)(int))
{
    Sh a[1]; void* self = beginArgs(a, 1);
    if (!a[0]) { retSh(self, 0); return real(c); }
    Sh r = mkzext(f(a[0]), 32);
    retSh(self, r);
    return (int)N[r].cv;
}

bool decideB(Sh c) { decide(c); return N[c].cv; }

size_t symStrlen(const char* s)
{
    size_t i = 0;
    for (;; ++i) {
        Sh b = rdc((uint64_t)(s + i));
        if (b) { Sh z = mkcmp(O_EQ, b, K(0, 8)); decide(z); }
        if (!s[i]) return i;
    }
}

Sh cmpBytes(const uint8_t* a, const uint8_t* b, size_t n, bool stopNul)
{
    // result expr: 32-bit -1/0/1
    size_t lim = n;
    for (size_t i = 0; i < n; ++i) {
        Sh x = byteAt(a + i), y = byteAt(b + i);
        if (isK(mkcmp(O_EQ, x, y), 0)) { lim = i + 1; break; }
        if (stopNul && isK(x) && isK(y) && !N[x].k) { lim = i; break; }
    }
    Sh r = K(0, 32);
    // all digits of a number on (at least) one side, digits of the same amount on the other side: compared as numbers
    auto run = [&](size_t end, size_t& from, Sh& X, Sh& Y) {
        for (int op : {O_DIGIT, O_HEXD}) {
            unsigned base = op == O_DIGIT ? 10 : 16;
            Sh s[2] = {0, 0}; uint64_t k[2] = {0, 0}, pw = 1; size_t i = end, cnt = 0; bool hexUp = false;
            for (; i > 0 && cnt < (op == O_DIGIT ? 19u : 16u); --i, ++cnt) {
                Sh c[2] = {byteAt(a + i - 1), byteAt(b + i - 1)}; bool fit = true;
                for (int q = 0; q < 2 && fit; ++q) {
                    const Node& n = N[c[q]];
                    if (n.op == op && (n.k & 255) == cnt && (cnt == 0 || s[q] == n.a)) { if (cnt && hexUp != (bool)(n.k & HexUp)) fit = false; }
                    else if (!(n.op == O_CONST && n.k >= '0' && n.k <= '9' && (cnt == 0 || s[q] == 0))) fit = false;
                }
                if (fit && N[c[0]].op == O_CONST && N[c[1]].op == O_CONST) fit = false;
                if (!fit) break;
                for (int q = 0; q < 2; ++q) { const Node& n = N[c[q]]; if (n.op == op) { s[q] = n.a; hexUp = n.k & HexUp; } else k[q] += (n.k - '0') * pw; }
                pw *= base;
            }
            if (cnt < 1 || (!s[0] && !s[1])) continue;
            bool all = true;
            for (int q = 0; q < 2; ++q) if (s[q] && !(op == O_HEXD && cnt == 16) && rng(s[q]).hi >= pw) all = false;
            if (!all) continue;
            unsigned w = std::max(s[0] ? N[s[0]].w : 0, s[1] ? N[s[1]].w : 0);
            if (!s[0] && (k[0] & ~maskw(w))) continue;
            if (!s[1] && (k[1] & ~maskw(w))) continue;
            X = s[0] ? mkzext(s[0], w) : K(k[0], w); Y = s[1] ? mkzext(s[1], w) : K(k[1], w); from = i;
            return true;
        }
        return false;
    };
    for (size_t i = lim; i-- > 0;) {
        { size_t f; Sh X, Y; if (run(i + 1, f, X, Y)) { r = mkite(mkcmp(O_EQ, X, Y), r, mkite(mkcmp(O_ULT, X, Y), K(~0ull, 32), K(1, 32))); i = f; continue; } }
        Sh x = byteAt(a + i), y = byteAt(b + i);
        Sh eq = mkcmp(O_EQ, x, y);
        Sh ne = mkite(mkcmp(O_ULT, x, y), K(~0ull, 32), K(1, 32));
        if (stopNul) { Sh z = mkcmp(O_EQ, x, K(0, 8)); r = mkite(eq, mkite(z, K(0, 32), r), ne); }
        else r = mkite(eq, r, ne);
    }
    return r;
}

unsigned ndigits(uint64_t v) { unsigned n = 1; while (v >= 10) { v /= 10; ++n; } return n; }
uint64_t p10(unsigned n) { uint64_t p = 1; while (n--) p *= 10; return p; }

// decides the number of decimal digits of V
unsigned digitsOf(Sh v)
{
    unsigned w = N[v].w, n = ndigits(N[v].cv);
    if (isK(v)) return n;
    // in a fixed order, so that paths sharing a prefix ask the same questions
    for (unsigned i = 1; i <= n && i < 20 && p10(i) <= maskw(w); ++i) decide(mkcmp(O_ULT, v, K(p10(i), w)));
    return n;
}
Sh digitChar(Sh v, unsigned i)
{
    if (isK(v)) { uint64_t x = N[v].k; for (unsigned j = 0; j < i; ++j) x /= 10; return K('0' + x % 10, 8); }
    if (N[v].hi <= 9 && i == 0) return mkbin(O_ADD, 8, N[v].w >= 8 ? mkextr(v, 0, 8) : mkzext(v, 8), K('0', 8));
    return raw(O_DIGIT, 8, v, 0, 0, i, '0', '9');
}
Sh hexChar(Sh v, unsigned i, bool up = false)
{
    const char* ds = up ? "0123456789ABCDEF" : "0123456789abcdef";
    if (4 * i >= N[v].w) return K('0', 8);
    if (isK(v)) return K(ds[(N[v].k >> (4 * i)) & 15], 8);
    Sh nib = mkextr(v, 4 * i, 4);
    if (isK(nib)) return K(ds[N[nib].k], 8);
    return raw(O_HEXD, 8, v, 0, 0, up ? i | HexUp : i, '0', up ? 'F' : 'f');
}
void putByte(char* p, Sh s) { *p = (char)N[s].cv; wrs((uint64_t)p, out(s)); }

static bool c23;    // the C23 functions know the prefix 0b
// generic text -> integer. Returns magnitude expr (64 bit), sets neg/any/ovf and end.
struct Num { Sh mag; bool neg = false, any = false, ovf = false; const char* end; };
Num parseNum(const char* s, int base)
{
    Num r; r.mag = K(0, 64); r.end = s;
    const char* p = s;
    auto at = [&](const char* q) { return byteAt(q); };
    auto cur = [&]() { return at(p); };
    while (decideB(isSpaceE(cur()))) ++p;
    if (decideB(mkcmp(O_EQ, cur(), K('-', 8)))) { r.neg = true; ++p; }
    else if (decideB(mkcmp(O_EQ, cur(), K('+', 8)))) ++p;
    // token: decimal digits of one expression
    if (base == 10 || base == 0) {
        const Node t = N[cur()];
        if (t.op == O_DIGIT && t.k + 1 == ndigits(N[t.a].cv)) {
            int i = t.k; const char* q = p; bool ok = t.k == 0 || base == 10 || rng(t.a).lo >= p10(t.k);
            for (; i >= 0; --i, ++q) { const Node u = N[at(q)]; if (!(u.op == O_DIGIT && u.a == t.a && (int)u.k == i)) { ok = false; break; } }
            Sh nx = ok ? mkbin(O_OR, 8, at(q), K(0x20, 8)) : 0;
            if (ok && base == 0 && t.k == 0 && decideB(orr(mkcmp(O_EQ, nx, K('x', 8)), mkcmp(O_EQ, nx, K('b', 8))))) ok = false;
            if (ok && !decideB(isDigitE(at(q)))) { r.any = true; r.mag = mkzext(t.a, 64); r.end = q; return r; }
        }
    }
    if ((base == 0 || base == 16) && decideB(mkcmp(O_EQ, cur(), K('0', 8)))) {
        Sh x = mkbin(O_OR, 8, at(p + 1), K(0x20, 8));
        if (decideB(mkcmp(O_EQ, x, K('x', 8))) && decideB(isXdigitE(at(p + 2)))) { base = 16; p += 2; }
        else if (c23 && base == 0 && decideB(mkcmp(O_EQ, x, K('b', 8))) && decideB(inr(at(p + 2), '0', '1'))) { base = 2; p += 2; }
        else if (base == 0) base = 8;
    }
    if (base == 0) base = 10;
    // token: hex digits of one expression
    {
        if (base == 16) {
            // leading concrete zeros then HEXD run ending at 0
            const char* q = p; Sh acc = 0; Sh v = 0; int want = -1;
            while (true) {
                const Node u = N[at(q)];
                if (!v && u.op == O_CONST && u.k == '0') { ++q; continue; }
                if (u.op == O_HEXD) { if (!v) { v = u.a; want = u.k & 255; } if (u.a != v || (int)(u.k & 255) != want) break; --want; ++q; continue; }
                if (v && want >= 0 && u.op == O_CONST && isxdigit((int)u.k)) {    // a constant nibble inside
                    Sh hc = hexChar(v, want); if (isK(hc) && N[hc].k == (uint64_t)tolower((int)u.k)) { --want; ++q; continue; }
                }
                break;
            }
            (void)acc;
            if (v && want == -1) {
                const char* st = p; while (isK(at(st), '0') && st < q) ++st;
                unsigned nd = q - st;
                Sh m = nd >= 16 || rng(v).hi < (1ull << (4 * nd)) ? mkzext(v, 64) : 4 * nd >= N[v].w ? mkzext(v, 64) : mkzext(mkextr(v, 0, 4 * nd), 64);
                if (!decideB(isXdigitE(at(q)))) { r.any = true; r.mag = m; r.end = q; return r; }
            }
        }
    }
    unsigned nsym = 0;
    while (true) {
        Sh c = cur();
        Sh dig;
        if (base <= 10) {
            if (!decideB(inr(c, '0', '0' + base - 1))) break;
            dig = mkbin(O_SUB, 8, c, K('0', 8));
        } else {
            if (decideB(isDigitE(c))) dig = mkbin(O_SUB, 8, c, K('0', 8));
            else if (decideB(inr(c, 'a', 'f'))) dig = mkbin(O_SUB, 8, c, K('a' - 10, 8));
            else if (decideB(inr(c, 'A', 'F'))) dig = mkbin(O_SUB, 8, c, K('A' - 10, 8));
            else break;
        }
        ++nsym;
        r.any = true;
        Sh d64 = mkzext(dig, 64);
        if (!r.ovf) {
            Sh o1 = mkcmp(O_ULT, K(~0ull / base, 64), r.mag);
            Sh m = mkbin(O_MUL, 64, r.mag, K(base, 64));
            Sh s2 = mkbin(O_ADD, 64, m, d64);
            Sh o2 = mkcmp(O_ULT, s2, m);
            if (decideB(orr(o1, o2))) r.ovf = true;
            else r.mag = s2;
        }
        ++p;
    }
    if (r.any) r.end = p;
    return r;
}

bool strSym(const char* s)
{
    for (size_t i = 0;; ++i) { if (rdc((uint64_t)(s + i))) return true; if (!s[i]) return false; }
}

static inline void pinArg(Sh& a, const char* why) { if (a) { concretize(a, why); a = 0; } }
int64_t toSigned(const char* s, char** e, int base)
{
    Sh a[3]; void* self = beginArgs(a, 3);
    for (Sh& x : a) pinArg(x, "strto-arg");
    retSh(self, 0);
    if (!strSym(s)) return strtoll(s, e, base);
    Num r = parseNum(s, base);
    if (e) { *e = (char*)r.end; clearRange((uint64_t)e, 8); }
    if (!r.any) return 0;
    if (r.ovf) { errno = ERANGE; return r.neg ? INT64_MIN : INT64_MAX; }
    if (!r.neg) {
        if (!decideB(mkcmp(O_ULT, r.mag, K(1ull << 63, 64)))) { errno = ERANGE; return INT64_MAX; }
        retSh(self, r.mag); return (int64_t)N[r.mag].cv;
    }
    if (decideB(mkcmp(O_ULT, K(1ull << 63, 64), r.mag))) { errno = ERANGE; return INT64_MIN; }
    Sh v = mkbin(O_SUB, 64, K(0, 64), r.mag);
    retSh(self, v); return (int64_t)N[v].cv;
}
uint64_t toUnsigned(const char* s, char** e, int base)
{
    Sh a[3]; void* self = beginArgs(a, 3);
    for (Sh& x : a) pinArg(x, "strto-arg");
    retSh(self, 0);
    if (!strSym(s)) return strtoull(s, e, base);
    Num r = parseNum(s, base);
    if (e) { *e = (char*)r.end; clearRange((uint64_t)e, 8); }
    if (!r.any) return 0;
    if (r.ovf) { errno = ERANGE; return ~0ull; }
    Sh v = r.neg ? mkbin(O_SUB, 64, K(0, 64), r.mag) : r.mag;
    retSh(self, v); return N[v].cv;
}

// "~~k~~" placeholders -> symbolic runs
xmlChar* expand(xmlChar* s)
{
    if (!s || runs.empty()) return s;
    const char* p = (const char*)s;
    if (!strstr(p, "~~")) return s;
    std::string t; std::vector<Sh> sh;
    for (size_t i = 0; p[i];) {
        if (p[i] == '~' && p[i + 1] == '~' && isdigit((unsigned char)p[i + 2])) {
            char* e; unsigned long k = strtoul(p + i + 2, &e, 10);
            if (e[0] == '~' && e[1] == '~' && k < runs.size()) { t += runs[k].text; sh.insert(sh.end(), runs[k].sh.begin(), runs[k].sh.end()); i = (e + 2) - p; continue; }
        }
        t.push_back(p[i]); sh.push_back(0); ++i;
    }
    xmlChar* r = (xmlChar*)xmlMalloc(t.size() + 1);
    memcpy(r, t.c_str(), t.size() + 1);
    for (size_t i = 0; i < sh.size(); ++i) wrs((uint64_t)(r + i), sh[i]);
    wrs((uint64_t)(r + sh.size()), 0);
    xmlFree(s);
    return r;
}

} // namespace

extern "C" {
// The program under test allocates from its own deterministic arena: addresses then depend only on the
// path taken, not on what the runtime and the solver allocated meanwhile. Freed memory is poisoned.
void* __libc_malloc(size_t); void __libc_free(void*);
}
namespace {
struct Hdr { uint64_t size; uint64_t cls; };
char* arena = nullptr; char* arenaCur; char* arenaEnd;
void* freeList[64];
const size_t ArenaSize = 8ull << 30;
inline unsigned clsOf(size_t n)
{
    if (n <= 16) return 0;
    unsigned k = 63 - __builtin_clzll(n - 1);           // 2^k < n <= 2^(k+1)
    // two classes per power of two
    return (k - 3) * 2 - ((n <= (3ull << (k - 1))) ? 1 : 0);
}
inline size_t clsSize(unsigned c)
{
    if (c == 0) return 16;
    unsigned k = (c + 1) / 2 + 3;
    return (c & 1) ? (3ull << (k - 1)) : (2ull << k);
}
void* arenaAlloc(size_t n, size_t al)
{
    if (!arena) {
        arena = (char*)mmap((void*)0x200000000000ull, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED) _exit(92);
        arenaCur = arena; arenaEnd = arena + ArenaSize;
    }
    if (n > (1ull << 32)) return nullptr;
    unsigned c = clsOf(n); size_t sz = (clsSize(c) + 15) & ~15ull;
    char* p;
    if (al <= 16 && freeList[c]) { p = (char*)freeList[c]; freeList[c] = *(void**)p; }
    else {
        char* q = arenaCur + sizeof(Hdr);
        if (al > 16) q = (char*)(((uint64_t)q + al - 1) & ~(al - 1));
        if (q + sz > arenaEnd) _exit(92);
        arenaCur = q + sz; p = q;
    }
    Hdr* h = (Hdr*)p - 1; h->size = n; h->cls = c | (al > 16 ? 256 : 0);
    if (exploring) clearRange((uint64_t)p, n);
    return p;
}
inline bool inArena(void* p) { return arena && (char*)p >= arena && (char*)p < arenaEnd; }
void arenaFree(void* p)
{
    Hdr* h = (Hdr*)p - 1;
    if (h->cls & 512) {     // double free
        if (exploring) { static const char k[] = "crash:double-free"; raise(SIGABRT); (void)k; }
        return;
    }
    memset(p, 0xDD, h->size);
    unsigned c = h->cls;
    h->cls |= 512;
    if (c & 256) return;
    *(void**)p = freeList[c]; freeList[c] = p;
}
}
void* operator new(size_t n) { void* p = __libc_malloc(n ? n : 1); if (!p) _exit(91); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" {
EXP void* malloc(size_t n) { return arenaAlloc(n, 16); }
EXP void free(void* p) { if (!p) return; if (inArena(p)) arenaFree(p); else __libc_free(p); }
EXP void* calloc(size_t a, size_t b)
{
    size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = arenaAlloc(n, 16); if (p) memset(p, 0, n); return p;
}
void* __libc_realloc(void*, size_t);
EXP void* realloc(void* q, size_t n)
{
    if (!q) return malloc(n);
    if (!inArena(q)) return __libc_realloc(q, n);
    if (!n) { free(q); return nullptr; }
    void* p = arenaAlloc(n, 16); if (!p) return nullptr;
    size_t o = ((Hdr*)q - 1)->size, k = std::min(o, n);
    memcpy(p, q, k);
    for (size_t i = 0; exploring && i < k; ++i) { Sh s = rd((uint64_t)q + i); if (s) wrs((uint64_t)p + i, s); }
    free(q);
    return p;
}
EXP void* memalign(size_t a, size_t n) { return arenaAlloc(n, a); }
EXP void* aligned_alloc(size_t a, size_t n) { return arenaAlloc(n, a); }
EXP int posix_memalign(void** o, size_t a, size_t n) { *o = arenaAlloc(n, a); return *o ? 0 : ENOMEM; }
EXP size_t malloc_usable_size(void* p) { return p && inArena(p) ? ((Hdr*)p - 1)->size : 0; }

EXP size_t sxw_strlen(const char* s) { Sh a[1]; void* self = beginArgs(a, 1); pinArg(a[0], "strlen-arg"); retSh(self, 0); return symStrlen(s); }
EXP int sxw_memcmp(const void* p, const void* q, size_t n)
{
    Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "memcmp-arg"); pinArg(a[1], "memcmp-arg"); if (a[2]) concretize(a[2], "memcmp-len");
    if (!anySym((uint64_t)p, n) && !anySym((uint64_t)q, n)) { retSh(self, 0); int r = memcmp(p, q, n); return r < 0 ? -1 : r > 0; }
    Sh r = cmpBytes((const uint8_t*)p, (const uint8_t*)q, n, false);
    retSh(self, r); return (int)N[r].cv;
}
EXP int sxw_bcmp(const void* p, const void* q, size_t n) { return sxw_memcmp(p, q, n); }
EXP int sxw_strcmp(const char* p, const char* q)
{
    Sh a[2]; void* self = beginArgs(a, 2); pinArg(a[0], "strcmp-arg"); pinArg(a[1], "strcmp-arg");
    size_t n = std::min(symStrlen(p), symStrlen(q)) + 1;
    Sh r = cmpBytes((const uint8_t*)p, (const uint8_t*)q, n, true);
    retSh(self, r); return (int)N[r].cv;
}
EXP int sxw_strncmp(const char* p, const char* q, size_t m)
{
    Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "strncmp-arg"); pinArg(a[1], "strncmp-arg"); if (a[2]) concretize(a[2], "strncmp-len");
    size_t n = std::min(m, std::min(strnlen(p, m), strnlen(q, m)) + 1);
    Sh r = cmpBytes((const uint8_t*)p, (const uint8_t*)q, n, true);
    retSh(self, r); return (int)N[r].cv;
}
EXP void* sxw_memchr(const void* p, int c, size_t n)
{
    Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "memchr-arg"); if (a[2]) concretize(a[2], "memchr-len");
    retSh(self, 0);
    Sh cs = a[1] ? mkextr(a[1], 0, 8) : K(c, 8);
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) {
        Sh e = mkcmp(O_EQ, byteAt(b + i), cs);
        decide(e);
        if (N[e].cv) return (void*)(b + i);
    }
    return nullptr;
}
EXP char* sxw_strchr(const char* s, int c)
{
    Sh a[2]; void* self = beginArgs(a, 2); pinArg(a[0], "strchr-arg"); retSh(self, 0);
    Sh cs = a[1] ? mkextr(a[1], 0, 8) : K(c, 8);
    for (;; ++s) {
        Sh e = mkcmp(O_EQ, byteAt(s), cs); decide(e);
        if (N[e].cv) return (char*)s;
        Sh z = mkcmp(O_EQ, byteAt(s), K(0, 8)); decide(z);
        if (!*s) return nullptr;
    }
}
EXP void sxw_memcpy_(void*, const void*, size_t) {}
EXP void* sxw_memcpy(void* d, const void* s, size_t n) { Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "memcpy-arg"); pinArg(a[1], "memcpy-arg"); if (a[2]) concretize(a[2], "memcpy-len"); retSh(self, 0); __sx_memcpy(d, s, n); return memcpy(d, s, n); }
EXP void* sxw_memmove(void* d, const void* s, size_t n) { Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "memmove-arg"); pinArg(a[1], "memmove-arg"); if (a[2]) concretize(a[2], "memmove-len"); retSh(self, 0); __sx_memcpy(d, s, n); return memmove(d, s, n); }
EXP void* sxw_memset(void* d, int c, size_t n) { Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "memset-arg"); if (a[2]) concretize(a[2], "memset-len"); retSh(self, 0); __sx_memset(d, a[1], n); return memset(d, c, n); }
EXP char* sxw_strcpy(char* d, const char* s) { Sh a[2]; void* self = beginArgs(a, 2); pinArg(a[0], "strcpy-arg"); pinArg(a[1], "strcpy-arg"); retSh(self, 0); size_t n = symStrlen(s) + 1; __sx_memcpy(d, s, n); memcpy(d, s, n); return d; }
EXP char* sxw_strncpy(char* d, const char* s, size_t m) { Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "strncpy-arg"); pinArg(a[1], "strncpy-arg"); retSh(self, 0); size_t n = std::min(m, symStrlen(s) + 1); __sx_memcpy(d, s, n); memcpy(d, s, n); clearRange((uint64_t)d + n, m - n); memset(d + n, 0, m - n); return d; }

EXP long sxw_strtol(const char* s, char** e, int b) { return toSigned(s, e, b); }
EXP long long sxw_strtoll(const char* s, char** e, int b) { return toSigned(s, e, b); }
EXP unsigned long sxw_strtoul(const char* s, char** e, int b) { return toUnsigned(s, e, b); }
EXP unsigned long long sxw_strtoull(const char* s, char** e, int b) { return toUnsigned(s, e, b); }
EXP long sxw___isoc23_strtol(const char* s, char** e, int b) { c23 = true; auto r = toSigned(s, e, b); c23 = false; return r; }
EXP long long sxw___isoc23_strtoll(const char* s, char** e, int b) { c23 = true; auto r = toSigned(s, e, b); c23 = false; return r; }
EXP unsigned long sxw___isoc23_strtoul(const char* s, char** e, int b) { c23 = true; auto r = toUnsigned(s, e, b); c23 = false; return r; }
EXP unsigned long long sxw___isoc23_strtoull(const char* s, char** e, int b) { c23 = true; auto r = toUnsigned(s, e, b); c23 = false; return r; }
// one character of the text of the double with bits `s`: +d.ddddddddddddddddde+ddd
static Sh fpChar(Sh s, int i)
{
    if (isK(s)) { char t[64]; double d; memcpy(&d, &N[s].cv, 8); fpText(t, d); return K((unsigned char)t[i], 8); }
    if (i == 2) return K('.', 8);
    if (i == 20) return K('e', 8);
    if (i == 0) return mkite(mkextr(s, 63, 1), K('-', 8), K('+', 8));
    if (i == 21) {
        Sh m = mkextr(s, 0, 63);
        Sh neg = mkbin(O_AND, 1, mkcmp(O_ULT, m, K(0x3ff0000000000000ull, 63)), mknot(mkcmp(O_EQ, m, K(0, 63))));
        return mkite(neg, K('-', 8), K('+', 8));
    }
    return raw(O_FPCH, 8, s, 0, 0, i, '0', '9');
}
EXP double sxw_strtod(const char* s, char** e)
{
    Sh a[2]; void* self = beginArgs(a, 2); pinArg(a[0], "strtod-arg"); pinArg(a[1], "strtod-arg"); retSh(self, 0);
    if (!strSym(s)) { if (e) clearRange((uint64_t)e, 8); return strtod(s, e); }
    char* end; double d = strtod(s, &end);
    if (e) { *e = end; clearRange((uint64_t)e, 8); }
    // FP token
    const char* p = s;
    if (end - p == 25) {
        // the digits are opaque, everything else is checked to be as sxn_fp() wrote it
        const Node u = N[byteAt(p + 1)];
        bool ok = u.op == O_FPCH;
        for (int i = 0; ok && i < 25; ++i) ok = byteAt(p + i) == fpChar(u.a, i);
        if (ok) { uint64_t bits; memcpy(&bits, &d, 8); if (bits == N[u.a].cv) { retSh(self, u.a); return d; } lost("strtod-roundtrip"); return d; }
    }
    // integer text
    {
        const char* q = s; while (rdc((uint64_t)q) == 0 && *q && isspace((unsigned char)*q)) ++q;
        const char* st = q; if (!rdc((uint64_t)q) && (*q == '-' || *q == '+')) ++q;
        const Node u0 = N[byteAt(q)];
        if ((u0.op == O_DIGIT || (u0.op == O_CONST && *q == '0' && (q[1] | 32) == 'x')) ) {
            Num r = parseNum(st, u0.op == O_DIGIT ? 10 : 16);
            if (r.any && r.end == end) {
                Sh f = raw(O_UITOFP, 64, r.mag, 0, 0, 0, 0, ~0ull);
                if (isK(r.mag)) f = K(N[f].cv, 64);
                if (r.neg) f = mkbin(O_XOR, 64, f, K(1ull << 63, 64));
                if (N[f].cv == [&] { uint64_t b; memcpy(&b, &d, 8); return b; }()) { retSh(self, f); return d; }
            }
        }
    }
    // arbitrary symbolic characters: pin them
    for (const char* q = s; ; ++q) { Sh c = rdc((uint64_t)q); if (c) concretize(c, "strtod-chars"); if (q >= end || !*q) break; }
    return d;
}

EXP int sxw_isalpha(int c) { return ctypeWrap(c, isAlphaE, isalpha); }
EXP int sxw_isalnum(int c) { return ctypeWrap(c, isAlnumE, isalnum); }
EXP int sxw_isdigit(int c) { return ctypeWrap(c, isDigitE, isdigit); }
EXP int sxw_isxdigit(int c) { return ctypeWrap(c, isXdigitE, isxdigit); }
EXP int sxw_isspace(int c) { return ctypeWrap(c, isSpaceE, isspace); }
EXP int sxw_isupper(int c) { return ctypeWrap(c, isUpperE, isupper); }
EXP int sxw_islower(int c) { return ctypeWrap(c, isLowerE, islower); }
EXP int sxw_isprint(int c) { return ctypeWrap(c, isPrintE, isprint); }
EXP int sxw_ispunct(int c) { return ctypeWrap(c, isPunctE, ispunct); }
EXP int sxw_toupper(int c)
{
    Sh a[1]; void* self = beginArgs(a, 1); if (!a[0]) { retSh(self, 0); return toupper(c); }
    Sh r = mkite(isLowerE(a[0]), mkbin(O_SUB, 32, a[0], K(32, 32)), a[0]); retSh(self, r); return (int)N[r].cv;
}
EXP int sxw_tolower(int c)
{
    Sh a[1]; void* self = beginArgs(a, 1); if (!a[0]) { retSh(self, 0); return tolower(c); }
    Sh r = mkite(isUpperE(a[0]), mkbin(O_ADD, 32, a[0], K(32, 32)), a[0]); retSh(self, r); return (int)N[r].cv;
}

EXP size_t sxw__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed);
}
namespace std { size_t _Hash_bytes(const void*, size_t, size_t); }
extern "C" {
EXP size_t sxw__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed)
{
    Sh a[3]; void* self = beginArgs(a, 3); for (Sh& x : a) pinArg(x, "hash-arg"); retSh(self, 0);
    for (size_t i = 0; i < n; ++i) { Sh s = rdc((uint64_t)p + i); if (s) concretize(s, "hash"); }
    return std::_Hash_bytes(p, n, seed);
}

//---- integer -> text
static unsigned tclen(uint64_t v, int base) { unsigned n = 1; while (v >= (uint64_t)base) { v /= base; ++n; } return n; }
static unsigned toCharsLen(uint64_t v, int base, unsigned w)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (a[0]) { if (base == 10) return digitsOf(mkextr(a[0], 0, w)); concretize(a[0], "to_chars_len"); }
    return tclen(v, base);
}
static void toChars10(char* first, unsigned len, uint64_t v, unsigned w)
{
    Sh a[3]; void* self = beginArgs(a, 3); pinArg(a[0], "to_chars-arg"); pinArg(a[1], "to_chars-arg"); retSh(self, 0);
    Sh s = H(a[2], v, w);
    for (unsigned i = 0; i < len; ++i) putByte(first + i, digitChar(s, len - 1 - i));
}
EXP unsigned sxw__ZNSt8__detail14__to_chars_lenImEEjT_i(unsigned long v, int b) { return toCharsLen(v, b, 64); }
EXP unsigned sxw__ZNSt8__detail14__to_chars_lenIyEEjT_i(unsigned long long v, int b) { return toCharsLen(v, b, 64); }
EXP unsigned sxw__ZNSt8__detail14__to_chars_lenIjEEjT_i(unsigned v, int b) { return toCharsLen(v, b, 32); }
EXP void sxw__ZNSt8__detail18__to_chars_10_implImEEvPcjT_(char* f, unsigned l, unsigned long v) { toChars10(f, l, v, 64); }
EXP void sxw__ZNSt8__detail18__to_chars_10_implIyEEvPcjT_(char* f, unsigned l, unsigned long long v) { toChars10(f, l, v, 64); }
EXP void sxw__ZNSt8__detail18__to_chars_10_implIjEEvPcjT_(char* f, unsigned l, unsigned v) { toChars10(f, l, v, 32); }

//---- stream insertion
unsigned sxg_flags(void* os);     // in the glue
void sxg_insert_real(void* os, int kind, uint64_t v);
}
extern "C" {
static void* insertInt(void* os, uint64_t v, bool sgn, int kind)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (!a[1] || !exactStreams) { sxg_insert_real(os, kind, v); return os; }
    unsigned fl = sxg_flags(os);     // 1 hex, 2 oct, 4 showbase, 8 uppercase, 16 showpos
    Sh e = a[1];
    char buf[32]; unsigned n = 0;
    clearRange((uint64_t)buf, sizeof buf);
    if (fl & 2) { concretize(e, "octal-output"); sxg_insert_real(os, kind, v); return os; }
    if (fl & 1) {
        unsigned nd = 1; while (nd < 16 && (N[e].cv >> (4 * nd))) ++nd;
        for (unsigned i = 1; i <= nd && i < 16; ++i) decide(mkcmp(O_ULT, e, K(1ull << (4 * i), 64)));
        if (fl & 4) { decide(mkcmp(O_EQ, e, K(0, 64))); if (N[e].cv) { buf[n++] = '0'; buf[n++] = fl & 8 ? 'X' : 'x'; } }
        for (unsigned i = 0; i < nd; ++i) { putByte(buf + n, hexChar(e, nd - 1 - i, fl & 8)); ++n; }
    } else {
        if (sgn) {
            Sh ng = mkcmp(O_SLT, e, K(0, 64));
            if (decideB(ng)) { buf[n++] = '-'; e = mkbin(O_SUB, 64, K(0, 64), e); }
        }
        unsigned nd = digitsOf(e);
        for (unsigned i = 0; i < nd; ++i) { putByte(buf + n, digitChar(e, nd - 1 - i)); ++n; }
    }
    sxg_ostream_insert(os, buf, n);
    clearRange((uint64_t)buf, sizeof buf);
    return os;
}
EXP void* sxw__ZNSo9_M_insertImEERSoT_(void* os, unsigned long v) { return insertInt(os, v, false, 0); }
EXP void* sxw__ZNSo9_M_insertIyEERSoT_(void* os, unsigned long long v) { return insertInt(os, v, false, 0); }
EXP void* sxw__ZNSo9_M_insertIlEERSoT_(void* os, long v) { return insertInt(os, v, true, 1); }
EXP void* sxw__ZNSo9_M_insertIxEERSoT_(void* os, long long v) { return insertInt(os, v, true, 1); }
EXP void* sxw__ZNSo9_M_insertIbEERSoT_(void* os, bool v)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (a[1] && exactStreams) decide(a[1]);
    sxg_insert_real(os, 2, v); return os;
}
EXP void* sxw__ZNSo9_M_insertIdEERSoT_(void* os, double v)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    uint64_t b; memcpy(&b, &v, 8);
    if (a[1] && exactStreams) concretize(a[1], "fp-output");
    sxg_insert_real(os, 3, b); return os;
}
EXP int sxw_vsnprintf(char* b, size_t n, const char* f, va_list ap)
{
    Sh a[4]; void* self = beginArgs(a, 4); retSh(self, 0);
    // symbolic doubles reach here through memory we do not track: the caller's va_list area
    clearRange((uint64_t)b, n);
    return vsnprintf(b, n, f, ap);
}
EXP int sxw_snprintf(char* b, size_t n, const char* f, ...)
{
    void* self = __sx_callee;
    if (self && exactStreams) for (int i = 0; i < 16; ++i) if (__sx_args[i] && i > 2) concretize(__sx_args[i], "snprintf");
    __sx_callee = nullptr; __sx_retfn = nullptr;
    clearRange((uint64_t)b, n);
    va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r;
}
void sxg_to_string_real(void* ret, double v);
EXP void* sxw__ZNSt7__cxx119to_stringEd(void* ret, double v)
{
    // argument shadows: hidden result pointer, then the double
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (a[1] && exactStreams) concretize(a[1], "to_string(double)");
    sxg_to_string_real(ret, v);
    return ret;
}
EXP void* sxw__ZNSt7__cxx119to_stringEf(void* ret, float v)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (a[1] && exactStreams) concretize(a[1], "to_string(float)");
    sxg_to_string_real(ret, v);
    return ret;
}
EXP size_t sxw_fwrite(const void* p, size_t s, size_t n, FILE* f)
{
    Sh a[4]; void* self = beginArgs(a, 4); retSh(self, 0);
    if (exploring && (f == stdout || f == stderr) && !getenv("SX_DEBUG")) return n;
    return fwrite(p, s, n, f);
}

//---- file output (std::basic_filebuf<char>::_M_file)
EXP void* _ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(void*, const char*, int, int);
EXP long _ZNSt12__basic_fileIcE6xsputnEPKcl(void*, const char*, long);
EXP long _ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(void*, const char*, long, const char*, long);
EXP void* _ZNSt12__basic_fileIcE5closeEv(void*);
EXP bool _ZNKSt12__basic_fileIcE7is_openEv(const void*);

static const VFile* vfile(const std::string& n)
{
    for (size_t i = vfiles.size(); i-- > 0;) if (vfiles[i].name == n) return &vfiles[i];
    for (auto& f : vinputs) if (f.name == n) return &f;
    return nullptr;
}
EXP void sxn_input(const char* name, const char* text, size_t len, char* pb, size_t cap)
{
    Sh a[5]; beginArgs(a, 5);
    snprintf(pb, cap, "/sx/%s", name);
    VFile f{pb, std::string(text, len), {}};
    for (size_t i = 0; i < len; ++i) f.sh.push_back(rdc((uint64_t)(text + i)));
    vinputs.erase(std::remove_if(vinputs.begin(), vinputs.end(), [&](const VFile& o) { return o.name == f.name; }), vinputs.end());
    vinputs.push_back(f);
    docsDump += "--- " + std::string(name) + "\n" + std::string(text, len) + "\n";
}
EXP long _ZNSt12__basic_fileIcE6xsgetnEPcl(void*, char*, long);
EXP long _ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir(void*, long, int);
EXP long _ZNSt12__basic_fileIcE9showmanycEv(void*);
EXP long sxw__ZNSt12__basic_fileIcE6xsgetnEPcl(void* t, char* b, long n)
{
    Sh a[3]; void* self = beginArgs(a, 3); retSh(self, 0);
    auto it = vread.find(t);
    if (it == vread.end()) { long r = _ZNSt12__basic_fileIcE6xsgetnEPcl(t, b, n); if (r > 0) clearRange((uint64_t)b, r); return r; }
    auto& f = it->second.f; size_t& p = it->second.pos;
    n = std::min<long>(n, f.data.size() - p);
    for (long i = 0; i < n; ++i, ++p) {
        if (f.sh[p]) putByte(b + i, f.sh[p]); else { clearRange((uint64_t)(b + i), 1); b[i] = f.data[p]; }
    }
    return n;
}
EXP long sxw__ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir(void* t, long o, int d)
{
    Sh a[3]; void* self = beginArgs(a, 3); retSh(self, 0);
    auto it = vread.find(t);
    if (it == vread.end()) return vopen.count(t) ? -1 : _ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir(t, o, d);
    long p = (d == 0 ? 0 : d == 1 ? (long)it->second.pos : (long)it->second.f.data.size()) + o;
    if (p < 0 || p > (long)it->second.f.data.size()) return -1;
    return it->second.pos = p;
}
EXP long sxw__ZNSt12__basic_fileIcE9showmanycEv(void* t)
{
    Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0);
    auto it = vread.find(t);
    return it == vread.end() ? _ZNSt12__basic_fileIcE9showmanycEv(t) : (long)(it->second.f.data.size() - it->second.pos);
}
// std::filesystem::file_status comes in a register: the type in the lowest byte, the permissions from bit 32
EXP uint64_t _ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code(const std::string*, std::error_code*);
EXP uint64_t _ZNSt10filesystem6statusERKNS_7__cxx114pathE(const std::string*);
static uint64_t vstatus(const std::string& p)
{
    if (vfsOn && vdirs.count(p)) return 0755ull << 32 | 2;
    return vfile(p) ? 0755ull << 32 | 1 : 0;
}
EXP uint64_t sxw__ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code(const std::string* p, std::error_code* ec)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    clearRange((uint64_t)ec, sizeof *ec);
    if (auto r = vstatus(*p)) { *ec = std::error_code(); return r; }
    return _ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code(p, ec);
}
EXP uint64_t sxw__ZNSt10filesystem6statusERKNS_7__cxx114pathE(const std::string* p)
{
    Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0);
    if (auto r = vstatus(*p)) return r;
    return _ZNSt10filesystem6statusERKNS_7__cxx114pathE(p);
}
static bool faultHere(const char* n)
{
    if (!faultOn) return false;
    uint64_t i = faultNo++;
    if (faultAt) decide(mkcmp(O_EQ, faultAt, K(i, 64)));
    if (i != faultAtV) return false;
    faultName = n; return true;
}
EXP void sxn_faults(uint64_t at, bool writes)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    faultOn = true; faultNo = 0; faultHit = 0; faultName.clear();
    faultAt = a[0]; faultAtV = at; faultKind = a[1]; faultKindV = writes;
}
EXP int sxn_fault_hit() { return faultHit; }
EXP uint64_t sxn_fault_points() { return faultNo; }
EXP const char* sxn_fault_name() { return faultName.c_str(); }
EXP bool _ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code(const std::string*, std::error_code*);
EXP bool _ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code(const std::string*, const std::string*, int, std::error_code*);
EXP bool sxw__ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code(const std::string* p, std::error_code* ec)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    if (faultHere(p->c_str())) { faultHit = 3; *ec = std::make_error_code(std::errc::permission_denied); clearRange((uint64_t)ec, sizeof *ec); return false; }
    if (vfsOn) {
        bool n = !vdirs.count(*p);
        std::string d = *p;
        while (d.size() > 1) { vdirs.insert(d); d = d.substr(0, d.rfind('/')); }
        *ec = std::error_code(); clearRange((uint64_t)ec, sizeof *ec); return n;
    }
    bool r = _ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code(p, ec);
    clearRange((uint64_t)ec, sizeof *ec); return r;
}
EXP bool sxw__ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code(const std::string* p, const std::string* q, int o, std::error_code* ec)
{
    Sh a[4]; void* self = beginArgs(a, 4); retSh(self, 0);
    if (faultHere(q->c_str())) { faultHit = 4; *ec = std::make_error_code(std::errc::no_space_on_device); clearRange((uint64_t)ec, sizeof *ec); return false; }
    if (vfsOn) {
        FILE* f = fopen(p->c_str(), "rb"); clearRange((uint64_t)ec, sizeof *ec);
        if (!f) { *ec = std::make_error_code(std::errc::no_such_file_or_directory); return false; }
        VFile v{*q, "", {}}; char b[4096]; size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) v.data.append(b, n);
        fclose(f); v.sh.resize(v.data.size()); v.copied = true;
        vfiles.erase(std::remove_if(vfiles.begin(), vfiles.end(), [&](const VFile& o) { return o.name == v.name; }), vfiles.end());
        vfiles.push_back(v); *ec = std::error_code(); return true;
    }
    bool r = _ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code(p, q, o, ec);
    clearRange((uint64_t)ec, sizeof *ec); return r;
}

EXP void* sxw__ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(void* t, const char* n, int m, int pr)
{
    Sh a[4]; void* self = beginArgs(a, 4); retSh(self, 0);
    if (!(m & 16)) {
        auto* f = vfile(n);
        if (!f) return _ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(t, n, m, pr);
        vread[t] = {*f, 0}; return t;
    }
    if (!vfsOn) return _ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(t, n, m, pr);
    vbroken.erase(t);
    if (faultHere(n)) {
        if (faultKind) decide(faultKind);
        faultHit = faultKindV ? 2 : 1;
        if (!faultKindV) { errno = EACCES; return nullptr; }
        vbroken.insert(t);
    }
    vfiles.erase(std::remove_if(vfiles.begin(), vfiles.end(), [&](const VFile& o) { return o.copied && o.name == n; }), vfiles.end());
    vopen[t] = vfiles.size(); vfiles.push_back({n, "", {}});
    return t;
}
static void vput(void* t, const char* s, long n)
{
    auto& f = vfiles[vopen[t]];
    for (long i = 0; i < n; ++i) { f.data.push_back(s[i]); f.sh.push_back(rdc((uint64_t)(s + i))); }
}
EXP long sxw__ZNSt12__basic_fileIcE6xsputnEPKcl(void* t, const char* s, long n)
{
    Sh a[3]; void* self = beginArgs(a, 3); retSh(self, 0);
    if (!vopen.count(t)) return _ZNSt12__basic_fileIcE6xsputnEPKcl(t, s, n);
    if (vbroken.count(t)) { errno = ENOSPC; return 0; }
    vput(t, s, n); return n;
}
EXP long sxw__ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(void* t, const char* s, long n, const char* s2, long n2)
{
    Sh a[5]; void* self = beginArgs(a, 5); retSh(self, 0);
    if (!vopen.count(t)) return _ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(t, s, n, s2, n2);
    if (vbroken.count(t)) { errno = ENOSPC; return 0; }
    vput(t, s, n); vput(t, s2, n2); return n + n2;
}
EXP void* sxw__ZNSt12__basic_fileIcE5closeEv(void* t)
{
    Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0);
    if (vread.erase(t)) return t;
    if (!vopen.count(t)) return _ZNSt12__basic_fileIcE5closeEv(t);
    vopen.erase(t); return t;
}
EXP bool sxw__ZNKSt12__basic_fileIcE7is_openEv(const void* t)
{
    Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0);
    if (vopen.count((void*)t) || vread.count((void*)t)) return true;
    return _ZNKSt12__basic_fileIcE7is_openEv(t);
}

//---- libxml2
EXP xmlChar* sxw_xmlNodeListGetString(xmlDocPtr d, xmlNodePtr l, int in) { Sh a[3]; void* self = beginArgs(a, 3); retSh(self, 0); return expand(xmlNodeListGetString(d, l, in)); }
EXP xmlChar* sxw_xmlNodeGetContent(xmlNodePtr n) { Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0); return expand(xmlNodeGetContent(n)); }
EXP xmlChar* sxw_xmlGetProp(xmlNodePtr n, const xmlChar* nm) { Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0); return expand(xmlGetProp(n, nm)); }
EXP int sxw_xmlNodeDump(xmlBufferPtr b, xmlDocPtr d, xmlNodePtr c, int l, int f)
{
    Sh a[5]; void* self = beginArgs(a, 5); retSh(self, 0);
    int r = xmlNodeDump(b, d, c, l, f);
    if (strstr((const char*)xmlBufferContent(b), "~~")) lost("xmlNodeDump of symbolic text");
    return r;
}
static xmlDocPtr docFor(const char* n)
{
    for (auto& d : docs) if (d.name == n) return xmlReadMemory(d.text.data(), d.text.size(), n, nullptr, 0);
    return nullptr;
}
EXP xmlDocPtr sxw_xmlParseFile(const char* n)
{
    Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0);
    if (auto* d = docFor(n)) return d;
    return xmlParseFile(n);
}
EXP xmlDocPtr sxw_xmlReadFile(const char* n, const char* enc, int o)
{
    Sh a[3]; void* self = beginArgs(a, 3); retSh(self, 0);
    if (auto* d = docFor(n)) return d;
    return xmlReadFile(n, enc, o);
}

//================================================================ harness API
static uint64_t newVar(const char* name, unsigned bits, uint64_t lo, uint64_t hi, Sh* node)
{
    unsigned idx = vars.size();
    uint64_t v = idx < inputVals.size() ? inputVals[idx] : lo;
    if (v < lo || v > hi) v = lo;
    Var x; x.name = name; x.w = bits; x.lo = lo; x.hi = hi; x.val = v;
    x.node = lo == hi ? K(lo, bits) : raw(O_VAR, bits, 0, 0, 0, idx, lo, hi, v);
    if (idx == 128) lost("more than 128 variables");
    vars.push_back(x);
    *node = x.node;
    return v;
}
EXP uint64_t sxn_var(const char* name, unsigned bits, uint64_t lo, uint64_t hi)
{
    Sh a[4]; void* self = beginArgs(a, 4);
    hi = std::min(hi, maskw(bits));
    Sh n; uint64_t v = newVar(name, bits, lo, hi, &n);
    retSh(self, mkzext(n, 64));
    return v;
}
EXP unsigned sxn_choice(const char* name, unsigned k)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    Sh n; uint64_t v = newVar(name, 32, 0, k - 1, &n);
    concretize(n, "choice");
    return v;
}
EXP uint64_t sxn_concretize(uint64_t v) { Sh a[1]; void* self = beginArgs(a, 1); retSh(self, 0); if (a[0]) concretize(a[0], "harness"); return v; }
EXP void sxn_assume(bool c)
{
    Sh a[1]; beginArgs(a, 1);
    if (a[0]) decide(a[0]);
    if (!c) { pathEnd(); }
}
EXP void sxn_assert(bool c, const char* key)
{
    Sh a[2]; beginArgs(a, 2);
    if (a[0]) { fnsDecided.insert("(assertion)"); decide(a[0], true); }
    reached.insert(key);
    if (!c) { violation(key); pathEnd(); }
}
EXP void sxn_fail(const char* key) { __sx_callee = nullptr; reached.insert(key); violation(key); pathEnd(); }
EXP void sxn_reach(const char* key) { __sx_callee = nullptr; reached.insert(key); }
EXP void sxn_hex(char* b, uint64_t v)
{
    Sh a[2]; beginArgs(a, 2);
    Sh s = H(a[1], v, 64);
    clearRange((uint64_t)b, 2); b[0] = '0'; b[1] = 'x';
    for (int i = 0; i < 16; ++i) putByte(b + 2 + i, hexChar(s, 15 - i));
}
EXP unsigned sxn_dec(char* b, uint64_t v)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    Sh s = H(a[1], v, 64);
    unsigned n = digitsOf(s);
    for (unsigned i = 0; i < n; ++i) putByte(b + i, digitChar(s, n - 1 - i));
    return n;
}
EXP unsigned sxn_fp(char* b, uint64_t v)
{
    Sh a[2]; void* self = beginArgs(a, 2); retSh(self, 0);
    Sh s = H(a[1], v, 64);
    for (unsigned i = 0; i < 25; ++i) putByte(b + i, fpChar(s, i));
    return 25;
}
EXP void sxn_xml(const char* name, const char* text, size_t len, char* pb, size_t cap)
{
    Sh a[5]; beginArgs(a, 5);
    Doc d; d.name = name;
    docs.erase(std::remove_if(docs.begin(), docs.end(), [&](const Doc& o) { return o.name == d.name; }), docs.end());
    for (size_t i = 0; i < len;) {
        Sh s = rdc((uint64_t)(text + i));
        if (!s) { d.text.push_back(text[i]); ++i; continue; }
        Run r;
        while (i < len && (s = rdc((uint64_t)(text + i)))) { r.text.push_back(text[i]); r.sh.push_back(s); ++i; }
        d.text += "~~" + std::to_string(runs.size()) + "~~";
        runs.push_back(r);
    }
    docs.push_back(d);
    docsDump += "--- " + d.name + "\n" + std::string(text, len) + "\n";
    snprintf(pb, cap, "%s", name);
    clearRange((uint64_t)pb, cap);
}
EXP void sxn_vfs(int on) { vfsOn = on; if (on) { vfiles.clear(); vopen.clear(); vread.clear(); vdirs.clear(); vbroken.clear(); } }
EXP unsigned sxn_vfs_count() { return vfiles.size(); }
EXP const char* sxn_vfs_name(unsigned i) { return vfiles[i].name.c_str(); }
EXP size_t sxn_vfs_size(unsigned i) { return vfiles[i].data.size(); }
EXP void sxn_vfs_read(unsigned i, char* o)
{
    __sx_callee = nullptr;
    auto& f = vfiles[i];
    memcpy(o, f.data.data(), f.data.size());
    for (size_t j = 0; j < f.sh.size(); ++j) wrs((uint64_t)(o + j), f.sh[j]);
}
// concrete bytes of a generated file, and the next occurrence of a text in it (or -1)
EXP const char* sxn_vfs_text(unsigned i) { __sx_callee = nullptr; return vfiles[i].data.data(); }
EXP long sxn_vfs_find(unsigned i, size_t from, const char* what)
{
    __sx_callee = nullptr;
    auto& d = vfiles[i].data;
    if (from >= d.size()) return -1;
    auto* p = (const char*)memmem(d.data() + from, d.size() - from, what, strlen(what));
    return p ? p - d.data() : -1;
}
EXP void sxn_exact_streams(int on) { exactStreams = on; }
EXP int sxn_is_symbolic(const void* p, size_t n) { return anySym((uint64_t)p, n); }
EXP int sxn_replaying() { return 0; }
EXP int sxn_thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
EXP const char* sxn_workdir() { return "/sx"; }

EXP void __assert_fail(const char* e, const char* f, unsigned l, const char* fn)
{
    (void)l; (void)fn;
    const char* b = strrchr(f, '/');
    if (exploring) { violation(std::string("assert-in-code:") + (b ? b + 1 : f) + ":" + e); pathEnd(); }
    fprintf(stderr, "assert %s:%u %s\n", f, l, e);
    _exit(95);
}
} // extern C

namespace {
void sendStats()
{
    std::string s;
    put(s, S);
    put<uint8_t>(s, diverged);
    put<uint32_t>(s, path.size());
    put<uint32_t>(s, N.size());
    put<uint32_t>(s, fnsDecided.size()); for (auto* p : fnsDecided) put<uint64_t>(s, (uint64_t)p);
    put<uint32_t>(s, reached.size()); for (auto* p : reached) put<uint64_t>(s, (uint64_t)p);
    put<uint32_t>(s, lostWhy.size());
    for (auto& l : lostWhy) { put<uint32_t>(s, l.first.size()); s += l.first; put<uint64_t>(s, l.second); }
    rec('S', s);
}
[[noreturn]] void pathEndImpl() { if (exploring) { exploring = false; sendStats(); } _exit(0); }
void pathEnd() { pathEndImpl(); }

void onCrash(int sig)
{
    static volatile int in = 0;
    if (in++) _exit(94);
    if (exploring) {
        violation(sig == SIGABRT ? "crash:abort" : sig == SIGSEGV ? "crash:segv" : sig == SIGFPE ? "crash:fpe" : sig == SIGILL || sig == SIGTRAP ? "crash:trap" : "crash:signal");
        pathEnd();
    }
    _exit(93);
}

struct Job { unsigned bound; uint64_t hist; std::vector<uint64_t> vals; };

struct Child { pid_t pid; int fd; std::string buf; bool gotStats; std::vector<uint64_t> vals; bool viol = false; };

std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o.push_back(c);
    }
    return o;
}

void setupCrash()
{
    static char stk[65536];
    stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGTRAP, SIGBUS}) {
        struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
    }
}

void runChild(const Job& j)
{
    setupCrash();
    rlimit rl{(rlim_t)atoi(getenv("SX_PATH_CPU") ? getenv("SX_PATH_CPU") : "60"), 0}; rl.rlim_max = rl.rlim_cur + 5; setrlimit(RLIMIT_CPU, &rl);
    if (!getenv("SX_DEBUG")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
    bound = j.bound; wantHist = j.hist; inputVals = j.vals; hist = 0x1234;
    docs.clear(); runs.clear(); docsDump.clear();
    vinputs.clear(); vread.clear(); vdirs.clear(); faultOn = false; faultHit = 0;
    exploring = true;
    sxg_harness();
    if (path.size() < bound) { diverged = true; lost("divergence"); if (getenv("SX_DEBUG")) fprintf(stderr, "[%d] short path\n", (int)getpid()); }
    pathEnd();
}
} // namespace

extern "C" EXP int sx_main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SX_NOASLR")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SX_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    const char* outPath = nullptr; double budget = 60; unsigned par = 8; uint64_t seed = 1; unsigned maxViol = 5; uint64_t maxPaths = ~0ull;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-o") outPath = argv[++i];
        else if (a == "-t") budget = atof(argv[++i]);
        else if (a == "-j") par = atoi(argv[++i]);
        else if (a == "-s") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "-v") maxViol = atoi(argv[++i]);
        else if (a == "-n") maxPaths = strtoull(argv[++i], nullptr, 10);
        else if (a == "-V") {   // run one path with given values
            only = argv[++i];
        }
    }
    initExpr();
    initZ3();
    xmlInitParser();
    sxg_prepare();
    signal(SIGPIPE, SIG_IGN);
    std::mt19937_64 rng(seed);
    std::vector<Job> work, prio;
    work.push_back({0, 0, {}});
    if (!only.empty()) { char* p = &only[0]; while (*p) { work[0].vals.push_back(strtoull(p, &p, 0)); if (*p) ++p; } }
    std::vector<Child> ch;
    Stats T{}; uint64_t paths = 0, divs = 0, killed = 0, maxDec = 0, maxNodes = 0, maxWork = 0;
    std::set<std::string> fns, rch; std::map<std::string, uint64_t> lw; std::map<std::string, std::string> viol;
    std::vector<std::string> samples; const size_t nSamples = 40; uint64_t passing = 0; std::mt19937_64 srng(seed + 1);
    uint64_t t0 = nowus(); bool timeout = false, stop = false;
    while (true) {
        while (!stop && ch.size() < par && (!prio.empty() || !work.empty()) && paths + ch.size() < maxPaths) {
            Job j;
            if (!prio.empty()) { j = prio.back(); prio.pop_back(); }
            else { size_t i = work.size() - 1; if (rng() & 1) i = rng() % work.size(); std::swap(work[i], work.back()); j = std::move(work.back()); work.pop_back(); }
            int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
            fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
            pid_t p = fork();
            if (p == 0) { close(fd[0]); for (auto& c : ch) close(c.fd); wfd = fd[1]; runChild(j); _exit(0); }
            close(fd[1]);
            ch.push_back({p, fd[0], "", false, j.vals});
        }
        if (ch.empty()) break;
        std::vector<pollfd> pf; for (auto& c : ch) pf.push_back({c.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < ch.size(); ++i) {
            if (!pf[i].revents) continue;
            Child& c = ch[i];
            char b[65536]; ssize_t n = read(c.fd, b, sizeof b);
            if (n > 0) {
                c.buf.append(b, n);
                size_t pos = 0;
                while (c.buf.size() - pos >= 5) {
                    char ty = c.buf[pos]; uint32_t len; memcpy(&len, &c.buf[pos + 1], 4);
                    if (c.buf.size() - pos - 5 < len) break;
                    const char* q = &c.buf[pos + 5];
                    auto g32 = [&] { uint32_t v; memcpy(&v, q, 4); q += 4; return v; };
                    auto g64 = [&] { uint64_t v; memcpy(&v, q, 8); q += 8; return v; };
                    if (ty == 'J') {
                        Job j; bool pr = *q++; j.bound = g32(); j.hist = g64(); uint32_t nv = g32(); for (uint32_t k = 0; k < nv; ++k) j.vals.push_back(g64());
                        (pr ? prio : work).push_back(std::move(j));
                        maxWork = std::max<uint64_t>(maxWork, work.size());
                    } else if (ty == 'V') {
                        c.viol = true;
                        uint32_t kl = g32(); std::string key(q, kl); q += kl;
                        uint32_t nv = g32(); std::string js = "{\"key\":\"" + esc(key) + "\",\"values\":[";
                        for (uint32_t k = 0; k < nv; ++k) { uint64_t v = g64(); uint32_t nl = g32(); std::string nm(q, nl); q += nl; js += (k ? "," : "") + std::string("[\"") + esc(nm) + "\",\"" + std::to_string(v) + "\"]"; }
                        uint32_t dl = g32(); std::string d(q, dl);
                        js += "],\"docs\":\"" + esc(d) + "\"}";
                        if (!viol.count(key)) viol[key] = js;
                        if (viol.size() >= maxViol) stop = true;
                    } else if (ty == 'S') {
                        c.gotStats = true;
                        Stats s; memcpy(&s, q, sizeof s); q += sizeof s;
                        uint64_t* A = (uint64_t*)&T; uint64_t* B = (uint64_t*)&s; for (size_t k = 0; k < sizeof(Stats) / 8; ++k) A[k] += B[k];
                        divs += (uint8_t)*q++;
                        maxDec = std::max<uint64_t>(maxDec, g32()); maxNodes = std::max<uint64_t>(maxNodes, g32());
                        uint32_t k = g32(); while (k--) fns.insert((const char*)g64());
                        k = g32(); while (k--) rch.insert((const char*)g64());
                        k = g32(); while (k--) { uint32_t l = g32(); std::string w(q, l); q += l; lw[w] += g64(); }
                    }
                    pos += 5 + len;
                }
                c.buf.erase(0, pos);
            } else {
                int st; waitpid(c.pid, &st, 0); close(c.fd);
                ++paths; if (!c.gotStats) { ++killed; if (getenv("SX_DEBUG")) { fprintf(stderr, "killed st=%x vals:", st); for (auto v : c.vals) fprintf(stderr, " %llu", (unsigned long long)v); fprintf(stderr, "\n"); } }
                if (c.gotStats && !c.viol) {   // reservoir of passing valuations, to be re-run on the uninstrumented build
                    size_t slot = passing++ < nSamples ? samples.size() : srng() % passing;
                    if (slot < nSamples) {
                        std::string s = "["; for (size_t k = 0; k < c.vals.size(); ++k) s += (k ? "," : "") + std::string("\"") + std::to_string(c.vals[k]) + "\"";
                        if (slot == samples.size()) samples.push_back(""); samples[slot] = s + "]";
                    }
                }
                ch[i].fd = -1;
            }
        }
        ch.erase(std::remove_if(ch.begin(), ch.end(), [](const Child& c) { return c.fd < 0; }), ch.end());
        if (!stop && (nowus() - t0) / 1e6 > budget) { timeout = true; stop = true; }
        if (stop && (nowus() - t0) / 1e6 > budget + 20) { for (auto& c : ch) kill(c.pid, SIGKILL); }
    }
    bool pending = !work.empty() || !prio.empty();
    bool complete = !pending && !timeout && !killed && !divs && !T.nlost && !T.unknown;
    FILE* f = outPath ? fopen(outPath, "w") : stdout;
    fprintf(f, "{\"paths\":%llu,\"pending\":%zu,\"timeout\":%s,\"killed\":%llu,\"diverged\":%llu,\"complete\":%s,\"decisions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"stale\":%llu,\"pinned\":%llu,\"lost\":%llu,\"symbolic_loads\":%llu,\"max_decisions\":%llu,\"max_nodes\":%llu,\n",
        (unsigned long long)paths, work.size() + prio.size(), timeout ? "true" : "false", (unsigned long long)killed, (unsigned long long)divs, complete ? "true" : "false",
        (unsigned long long)T.decisions, (unsigned long long)T.queries, (unsigned long long)T.sat, (unsigned long long)T.unsat, (unsigned long long)T.unknown, T.us / 1e6, (nowus() - t0) / 1e6,
        (unsigned long long)T.stale, (unsigned long long)T.conc, (unsigned long long)T.nlost, (unsigned long long)T.loads_sym, (unsigned long long)maxDec, (unsigned long long)maxNodes);
    bool first = true;
    fprintf(f, "\"functions\":["); for (auto& s : fns) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    first = true; fprintf(f, "],\n\"reached\":["); for (auto& s : rch) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    first = true; fprintf(f, "],\n\"reasons\":{"); for (auto& s : lw) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(s.first).c_str(), (unsigned long long)s.second); first = false; }
    first = true; fprintf(f, "},\n\"samples\":["); for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", s.c_str()); first = false; }
    first = true; fprintf(f, "],\n\"violations\":["); for (auto& s : viol) { fprintf(f, "%s%s", first ? "" : ",\n", s.second.c_str()); first = false; }
    fprintf(f, "]}\n");
    if (outPath) fclose(f);
    return 0;
}
