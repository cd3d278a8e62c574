// Harness API. The same harness source is compiled twice: instrumented (symbolic run) and plain (replay).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
// Symbolic scalar of `bits` bits, lo <= v <= hi (unsigned).
uint64_t sxn_var(const char* name, unsigned bits, uint64_t lo, uint64_t hi);
// A value in [0, n) made concrete by path forking (every value is explored).
unsigned sxn_choice(const char* name, unsigned n);
void sxn_assume(bool c);
void sxn_assert(bool c, const char* key);
// Unconditional violation on the current path.
void sxn_fail(const char* key);
// Reachability mark: recorded when the current path gets here.
void sxn_reach(const char* key);
// Writes "0x" + 16 hex digits of v at buf (18 bytes, no NUL).
void sxn_hex(char* buf, uint64_t v);
// Writes shortest decimal of v (unsigned) at buf, returns the number of chars (forks on the length).
unsigned sxn_dec(char* buf, uint64_t v);
// Writes a 24-char textual form of the double with the given bits (opaque to the solver, strtod gives the value back).
unsigned sxn_fp(char* buf, uint64_t bits);
// Registers a document under a file name; parse() of the returned path sees it.
void sxn_xml(const char* name, const char* text, size_t len, char* pathBuf, size_t pathCap);
// Virtual file system for generated files: on=1 records writes (with their symbolic content) instead of doing them.
void sxn_vfs(int on);
unsigned sxn_vfs_count();
const char* sxn_vfs_name(unsigned i);
size_t sxn_vfs_size(unsigned i);
const char* sxn_vfs_text(unsigned i);           // concrete bytes only
long sxn_vfs_find(unsigned i, size_t from, const char* what);
void sxn_vfs_read(unsigned i, char* out);       // copies content with shadows
// A text file the code under test can read; gives its path.
void sxn_input(const char* name, const char* text, size_t len, char* pathBuf, size_t cap);
// From now on the operation number `at` (from 0) of those that open a file for writing, create a directory or
// copy a file fails; with `writes` a file can be opened, but writing into it fails.
void sxn_faults(uint64_t at, bool writes);
int sxn_fault_hit();                            // 0 none, 1 open, 2 write, 3 directory, 4 copy
uint64_t sxn_fault_points();                    // operations so far
const char* sxn_fault_name();
// 1: integers inserted in streams keep their exact (symbolic) text; 0: opaque text (logging)
void sxn_exact_streams(int on);
// true when any of the n bytes is symbolic (always false in replay)
int sxn_is_symbolic(const void* p, size_t n);
int sxn_replaying();
int sxn_thorough();
// scratch directory of this run (replay) or a fixed fake one
const char* sxn_workdir();
// pins a value: the path forks over its values
uint64_t sxn_concretize(uint64_t v);
}

namespace sx {
inline uint64_t u64(const char* n) { return sxn_var(n, 64, 0, ~0ull); }
inline uint64_t range(const char* n, uint64_t lo, uint64_t hi) { return sxn_var(n, 64, lo, hi); }
inline bool flag(const char* n) { return sxn_var(n, 8, 0, 1) != 0; }
inline unsigned choice(const char* n, unsigned k) { return sxn_choice(n, k); }
inline std::string hex(uint64_t v) { char b[18]; sxn_hex(b, v); return std::string(b, 18); }
inline std::string dec(uint64_t v) { char b[24]; unsigned n = sxn_dec(b, v); return std::string(b, n); }
// signed value rendered as [-]0x%016x of its magnitude; forks on the sign
inline std::string shex(int64_t v)
{
    if (v < 0) return "-" + hex(0 - static_cast<uint64_t>(v));
    return hex(static_cast<uint64_t>(v));
}
inline std::string fp(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); char t[32]; unsigned n = sxn_fp(t, b); return std::string(t, n); }
inline double f64(const char* n) { uint64_t b = sxn_var(n, 64, 0, ~0ull); double d; __builtin_memcpy(&d, &b, 8); return d; }
// n symbolic chars, each in [lo, hi]
inline std::string chars(const char* n, unsigned len, unsigned char lo, unsigned char hi)
{
    std::string s(len, lo);
    for (unsigned i = 0; i < len; ++i) s[i] = static_cast<char>(sxn_var((std::string(n) + "[" + char('0' + i / 10) + char('0' + i % 10) + "]").c_str(), 8, lo, hi));
    return s;
}
inline std::string xml(const std::string& name, const std::string& text)
{
    char p[512];
    sxn_xml(name.c_str(), text.data(), text.size(), p, sizeof(p));
    return p;
}
inline std::string input(const std::string& name, const std::string& text)
{
    char p[512];
    sxn_input(name.c_str(), text.data(), text.size(), p, sizeof(p));
    return p;
}
}

// A harness defines this; it runs once per explored path.
extern void sx_harness();
// Optional preparation, runs once before forking (no symbolic values yet).
extern void sx_prepare();
