// Replay runtime: the harness and the code under test, both uninstrumented, on one concrete valuation.
#include "sx.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <system_error>
#include <unistd.h>
static std::vector<uint64_t> vals; static size_t nv = 0; static std::string dir; static int vfs = 0;
static std::vector<std::pair<std::string, std::string>> files;
static void viol(const char* k) { printf("SXVIOL %s\n", k); fflush(stdout); _exit(10); }
extern "C" {
uint64_t sxn_var(const char* n, unsigned bits, uint64_t lo, uint64_t hi)
{
    uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; if (hi > m) hi = m;
    uint64_t v = nv < vals.size() ? vals[nv] : lo; ++nv; if (v < lo || v > hi) v = lo;
    printf("  %s = %llu\n", n, (unsigned long long)v);
    return v;
}
unsigned sxn_choice(const char* n, unsigned k) { return sxn_var(n, 32, 0, k - 1); }
void sxn_assume(bool c) { if (!c) { printf("assumption not met\n"); fflush(stdout); _exit(11); } }
void sxn_assert(bool c, const char* k) { if (!c) viol(k); }
void sxn_fail(const char* k) { viol(k); }
void sxn_reach(const char*) {}
void sxn_hex(char* b, uint64_t v) { char t[24]; snprintf(t, sizeof t, "0x%016llx", (unsigned long long)v); memcpy(b, t, 18); }
unsigned sxn_dec(char* b, uint64_t v) { char t[24]; int n = snprintf(t, sizeof t, "%llu", (unsigned long long)v); memcpy(b, t, n); return n; }
unsigned sxn_fp(char* b, uint64_t v) { char t[64]; double d; memcpy(&d, &v, 8); snprintf(t, sizeof t, "%+.17e", d); if (strlen(t) == 24) { memmove(t + 23, t + 22, 3); t[22] = '0'; } memcpy(b, t, 25); return 25; }
void sxn_xml(const char* name, const char* text, size_t len, char* pb, size_t cap)
{
    std::string p = dir + "/" + name;
    for (size_t i = dir.size() + 1; i < p.size(); ++i) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
    std::ofstream(p) << std::string(text, len);
    printf("--- %s\n%.*s\n", name, (int)len, text);
    snprintf(pb, cap, "%s", p.c_str());
}
void sxn_input(const char* name, const char* text, size_t len, char* pb, size_t cap) { sxn_xml(name, text, len, pb, cap); }
void sxn_vfs(int on) { vfs = on; }
static std::vector<std::pair<std::string, std::string>> outFiles;
unsigned sxn_vfs_count()
{
    outFiles.clear();
    std::error_code ec;
    for (auto& e : std::filesystem::recursive_directory_iterator(dir, ec)) {
        if (!e.is_regular_file()) continue;
        std::ifstream f(e.path(), std::ios::binary);
        outFiles.emplace_back(e.path().string(), std::string(std::istreambuf_iterator<char>(f), {}));
    }
    return (unsigned)outFiles.size();
}
const char* sxn_vfs_name(unsigned i) { return outFiles[i].first.c_str(); }
size_t sxn_vfs_size(unsigned i) { return outFiles[i].second.size(); }
void sxn_vfs_read(unsigned i, char* p) { memcpy(p, outFiles[i].second.data(), outFiles[i].second.size()); }
const char* sxn_vfs_text(unsigned i) { return outFiles[i].second.data(); }
long sxn_vfs_find(unsigned i, size_t from, const char* what) { auto p = outFiles[i].second.find(what, from); return p == std::string::npos ? -1 : (long)p; }
static bool faultOn = false, faultWrites = false; static uint64_t faultAt = 0, faultNo = 0; static int faultHit = 0; static std::string faultName;
void sxn_faults(uint64_t at, bool writes) { faultOn = true; faultAt = at; faultWrites = writes; faultNo = 0; faultHit = 0; }
int sxn_fault_hit() { return faultHit; }
uint64_t sxn_fault_points() { return faultNo; }
const char* sxn_fault_name() { return faultName.c_str(); }
static bool faultHere(const char* n) { if (!faultOn || faultNo++ != faultAt) return false; faultName = n; return true; }
void* sxr_open(void*, const char*, int, int) asm("_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei");
void* sxr_open(void* t, const char* n, int m, int p)
{
    static auto real = (void* (*)(void*, const char*, int, int))dlsym(RTLD_NEXT, "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei");
    if ((m & 16) && faultHere(n)) {
        faultHit = faultWrites ? 2 : 1;
        printf("fault: %s %s\n", faultWrites ? "write into" : "open of", n);
        if (!faultWrites) { errno = EACCES; return nullptr; }
        n = "/dev/full";
    }
    return real(t, n, m, p);
}
bool sxr_mkdir(const std::string*, std::error_code*) asm("_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code");
bool sxr_mkdir(const std::string* p, std::error_code* ec)
{
    static auto real = (bool (*)(const std::string*, std::error_code*))dlsym(RTLD_NEXT, "_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code");
    if (faultHere(p->c_str())) { faultHit = 3; printf("fault: creation of %s\n", p->c_str()); *ec = std::make_error_code(std::errc::permission_denied); return false; }
    return real(p, ec);
}
bool sxr_copy(const std::string*, const std::string*, int, std::error_code*) asm("_ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code");
bool sxr_copy(const std::string* p, const std::string* q, int o, std::error_code* ec)
{
    static auto real = (bool (*)(const std::string*, const std::string*, int, std::error_code*))dlsym(RTLD_NEXT, "_ZNSt10filesystem9copy_fileERKNS_7__cxx114pathES3_NS_12copy_optionsERSt10error_code");
    if (faultHere(q->c_str())) { faultHit = 4; printf("fault: copy to %s\n", q->c_str()); *ec = std::make_error_code(std::errc::no_space_on_device); return false; }
    return real(p, q, o, ec);
}
void sxn_exact_streams(int) {}
int sxn_is_symbolic(const void*, size_t) { return 0; }
int sxn_replaying() { return 1; }
int sxn_thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
uint64_t sxn_concretize(uint64_t v) { return v; }
const char* sxn_workdir() { return dir.c_str(); }
void __assert_fail(const char* e, const char* f, unsigned, const char*)
{
    const char* b = strrchr(f, '/');
    viol((std::string("assert-in-code:") + (b ? b + 1 : f) + ":" + e).c_str()); _exit(10);
}
}
static void onSig(int s) { viol(s == SIGABRT ? "crash:abort" : s == SIGSEGV ? "crash:segv" : s == SIGFPE ? "crash:fpe" : s == SIGILL || s == SIGTRAP ? "crash:trap" : "crash:signal"); }
int main(int argc, char** argv)
{
    // replay <values-file> <scratch-dir>
    if (argc < 3) return 2;
    std::ifstream f(argv[1]); uint64_t v; while (f >> v) vals.push_back(v);
    dir = argv[2];
    static char stk[65536]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGTRAP, SIGBUS}) { struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    alarm(60);
    sx_prepare();
    sx_harness();
    printf("no violation\n");
    return 0;
}
