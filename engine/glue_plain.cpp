// Uninstrumented helpers that call the library's own formatted output.
#include <ostream>
#include <string>
#include <new>
#include <cstring>
#include <cstdint>
extern "C" __attribute__((visibility("default"))) void sxg_insert_real(void* os, int kind, uint64_t v)
{
    auto& o = *static_cast<std::ostream*>(os);
    if (kind == 0) o << static_cast<unsigned long>(v);
    else if (kind == 1) o << static_cast<long>(v);
    else if (kind == 2) o << static_cast<bool>(v);
    else { double d; memcpy(&d, &v, 8); o << d; }
}
extern "C" __attribute__((visibility("default"))) void sxg_to_string_real(void* r, double v) { new (r) std::string(std::to_string(v)); }
