// Part of every symbolic executable; instrumented (except sxn_/sxw_ names) so that it can hand shadows to library templates.
#include "sx.h"
#include <ostream>
#include <string>
#include <cstring>
extern "C" {
void sxg_harness() { sx_harness(); }
void sxg_prepare() { sx_prepare(); }
void sxg_ostream_insert(void* os, const char* s, size_t n) { std::__ostream_insert(*static_cast<std::ostream*>(os), s, static_cast<std::streamsize>(n)); }
unsigned sxg_flags(void* p)
{
    auto f = static_cast<std::ostream*>(p)->flags();
    unsigned r = 0;
    if ((f & std::ios_base::basefield) == std::ios_base::hex) r |= 1;
    if ((f & std::ios_base::basefield) == std::ios_base::oct) r |= 2;
    if (f & std::ios_base::showbase) r |= 4;
    if (f & std::ios_base::uppercase) r |= 8;
    if (f & std::ios_base::showpos) r |= 16;
    return r;
}
}
