// Memory safety of the mixed operations: the harnesses of the other properties, run with their
// functional checks switched off, under AddressSanitizer/UBSan, with the library's own storage
// (realloc/free in Vector) counted: every block is released exactly once.
#include <algorithm>
#include <array>
#include <cassert>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#define VP_STORAGE 1
inline std::unordered_map<void *, std::size_t> &vp_blocks() { static std::unordered_map<void *, std::size_t> b; return b; }
inline long vp_live() { return (long)vp_blocks().size(); }
[[noreturn]] inline void vp_die(const char *why) { std::fprintf(stderr, "ERROR: storage: %s\n", why); std::abort(); }
inline void *vp_realloc(void *p, std::size_t n)
{
    if (n == 0) vp_die("a block of zero bytes is requested");
    if (n > (std::size_t(1) << 33)) vp_die("a block of absurd size is requested (a size computation wrapped)");
    if (p && !vp_blocks().count(p)) vp_die("realloc of a block that is not live");
    if (p) vp_blocks().erase(p);
    void *q = std::realloc(p, n);
    if (q) {
        if (!p) std::memset(q, 0xC1, n);
        vp_blocks()[q] = n;
    }
    return q;
}
inline void vp_free(void *p)
{
    if (!p) return;
    if (!vp_blocks().count(p)) vp_die("release of a block that is not live");
    vp_blocks().erase(p);
    std::free(p);
}
namespace std { using ::vp_free; using ::vp_realloc; }
#define realloc vp_realloc
#define free vp_free
#include "common.hpp"
#include "exact.hpp"
static int setup = (rp::memory_only = true, 0);
#undef GROUP
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define GROUP_(p, n) static void CAT(grp_, n)(); static rp::Reg CAT(reg_, n)(p "_" #n, CAT(grp_, n)); static void CAT(grp_, n)()
#define GROUP(n) GROUP_(PFX, n)
#define PFX "P01"
namespace p01 {
#include "P01.cpp"
}
#undef PFX
#define PFX "P02"
namespace p02 {
#include "P02.cpp"
}
#undef PFX
#define PFX "P04"
namespace p04 {
#include "P04.cpp"
}
#undef PFX
#define PFX "P05"
namespace p05 {
#include "P05.cpp"
}
#undef PFX
#define PFX "P06"
namespace p06 {
#include "P06.cpp"
}
#undef PFX
#define PFX "P07"
namespace p07 {
#include "P07.cpp"
}
#undef PFX
#define PFX "P08"
namespace p08 {
#include "P08.cpp"
}
#undef PFX
#define PFX "P09"
namespace p09 {
#include "P09.cpp"
}
#undef PFX
#define PFX "P10"
namespace p10 {
#include "P10.cpp"
}
#undef PFX
#define PFX "P11"
namespace p11 {
#include "P11.cpp"
}
#undef PFX
#define PFX "P12"
namespace p12 {
#include "P12.cpp"
}
#undef PFX
#define PFX "P13"
namespace p13 {
#include "P13.cpp"
}
#undef PFX
#define PFX "P14"
namespace p14 {
#include "P14.cpp"
}
#undef PFX
#define PFX "P15"
namespace p15 {
#include "P15.cpp"
}
#undef PFX
#define PFX "P16"
namespace p16 {
#include "P16.cpp"
}
#undef PFX
#define PFX "P17"
namespace p17 {
#include "P17.cpp"
}
#undef PFX
#define PFX "P18"
namespace p18 {
#include "P18.cpp"
}
#undef PFX
#define PFX "P19"
namespace p19 {
#include "P19.cpp"
}
#undef PFX
#define PFX "P20"
namespace p20 {
#include "P20.cpp"
}
#undef PFX
#define PFX "P21"
namespace p21 {
#include "P21.cpp"
}
#undef PFX
#define PFX "P22"
namespace p22 {
#include "P22.cpp"
}
#undef PFX
#define PFX "P23"
namespace p23 {
#include "P23.cpp"
}
#undef PFX
#define PFX "P24"
namespace p24 {
#include "P24.cpp"
}
#undef PFX
#define PFX "P25"
namespace p25 {
#include "P25.cpp"
}
#undef PFX
#define PFX "P26"
namespace p26 {
#include "P26.cpp"
}
#undef PFX
#define PFX "P28"
namespace p28 {
#include "P28.cpp"
}
