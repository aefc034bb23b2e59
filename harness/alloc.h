// Replacement of the global allocation functions: the environment a case runs
// in (order of addresses, initial contents, reuse) is enumerated.  Include in
// exactly one translation unit.
#pragma once
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <sys/mman.h>
namespace va {
struct Env { int order; int fill; };                 // order: 0 ascending, 1 descending, 2 alternating from both ends, 3 spread, 4 reuse freed blocks at once (LIFO)
constexpr size_t ARENA = 256u << 20;
static char* arena = nullptr; static size_t lo = 0, hi = 0, spread = 0; static int order = -1, fillb = 0; static bool flip = false; static long live = 0;
static void* freel[64];                              // order 4: free lists by size class of 64 bytes
inline bool ours(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
inline void begin(const Env& e) { if (!arena) arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); lo = 0; hi = ARENA; spread = 0; flip = false; memset(freel, 0, sizeof freel); order = e.order; static const int f[] = { 0, 0xff, 0xa5, 0x7f }; fillb = f[e.fill]; live = 0; }
inline void end() { order = -1; }
inline void* get(size_t n) {
  if (order < 0) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  size_t m = (n + 16 + 63) & ~(size_t)63; char* p = nullptr; size_t cls = m / 64;
  if (order == 4 && cls < 64 && freel[cls]) { p = (char*)freel[cls]; memcpy(&freel[cls], p + 16, sizeof(void*)); }
  else {
    if (lo + m * 2 + (1 << 16) > hi) throw std::bad_alloc();
    switch (order) {
    case 1: hi -= m; p = arena + hi; break;
    case 2: flip = !flip; if (flip) { p = arena + lo; lo += m; } else { hi -= m; p = arena + hi; } break;
    case 3: // pseudo-random looking but fixed: four regions filled in turn, two of them downwards
      { spread++; size_t q = ARENA / 4, r = (spread * 7) % 4; static size_t used[4]; if (spread == 1) memset(used, 0, sizeof used); if (used[r] + m > q) throw std::bad_alloc(); used[r] += m; p = arena + (r & 1 ? (r + 1) * q - used[r] : r * q + used[r] - m); break; }
    default: p = arena + lo; lo += m;
    }
  }
  memcpy(p, &m, sizeof m); memset(p + 16, fillb, m - 16); ++live; return p + 16;
}
inline void put(void* p) { if (!p) return; if (!ours(p)) { free(p); return; } --live; char* b = (char*)p - 16; size_t m; memcpy(&m, b, sizeof m); memset(p, fillb ^ 0x3c, m - 16); if (order == 4 && m / 64 < 64) { memcpy(p, &freel[m / 64], sizeof(void*)); freel[m / 64] = b; } }
}
void* operator new(size_t n) { return va::get(n); }
void* operator new[](size_t n) { return va::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return va::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return va::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { va::put(p); }
void operator delete[](void* p) noexcept { va::put(p); }
void operator delete(void* p, size_t) noexcept { va::put(p); }
void operator delete[](void* p, size_t) noexcept { va::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { va::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { va::put(p); }
