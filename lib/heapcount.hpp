// Counts what operator new hands out: bytes and blocks alive, and the peak.
// Include in one translation unit only.
#ifndef HEAPCOUNT_HPP
#define HEAPCOUNT_HPP
#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace heapcount {
inline std::atomic<long> bytes{0}, count{0}, top{0};
// the how-manyth request of 256 bytes or more this thread makes is refused
inline thread_local long refuse = 0;
inline long live() { return bytes.load(); }
inline long blocks() { return count.load(); }
inline long peak() { return top.load(); }
inline void reset_peak() { top.store(bytes.load()); }
inline void add(void* p) {
  const long n = (long)malloc_usable_size(p);
  const long b = bytes.fetch_add(n) + n;
  count.fetch_add(1);
  long t = top.load(std::memory_order_relaxed);
  while (b > t && !top.compare_exchange_weak(t, b)) {}
}
inline void sub(void* p) {
  bytes.fetch_sub((long)malloc_usable_size(p));
  count.fetch_sub(1);
}
// everything malloc has handed out, operator new included
inline long system() {
  const struct mallinfo2 m = mallinfo2();
  return (long)(m.uordblks + m.hblkhd);
}
inline void* get(std::size_t n, std::size_t al) {
  if (n == 0) n = 1;
  if (refuse > 0 && n >= 256 && --refuse == 0) return nullptr;
  void* p = al <= alignof(std::max_align_t) ? std::malloc(n)
            : std::aligned_alloc(al, (n + al - 1) / al * al);
  if (p) add(p);
  return p;
}
inline void put(void* p) { if (p) { sub(p); std::free(p); } }
} // namespace heapcount

void* operator new(std::size_t n) {
  void* p = heapcount::get(n, 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return heapcount::get(n, 1);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return heapcount::get(n, 1);
}
void* operator new(std::size_t n, std::align_val_t a) {
  void* p = heapcount::get(n, (std::size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n, std::align_val_t a) {
  return operator new(n, a);
}
void operator delete(void* p) noexcept { heapcount::put(p); }
void operator delete[](void* p) noexcept { heapcount::put(p); }
void operator delete(void* p, std::size_t) noexcept { heapcount::put(p); }
void operator delete[](void* p, std::size_t) noexcept { heapcount::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept {
  heapcount::put(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  heapcount::put(p);
}
void operator delete(void* p, std::align_val_t) noexcept { heapcount::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heapcount::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  heapcount::put(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  heapcount::put(p);
}
#endif
