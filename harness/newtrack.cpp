#include "newtrack.hpp"
#include <cstdlib>
namespace {
thread_local bool armed = false;
thread_local uint64_t count = 0, fail = 0;
thread_local int64_t live_blocks = 0;
void *get(size_t n, size_t align) {

  if (armed && ++count == fail) throw std::bad_alloc();
  void *p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++live_blocks;
  return p;
}
void put(void *p) noexcept {
  if (!p) return;
  --live_blocks;
  std::free(p);
}
} // namespace
namespace mem {
void arm(uint64_t f) { count = 0; fail = f; armed = true; }
uint64_t disarm() { armed = false; return count; }
int64_t live() { return live_blocks; }
Res::Res() { blocks.reserve(4096); }
Res::~Res() { for (auto &b : blocks) std::free(b.first); }
void *Res::do_allocate(size_t bytes, size_t align) {
  if (++n >= fail_at) throw std::bad_alloc();
  void *p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (bytes + align - 1) / align * align) : std::malloc(bytes ? bytes : 1);
  if (blocks.size() == blocks.capacity()) { bool a = armed; armed = false; blocks.reserve(blocks.size() * 2); armed = a; }
  blocks.push_back({p, bytes});
  return p;
}
void Res::do_deallocate(void *p, size_t bytes, size_t) {
  for (auto it = blocks.end(); it != blocks.begin();) {
    --it;
    if (it->first == p) {
      if (it->second != bytes) std::abort(); // given back with another size
      *it = blocks.back();
      blocks.pop_back();
      std::free(p);
      return;
    }
  }
  std::abort(); // not ours
}
} // namespace mem
void *operator new(size_t n) { return get(n, 1); }
void *operator new[](size_t n) { return get(n, 1); }
void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }
