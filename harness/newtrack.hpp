// Global operator new/delete with counters and failure injection (newtrack.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory_resource>
#include <new>
#include <vector>
namespace mem {
void arm(uint64_t fail_at); // count allocations from now on; the fail_at-th (from 1) throws std::bad_alloc
uint64_t disarm();          // number of allocations since arm()
int64_t live();             // blocks allocated and not yet freed

// A memory resource which counts, can fail, and gives everything back when destroyed (so that
// AddressSanitizer sees any later use of its memory).
struct Res : std::pmr::memory_resource {
  uint64_t n = 0, fail_at = ~0ULL;
  std::vector<std::pair<void *, size_t>> blocks;
  Res();
  Res(const Res &) = delete;
  Res &operator=(const Res &) = delete;
  ~Res() override;
  void *do_allocate(size_t bytes, size_t align) override;
  void do_deallocate(void *p, size_t bytes, size_t align) override;
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct Default { // replaces the default resource for a while
  std::pmr::memory_resource *old;
  explicit Default(std::pmr::memory_resource *r) : old(std::pmr::set_default_resource(r)) {}
  ~Default() { std::pmr::set_default_resource(old); }
};
} // namespace mem
