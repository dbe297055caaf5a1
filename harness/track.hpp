// Instrumented element type, allocator and memory resource for the container properties.
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <map>
#include <memory_resource>
#include <new>
#include <set>
#include <stdexcept>

namespace track {
struct Bomb : std::runtime_error {
  Bomb() : std::runtime_error("bomb") {}
};
inline int live = 0;          // Obj alive
inline std::set<const void *> *alive = nullptr;
inline long fuse = -1;        // operations that may throw before one does; -1: never
inline std::string *broken = nullptr; // first broken rule
inline void rule(const std::string &s) {
  if (broken->empty()) *broken = s;
}
inline void tick() {
  if (fuse >= 0 && fuse-- == 0) throw Bomb{};
}
inline std::map<void *, std::pair<int, size_t>> *blocks = nullptr; // live block -> arena, bytes
inline void reset() {
  if (!alive) {
    alive = new std::set<const void *>;
    broken = new std::string;
    blocks = new std::map<void *, std::pair<int, size_t>>;
  }
  live = 0;
  alive->clear();
  for (auto &[p, b] : *blocks) ::operator delete(p);
  blocks->clear();
  broken->clear();
  fuse = -1;
}
inline void settled(pbt::Case &c) {
  c.check(broken->empty(), "lifetime", *broken);
}
inline void all_gone(pbt::Case &c) {
  settled(c);
  c.check_f(live == 0 && alive->empty(), "object-leak", [] { return std::to_string(live) + " objects are still alive"; });
  c.check_f(blocks->empty(), "memory-leak", [] { return std::to_string(blocks->size()) + " blocks were not given back"; });
}

// copying, and construction from int, may throw; moving never does
struct Obj {
  int v = 0;
  Obj() { tick(); born(); }
  Obj(int x) : v(x) { tick(); born(); }
  Obj(const Obj &o) : v(o.get()) { tick(); born(); }
  Obj(Obj &&o) noexcept : v(o.get()) { born(); o.v = -777; }
  Obj &operator=(const Obj &o) {
    get();
    int n = o.get();
    tick();
    v = n;
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept {
    get();
    int n = o.get();
    if (this != &o) { v = n; o.v = -777; }
    return *this;
  }
  ~Obj() {
    if (!alive->erase(this)) rule("an object that is not alive was destroyed");
    --live;
  }
  int get() const {
    if (!alive->count(this)) rule("an object that is not alive was used");
    return v;
  }
  friend bool operator==(const Obj &a, const Obj &b) { return a.get() == b.get(); }
  friend auto operator<=>(const Obj &a, const Obj &b) { return a.get() <=> b.get(); }

private:
  void born() {
    if (!alive->insert(this).second) rule("an object was constructed on top of a live one");
    ++live;
  }
};

inline void *take(int arena, size_t n) {
  tick();
  void *p = ::operator new(n ? n : 1);
  (*blocks)[p] = {arena, n};
  return p;
}
inline void give(int arena, void *p, size_t n) {
  auto it = blocks->find(p);
  if (it == blocks->end()) { rule("memory that was not allocated (or was already freed) is given back"); return; }
  if (it->second.first != arena) rule("memory of allocator " + std::to_string(it->second.first) + " is given back to allocator " + std::to_string(arena));
  if (it->second.second != n) rule("memory is given back with the wrong size");
  blocks->erase(it);
  ::operator delete(p);
}

// Flags: 1 propagate on copy assignment, 2 on move assignment, 4 on swap, 8 always equal, 16 copies of containers use the default arena
template <class T, int Flags> struct Alloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<(Flags & 1) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(Flags & 2) != 0>;
  using propagate_on_container_swap = std::bool_constant<(Flags & 4) != 0>;
  using is_always_equal = std::bool_constant<(Flags & 8) != 0>;
  template <class U> struct rebind { using other = Alloc<U, Flags>; };
  int id = 0;
  Alloc() = default;
  explicit Alloc(int i) : id((Flags & 8) ? 0 : i) {}
  template <class U> Alloc(const Alloc<U, Flags> &o) : id(o.id) {}
  T *allocate(size_t n) { return static_cast<T *>(take(id, n * sizeof(T))); }
  void deallocate(T *p, size_t n) { give(id, p, n * sizeof(T)); }
  Alloc select_on_container_copy_construction() const { return (Flags & 16) ? Alloc() : *this; }
  friend bool operator==(const Alloc &a, const Alloc &b) { return a.id == b.id; }
};

struct Resource : std::pmr::memory_resource {
  int id;
  explicit Resource(int i) : id(i) {}
  void *do_allocate(size_t n, size_t) override { return take(id, n); }
  void do_deallocate(void *p, size_t n, size_t) override { give(id, p, n); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
} // namespace track
