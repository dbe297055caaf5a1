// Type-erased operations on generated messages.  Each translation unit instantiates a few
// (message, traits) pairs; the properties themselves are written once over this table.
#pragma once
#include "gen.hpp"
#include "pbt.hpp"
#include "refmodel.hpp"
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace ops {
struct Out {
  int ec = 0; // 0 ok, else the std::errc value
  std::string bytes;
  ref::Msg msg;
  bool eq = true;
  std::string note;
};
struct Entry {
  std::string msg, trait;
  int d = -1;
  bool keep = false; // keeps unknown fields
  bool owning = true;
  // OPS_R
  std::function<Out(std::string_view)> read;            // expected<T> API
  std::function<Out(std::string_view, const ref::Msg &)> read_into; // into an object that already holds a value
  // OPS_W
  std::function<Out(const ref::Msg &)> write;
  // OPS_R + OPS_W
  std::function<Out(std::string_view)> rewrite;         // read, then write again
  std::function<Out(const ref::Msg &)> roundtrip;       // write, read, operator==
  // OPS_CHUNK
  std::function<Out(const std::vector<std::string> &, int mode)> read_chunks;
  std::function<Out(std::string_view)> read_padded;
  // OPS_SINK
  std::function<Out(const ref::Msg &, int mode, const std::vector<size_t> &chunks, bool vary, bool roomy, size_t limit)> write_mode;
  std::function<Out(const ref::Msg &, std::string_view prefix)> append;
  std::function<Out(const ref::Msg &, int kind, std::string_view junk)> write_as;
  // OPS_MERGE
  std::function<Out(std::string_view a, std::string_view b, bool as_rvalue)> merge;
  // OPS_GRPC: ByteBuffer contents as slices
  std::function<Out(const ref::Msg &, int how, std::string_view junk, std::vector<size_t> &slices)> grpc_write;
  std::function<Out(const std::vector<std::string> &slices, int how, const ref::Msg *old)> grpc_read;
  // OPS_LIM: reading and writing with recursion_limit<N>; lim: 0 none given (100), 1..4 N = 0, 1, 3, 12
  std::function<Out(const std::vector<std::string> &segs, int lim, int how, const std::vector<std::string> *before)> read_lim;
  std::function<Out(const ref::Msg &, int lim, int how, const std::vector<size_t> &chunks, const ref::Msg *before)> write_lim;
  // OPS_ALLOC: memory accounting and allocation failure
  struct Mem {
    bool threw = false;
    int ec = 0;
    uint64_t global = 0, def = 0, a = 0, b = 0; // allocations: operator new, default resource, alloc_from, cache_alloc_from
    int64_t leaked = 0;
    std::string note; // first thing that is wrong
  };
  struct Fail { uint64_t global = ~0ULL, def = ~0ULL, a = ~0ULL, b = ~0ULL; }; // the allocation that fails
  std::function<Mem(const std::vector<std::string> &segs, const ref::Msg &want, const ref::Msg &old, int how, Fail)> alloc_read;
  std::function<Mem(const ref::Msg &, const std::string &want, int how, size_t chunk, Fail)> alloc_write;
  std::function<Mem(const ref::Msg &a, const ref::Msg &b, const ref::Msg &want, int how, Fail)> alloc_modify;
  // OPS_ANY
  std::function<Out(const ref::Msg &, std::string &url, int how)> pack_any;
  std::function<Out(std::string_view url, std::string_view value, const ref::Msg &old, int how)> unpack_any;
};
std::vector<Entry> &table();
const ref::Schema &schema();
struct Add { Add(Entry e) { table().push_back(std::move(e)); } };
} // namespace ops
