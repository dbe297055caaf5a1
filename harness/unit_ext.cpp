// Extension histories on vs2.Ext.
#include "vs2.pb.hpp"
#include "vs3.pb.hpp"
#include "ve23.pb.hpp"
#include "ks.ad.hpp"
#define OPS_R
#include "ext_history.hpp"
#include "ks.tbl.hpp"
#include <hpp_proto/merge.hpp>

extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }
namespace ops {
std::vector<Entry> &table() {
  static std::vector<Entry> t;
  return t;
}
const ref::Schema &schema() {
  static ref::Schema s = ref::Schema::parse(kSchemaTable);
  return s;
}
} // namespace ops
namespace ad {
const ref::Schema &schema() { return ops::schema(); }
} // namespace ad

using namespace pbt;
using namespace hpp_proto;
using ext_history::Tag;
using ext_history::History;
namespace {
template <class Tr> using Exts = std::tuple<
    Tag<100, false, vs2::e_int32>, Tag<101, false, vs2::e_string<Tr>>, Tag<102, false, vs2::e_leaf<Tr>>, Tag<103, false, vs2::e_enum>, Tag<104, true, vs2::e_rint<Tr>>, Tag<105, true, vs2::e_pint<Tr>>,
    Tag<106, true, vs2::e_rstr<Tr>>, Tag<107, true, vs2::e_rleaf<Tr>>, Tag<108, false, vs2::e_def>, Tag<109, false, vs2::e_bytes<Tr>>, Tag<110, false, vs2::e_sint>, Tag<111, false, vs2::e_bool>,
    Tag<112, false, vs2::e_dbl>, Tag<113, true, vs2::e_rdense<Tr>>, Tag<114, false, vs2::e_fix>, Tag<115, true, vs2::e_pfix<Tr>>, Tag<116, false, vs2::e_sdef<Tr>>, Tag<117, true, vs2::e_pcolor<Tr>>,
    Tag<1000000, false, vs2::e_big>, Tag<118, false, vs2::egrp<Tr>>, Tag<119, true, vs2::ergrp<Tr>>, Tag<120, false, vs2::e_dense>, Tag<121, false, vs2::e_flt>, Tag<122, true, vs2::e_pbool<Tr>>,
    Tag<123, true, vs2::e_rbytes<Tr>>, Tag<124, false, vs2::e_tree<Tr>>, Tag<150, false, typename vs2::ExtScope<Tr>::scoped>, Tag<151, true, typename vs2::ExtScope<Tr>::scoped_r>>;

} // namespace

PBT_PROP(extensions, "an extension that is present is read, or one that is present is replaced") {
  switch (c.draw(3)) {
  case 0: c.label("default"); { History<vs2::Ext<default_traits>, Exts<default_traits>, true, false> h(c); h.run(); } break;
  case 1: c.label("stable+keep"); { History<vs2::Ext<inst::keep_stable>, Exts<inst::keep_stable>, true, true> h(c); h.run(); } break;
  case 2: c.label("pmr"); { History<vs2::Ext<inst::keep_pmr>, Exts<inst::keep_pmr>, true, true> h(c); h.run(); } break;
  default: c.label("nonowning"); { History<vs2::Ext<inst::keep_nonowning>, Exts<inst::keep_nonowning>, false, true> h(c); h.run(); }
  }
}
