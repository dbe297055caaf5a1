"""Descriptor set -> (a) text schema tables for core/refmodel.hpp, (b) C++ adapter between generated
structs and reference values.  Feature resolution (presence, packing, closed enums, delimited
encoding) is taken from the upb runtime, utf8 validation from the documented edition defaults."""
import struct
from google.protobuf import descriptor_pb2, descriptor_pool

FD = descriptor_pb2.FieldDescriptorProto
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const
const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for
friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected
public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template
this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor
xor_eq char8_t char16_t char32_t concept consteval constexpr constinit co_await co_return co_yield requires""".split())


class Schema:
    def __init__(self, fds_bytes, files=None, scopes=None):
        """scopes: values of the proto2_explicit_presence option of the plugin, if it is given"""
        self.scopes = scopes
        self.open_enums = []
        self.fds = descriptor_pb2.FileDescriptorSet.FromString(fds_bytes)
        self.pool = descriptor_pool.DescriptorPool()
        for f in self.fds.file:
            self.pool.Add(f)
        self.enums, self.msgs = [], []  # descriptors in table order
        self.eidx, self.midx = {}, {}
        self.files = [f for f in self.fds.file if files is None or f.name in files]
        self.protos = {}
        for f in self.files:
            fd = self.pool.FindFileByName(f.name)
            for e in fd.enum_types_by_name.values():
                self._enum(e)
            pkg = f.package
            for m in f.message_type:
                self._msg(self.pool.FindMessageTypeByName((pkg + '.' if pkg else '') + m.name), m)
        self.exts = {}
        for f in self.files:
            self._exts(f.package, f.extension)
            for m in f.message_type:
                self._nested_exts(f.package, m)

    def _enum(self, e):
        self.eidx[e.full_name] = len(self.enums)
        self.enums.append(e)

    def _msg(self, d, proto):
        self.midx[d.full_name] = len(self.msgs)
        self.msgs.append(d)
        self.protos[d.full_name] = proto
        for e in d.enum_types:
            self._enum(e)
        for n in proto.nested_type:
            self._msg(d.nested_types_by_name[n.name], n)

    def _exts(self, prefix, exts):
        for x in exts:
            d = self.pool.FindExtensionByName((prefix + '.' if prefix else '') + x.name)
            self.exts.setdefault(d.containing_type.full_name, []).append(d)

    def _nested_exts(self, prefix, m):
        p = (prefix + '.' if prefix else '') + m.name
        self._exts(p, m.extension)
        for n in m.nested_type:
            self._nested_exts(p, n)

    # -- features
    def utf8(self, f):
        # the runtime's options omit the features, so the raw descriptors are consulted
        fp = next(x for x in self.fds.file if x.name == f.file.name)
        chain = [fp]
        if f.is_extension:
            scope = self.protos[f.extension_scope.full_name] if f.extension_scope else None
            chain.append(next(x for x in (scope or fp).extension if x.name == f.name))
            c = f.extension_scope
        else:
            chain.append(next(x for x in self.protos[f.containing_type.full_name].field if x.name == f.name))
            c = f.containing_type
        msgs = []
        while c is not None:
            msgs.append(self.protos[c.full_name])
            c = c.containing_type
        chain[1:1] = msgs[::-1]
        for d in reversed(chain):
            if d.HasField('options') and d.options.HasField('features') and d.options.features.HasField('utf8_validation'):
                return d.options.features.utf8_validation == descriptor_pb2.FeatureSet.VERIFY
        return fp.syntax not in ('', 'proto2')

    def is_map(self, f):
        return f.type == FD.TYPE_MESSAGE and f.message_type.GetOptions().map_entry and f.is_repeated

    def card(self, f):
        return 3 if self.is_map(f) else 2 if f.is_repeated else 1

    def flat(self, f):
        """proto2 optional scalars outside of the explicit presence scopes are implicitly present"""
        if not self.scopes or f.is_extension or f.is_required or f.is_repeated or f.message_type is not None or self.real_oneof(f) >= 0:
            return False
        p = next(x for x in self.fds.file if x.name == f.file.name)
        if p.syntax not in ('', 'proto2'):
            return False
        n = '.' + f.full_name
        return not any(s == '.' or n == s or n.startswith(s + '.') for s in self.scopes)

    def presence(self, f):
        if f.is_required:
            return 2
        if self.flat(f):
            return 0
        return 1 if f.has_presence else 0

    def default(self, f):
        if self.flat(f) and f.type == FD.TYPE_ENUM and not f.has_default_value:  # a scalar which holds the first value
            return 'x' + str(f.enum_type.values[0].number & (2**64 - 1)).encode().hex()
        if not f.has_default_value or f.is_repeated:
            return '-'
        v = f.default_value
        if f.type == FD.TYPE_STRING:
            return 'x' + v.encode('utf-8', 'surrogateescape').hex()
        if f.type == FD.TYPE_BYTES:
            return 'x' + v.hex()
        if f.type == FD.TYPE_DOUBLE:
            n = struct.unpack('<Q', struct.pack('<d', v))[0]
        elif f.type == FD.TYPE_FLOAT:
            n = struct.unpack('<I', struct.pack('<f', v))[0]
        else:
            n = int(v) & (2**64 - 1)
        return 'x' + str(n).encode().hex()

    def real_oneof(self, f):
        o = f.containing_oneof
        if o is None or f.is_extension:
            return -1
        # synthetic oneofs are not oneofs
        if len(o.fields) == 1 and o.name == '_' + f.name or o.name.startswith('_') and len(o.fields) == 1 and self._p3opt(f):
            return -1
        return o.index

    def _p3opt(self, f):
        p = self.protos[f.containing_type.full_name]
        return next(x for x in p.field if x.name == f.name).proto3_optional

    def enum_closed(self, e):
        return e.is_closed

    def sub(self, f):
        if f.type == FD.TYPE_ENUM:
            if self.flat(f) and f.enum_type.is_closed:  # its numbers are treated as open
                if f.enum_type not in self.open_enums:
                    self.open_enums.append(f.enum_type)
                return len(self.enums) + self.open_enums.index(f.enum_type)
            return self.eidx[f.enum_type.full_name]
        if f.message_type is not None:
            return self.midx[f.message_type.full_name]
        return -1

    def field_line(self, k, mi, f):
        packed = 1 if (f.is_repeated and f.is_packed) else 0
        return f"{k} {mi} {f.number} {f.full_name if k == 'X' else f.name} {f.type} {self.card(f)} {self.presence(f)} {packed} {1 if f.type == FD.TYPE_STRING and self.utf8(f) else 0} {self.real_oneof(f)} {self.sub(f)} {self.default(f)}"

    def fields(self, d):
        """fields in declaration order"""
        p = self.protos[d.full_name]
        by = {f.name: f for f in d.fields}
        return [by[x.name] for x in p.field]

    def table(self):
        out = []
        for d in self.msgs:
            for f in self.fields(d):
                self.sub(f)
        for i, e in enumerate(self.enums + self.open_enums):
            out.append(f"E {e.full_name} {1 if e.is_closed and i < len(self.enums) else 0} {len(e.values)} " + ' '.join(str(v.number) for v in e.values))
        for d in self.msgs:
            r = d.extension_ranges
            out.append(f"M {d.full_name} {1 if d.GetOptions().map_entry else 0} {len(r)} " + ' '.join(f"{a} {b}" for a, b in r))
        for i, d in enumerate(self.msgs):
            for f in self.fields(d):
                out.append(self.field_line('F', i, f))
            for f in self.exts.get(d.full_name, []):
                out.append(self.field_line('X', i, f))
        return '\n'.join(out) + '\n'

    # -- C++ adapter
    @staticmethod
    def ident(n):
        return n + '_' if n in KEYWORDS else n

    def cpp_msg(self, d, traits, ns_prefix=''):
        parts = [self.ident(d.name)]
        c = d.containing_type
        while c is not None:
            parts.append(self.ident(c.name) + ('nested' if self.ident(c.name).endswith('_') else '_'))
            c = c.containing_type
        pkg = [self.ident(x) for x in d.file.package.split('.') if x]
        return '::' + '::'.join(([ns_prefix] if ns_prefix else []) + pkg + parts[::-1]) + f'<{traits}>'

    def adapter(self, ns_prefix='', skip=()):
        out = ['#pragma once', '#include "adapter.hpp"']
        order = []
        for d in self.msgs:
            if d.GetOptions().map_entry or d.full_name in skip:
                continue
            order.append(d)
        for d in order:
            t = self.cpp_msg(d, 'Tr', ns_prefix)
            out.append(f'template <class Tr> struct ad::Ad<{t}> {{')
            out.append(f'  using M = {t}; static constexpr int D = {self.midx[d.full_name]}; static constexpr const char* name = "{d.full_name}";')
            to, fr = [], []
            fields = self.fields(d)
            seen = set()
            for i, f in enumerate(fields):
                oi = self.real_oneof(f)
                n = self.ident(f.name)
                if oi >= 0:
                    o = f.containing_oneof
                    if len(o.fields) == 1:
                        to.append(f'ad::sing(m.{n}, r, {i});')
                        fr.append(f'ad::set(m.{n}, r, {i}, a);')
                    else:
                        members = [k for k, g in enumerate(fields) if self.real_oneof(g) == oi]
                        pos = members.index(i) + 1
                        on = self.ident(o.name)
                        to.append(f'ad::one<{pos}>(m.{on}, r, {i});')
                        fr.append(f'ad::set_one<{pos}>(m.{on}, r, {i}, a);')
                elif self.card(f) == 3:
                    to.append(f'ad::map(m.{n}, r, {i});')
                    fr.append(f'ad::set_map(m.{n}, r, {i}, a);')
                elif self.card(f) == 2:
                    to.append(f'ad::rep(m.{n}, r, {i});')
                    fr.append(f'ad::set_rep(m.{n}, r, {i}, a);')
                else:
                    to.append(f'ad::sing(m.{n}, r, {i});')
                    fr.append(f'ad::set(m.{n}, r, {i}, a);')
            out.append('  static void to(const M& m, ref::Msg& r) { (void)m; (void)r; ' + ' '.join(to) + ' ad::unk(m, r); }')
            out.append('  static void from(const ref::Msg& r, M& m, ad::Arena& a) { (void)m; (void)r; (void)a; ' + ' '.join(fr) + ' ad::set_unk(m, r, a); }')
            out.append('};')
        return '\n'.join(out) + '\n'


if __name__ == '__main__':
    import sys
    s = Schema(open(sys.argv[1], 'rb').read(), sys.argv[3:] or None)
    base = sys.argv[2]
    open(base + '.tbl', 'w').write(s.table())
    open(base + '.tbl.hpp', 'w').write('inline const char* const kSchemaTable = R"TBL(' + s.table() + ')TBL";\n')
    open(base + '.ad.hpp', 'w').write(s.adapter())
