"""g01_tables.py DIR TRAITS : reference table, adapter and instantiations for DIR/s.pb"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import schema
d, traits = sys.argv[1], sys.argv[2].split(',')
opts = [o.split('=', 1) for o in (sys.argv[3] if len(sys.argv) > 3 else '').split(',') if '=' in o]
ns = '::'.join(v for k, v in opts if k == 'namespace_prefix').replace('.', '::')
pre = ''.join(v + '/' for k, v in opts if k == 'directory_prefix')
s = schema.Schema(open(d + '/s.pb', 'rb').read(), scopes=[v for k, v in opts if k == 'proto2_explicit_presence'])
open(d + '/ks.tbl', 'w').write(s.table())
open(d + '/ks.ad.hpp', 'w').write(s.adapter(ns))
files = [f.name for f in s.fds.file]
open(d + '/files', 'w').write('\n'.join(files))
t = ''.join(f'#include "{pre}{f[:-6]}.pb.hpp"\n#include "{pre}{f[:-6]}.desc.hpp"\n' for f in files) + '#include "ks.ad.hpp"\n#include "inst.hpp"\n'
k = 0
for m in s.msgs:
    if m.GetOptions().map_entry:
        continue
    t += f'INST(m{k}, {s.cpp_msg(m, "", ns).split("<")[0]}, inst::{traits[k % len(traits)]})\n'
    k += 1
# the extensions of a message, in every scope
FD = schema.FD
hist = []
for m in s.msgs:
    xs = s.exts.get(m.full_name, [])
    if not xs:
        continue
    tags = []
    for x in xs:
        n = s.ident(x.name)
        if x.extension_scope is not None:
            ty = 'typename ' + s.cpp_msg(x.extension_scope, 'Tr', ns) + '::' + n
        else:
            ty = '::' + '::'.join(([ns] if ns else []) + [s.ident(p) for p in x.file.package.split('.') if p] + [n])
            if x.is_repeated or x.type in (FD.TYPE_MESSAGE, FD.TYPE_GROUP, FD.TYPE_STRING, FD.TYPE_BYTES):
                ty += '<Tr>'
        tags.append(f'ext_history::Tag<{x.number}, {"true" if x.is_repeated else "false"}, {ty}>')
    hist.append((s.cpp_msg(m, 'Tr', ns), tags))
if hist:
    tr = traits[0]
    t += f'#include "ext_history.hpp"\nusing Tr = inst::{tr};\n'
    owning, keep = 'non' not in tr, 'keep' in tr
    t += 'PBT_PROP(extensions, "an extension that is present is read, or one that is present is replaced") {\n  switch (c.draw(' + str(len(hist) - 1) + ')) {\n'
    for i, (m, tags) in enumerate(hist):
        t += f'  case {i}: {{ ext_history::History<{m}, std::tuple<{", ".join(tags)}>, {str(owning).lower()}, {str(keep).lower()}> h(c); h.run(); }} break;\n'
    t += '  }\n}\n'
    t = t.replace('typename ', '')
    open(d + '/has_ext', 'w').write('1')
open(d + '/u.cpp', 'w').write(t)
