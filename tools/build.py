"""Builds the harnesses from /repo's working tree (ninja; everything below /verif/build)."""
import os, subprocess, sys, shutil, fcntl, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
os.makedirs(B + '/gen', exist_ok=True)
CXX = '/usr/bin/clang++-20'
PROTOC = '/opt/vp/protoc/bin/protoc'
PROTOC_INC = '/opt/vp/protoc/include'
PY = '/opt/vp/protoc-venv/bin/python'
SAN = '-fsanitize=address,signed-integer-overflow,shift,bool,enum,bounds,return,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer'
WKT = ['any', 'duration', 'empty', 'field_mask', 'source_context', 'struct', 'timestamp', 'type', 'api', 'wrappers']
SCHEMAS = ['vs2', 'vs3', 've23']
MORE = ['rpc']  # generated code only, no reference schema

T = {'default': 'default_traits', 'stable': 'stable_traits', 'pmr': 'pmr_stable_traits', 'nonown': 'non_owning_traits',
     'kdef': 'keep_default', 'kstable': 'keep_stable', 'kpmr': 'keep_pmr', 'kno': 'keep_nonowning'}
ALL_MSGS = ['vs2::Leaf', 'vs2::Opt', 'vs2::Req', 'vs2::Rep', 'vs2::Oneof', 'vs2::Maps', 'vs2::Tree', 'vs2::Mutual', 'vs2::Ext', 'vs2::ExtHold',
            'vs2::Empty2', 'vs2::Blob', 'vs3::Imp', 'vs3::Rep', 'vs3::Oneof', 'vs3::Maps', 'vs3::Tree', 've23::Mix']


KINDS = {'': SAN, '_nosan': '', '_fz': SAN + ' -DPBT_FUZZER -fsanitize=fuzzer-no-link'}


class Ninja:
    def __init__(self):
        self.out = []
        self.targets = {}

    def rule(self, name, cmd, **kw):
        self.out.append(f'rule {name}\n  command = {cmd}')
        for k, v in kw.items():
            self.out.append(f'  {k} = {v}')

    def build(self, outs, rule, ins, implicit=(), order=(), **kw):
        outs = outs if isinstance(outs, str) else ' '.join(outs)
        line = f'build {outs}: {rule} {" ".join(ins)}'
        if implicit:
            line += ' | ' + ' '.join(implicit)
        if order:
            line += ' || ' + ' '.join(order)
        self.out.append(line)
        for k, v in kw.items():
            self.out.append(f'  {k} = {v}')


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def generate(codec_targets, extra=None):
    """codec_targets: name -> dict(flags, entries=[(msg,[traits])], san=bool)"""
    n = Ninja()
    n.out.append(f'builddir = {B}')
    inc = f'-I{B}/gen -I{VERIF}/core -I{VERIF}/harness -I{REPO}/include'
    n.rule('cxx', f'{CXX} -std=c++23 -w -MD -MF $out.d $flags {inc} -c $in -o $out', depfile='$out.d', deps='gcc', description='CXX $out')
    n.rule('link', f'{CXX} $flags $in -o $out $libs', description='LINK $out')
    n.rule('stamp', 'touch $out')
    pf = '-O0 -DHPP_PROTO_NO_UTF8_VALIDATION=1'
    objs = []
    for s in ['cpp_lexical_emitter', 'hpp_generator', 'protoc-gen-hpp']:
        o = f'{B}/plugin/{s}.o'
        n.build(o, 'cxx', [f'{REPO}/src/protoc-plugin/{s}.cpp'], flags=f'{pf} -I{REPO}/src/protoc-plugin')
        objs.append(o)
    n.build(f'{B}/protoc-gen-hpp', 'link', objs, flags='')
    n.rule('protogen', f'{PROTOC} -I{VERIF}/schemas -I{PROTOC_INC} --plugin=protoc-gen-hpp={B}/protoc-gen-hpp --hpp_out={B}/gen $protos && touch $out', description='PROTOC')
    protos = [s + '.proto' for s in SCHEMAS + MORE] + [f'google/protobuf/{w}.proto' for w in WKT]
    n.build(f'{B}/gen.stamp', 'protogen', [], implicit=[f'{B}/protoc-gen-hpp'] + [f'{VERIF}/schemas/{s}.proto' for s in SCHEMAS + MORE], protos=' '.join(protos))
    n.rule('tables', f'{PROTOC} -I{VERIF}/schemas -I{PROTOC_INC} --include_imports -o {B}/ks.pb $protos && {PY} {VERIF}/tools/schema.py {B}/ks.pb {B}/gen/ks $protos && touch $out', description='TABLES')
    n.build(f'{B}/tables.stamp', 'tables', [], implicit=[f'{VERIF}/schemas/{s}.proto' for s in SCHEMAS] + [f'{VERIF}/tools/schema.py'], protos=' '.join(s + '.proto' for s in SCHEMAS))
    gens = [f'{B}/gen.stamp', f'{B}/tables.stamp']
    def common_obj(name, src, kind):
        """kind: '' (ASan), '_nosan' or '_fz' (libFuzzer)"""
        o = f'{B}/{name}{kind}.o'
        if o not in n.targets:
            n.targets[o] = 1
            n.build(o, 'cxx', [src], flags='-O1 ' + KINDS[kind], order=gens)
        return o

    n.common_obj = common_obj
    for name, t in codec_targets.items():
        for kind in (t.get('kind', '_nosan'), '_fz'):
            tn = name + ('_fz' if kind == '_fz' else '')
            fl = KINDS[kind] + (' -O1' if kind == '_fz' else ' -O0')
            os_ = []
            for i, unit in enumerate(t['units']):
                src = f'{B}/src/{name}/u{i}.cpp'
                text = ''.join(f'#include "{p}.pb.hpp"\n' for p in SCHEMAS) + '#include "ks.ad.hpp"\n#include "inst.hpp"\n'
                for m, trs in unit:
                    for tr in trs:
                        text += f'INST({m.replace("::", "_")}_{tr}, {m}, inst::{T[tr]})\n'
                write_if_changed(src, text)
                o = f'{B}/obj/{tn}/u{i}.o'
                n.build(o, 'cxx', [src], order=gens, flags=fl + ' ' + t['flags'])
                os_.append(o)
            n.build(f'{B}/bin/{tn}', 'link', os_ + [common_obj(x, f'{VERIF}/harness/{x}.cpp', kind) for x in t.get('srcs', [])] + [common_obj('codec_props', f'{VERIF}/harness/codec_props.cpp', kind), common_obj('pbt_main', f'{VERIF}/core/pbt_main.cpp', kind)],
                    flags=KINDS[kind].replace('fuzzer-no-link', 'fuzzer'), libs=t.get('libs', ''))
    if extra:
        extra(n, gens)
    write_if_changed(f'{B}/build.ninja', '\n'.join(n.out) + '\n')


def ninja(targets, jobs=8):
    os.makedirs(B, exist_ok=True)
    with open(f'{B}/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['ninja', '-C', B, '-j', str(jobs)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
