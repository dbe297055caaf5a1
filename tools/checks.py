"""The registry: which binaries, properties functions and case counts decide each property."""
import build, g01, g02
A = build.ALL_MSGS


def units(*groups, msgs=A):
    """one translation unit per (message, group of traits)"""
    return [[(m, list(g))] for g in groups for m in msgs]


TARGETS = {
    'p01': dict(flags='-DOPS_R -DOPS_W', units=units(['default', 'kno'], ['stable', 'kpmr'])),
    'p02': dict(flags='-DOPS_W', units=units(['kdef', 'nonown', 'pmr'])),
    'p03': dict(flags='-DOPS_R', units=units(['default', 'kno', 'kstable'])),
    'p04': dict(flags='-DOPS_R', kind='', units=units(['default', 'kno'])),
    'p05': dict(flags='-DOPS_R -DOPS_CHUNK', kind='', units=units(['default'], ['kno'])),
    'p06': dict(flags='-DOPS_W -DOPS_SINK', kind='', units=units(['kdef'], ['nonown'])),
    'p07': dict(flags='-DOPS_R -DOPS_W', units=units(['kdef', 'kno'], ['kpmr'])),
    # with non-owning traits merge() does not compile for messages with repeated or recursive message fields
    'p09': dict(flags='-DOPS_R -DOPS_MERGE', units=units(['default', 'kdef', 'kstable']) + units(['kno'], msgs=[m for m in A if m.split('::')[1] not in ('Rep', 'Tree', 'Mutual', 'Blob', 'Mix', 'ExtHold')])),
    'p10': dict(flags='-DOPS_R -DOPS_W -DOPS_CHUNK', units=units(['default', 'nonown'], msgs=[m for m in A if m.split('::')[1] not in ('Empty2', 'Tree', 'Mutual')])),
    'p11': dict(flags='-DOPS_LIM', units=units(['default'], ['kno'], msgs=['vs2::Tree', 'vs2::Mutual', 'vs2::Maps', 'vs2::Blob', 'vs2::ExtHold', 'vs2::Rep', 'vs3::Tree', 've23::Mix'])),
    'p13': dict(flags='-DOPS_ANY', units=units(['default', 'kno'], msgs=['vs2::Leaf', 'vs2::Opt', 'vs2::Rep', 'vs2::Empty2', 'vs2::Ext', 'vs3::Imp', 'vs3::Maps', 've23::Mix'])),
    'p14': dict(flags='-DOPS_W -DOPS_ALLOC', kind='', srcs=['newtrack'], units=units(['default', 'kno'], msgs=[m for m in A if m.split('::')[1] not in ('Empty2', 'Mutual')]) + units(['kpmr', 'kstable'], msgs=['vs2::Opt', 'vs2::Rep', 'vs2::Maps', 'vs2::Tree', 'vs2::ExtHold', 've23::Mix'])),
    'r01': dict(flags='-DOPS_GRPC', kind='', units=units(['default', 'kno'], msgs=['vs2::Rep', 'vs2::Ext', 'vs2::Blob', 'vs3::Imp', 'vs3::Oneof', 'vs3::Maps', 've23::Mix']), libs='-lgrpc++ -lgrpc -lgpr'),
}


def step(bin, prop, n, **kw):
    return dict(bin=bin, prop=prop, n=n, **kw)


# harnesses that need no generated code: binary -> sources
UNITS = {
    'ext': ['unit_ext'],
    'varint': ['unit_varint'],
    'flatmap': ['unit_flatmap'],
    'indirect': ['unit_indirect'],
    'fields': ['unit_fields'],
    'dyn_codec': ['dyn_codec', 'factory'],
    'dyn_ops': ['dyn_ops', 'factory'],
    'dyn_factory': ['dyn_factory', 'factory'],
    'rpc': ['rpc'],
    'json': ['unit_json'],
}
LIBS = {'rpc': '-lgrpc++ -lgrpc -lgpr -labsl_synchronization'}
SOURCES = {'factory': f'{build.REPO}/src/dynamic_message/factory.cpp'}
FLAGS = {'unit_json': f' -I{build.VERIF}/harness/json_shim'}


def extra(n, gens):
    n.build(f'{build.B}/codec_dyn_nosan.o', 'cxx', [f'{build.VERIF}/harness/codec_props.cpp'], flags='-O1 -DKS_RUNTIME_TABLE')
    n.build(f'{build.B}/sgen_dump.o', 'cxx', [f'{build.VERIF}/harness/sgen_dump.cpp'], flags='-O0')
    n.build(f'{build.B}/bin/sgen_dump', 'link', [f'{build.B}/sgen_dump.o'], flags='')
    for name, srcs in UNITS.items():
        for kind in ('', '_fz'):
            objs = []
            for s in srcs:
                o = f'{build.B}/obj/unit{kind}/{s}.o'
                if o not in n.targets:
                    n.targets[o] = 1
                    n.build(o, 'cxx', [SOURCES.get(s, f'{build.VERIF}/harness/{s}.cpp')], flags=f'-O0 -I{build.VERIF}/harness/inc' + FLAGS.get(s, '') + ' ' + build.KINDS[kind], order=gens)
                objs.append(o)
            n.build(f'{build.B}/bin/{name}{kind}', 'link', objs + [n.common_obj('pbt_main', f'{build.VERIF}/core/pbt_main.cpp', kind)], flags=build.KINDS[kind].replace('fuzzer-no-link', 'fuzzer'), libs=LIBS.get(name, ''))


def generate():
    build.generate(TARGETS, extra)


TECH = 'property-based testing: generated inputs against '
CHECKS = {
    'P01': dict(bins=['p01'], steps=[step('p01', 'roundtrip', 60000)], fuzz=[('p01', 'roundtrip')]),
    'P02': dict(bins=['p02'], steps=[step('p02', 'encode', 200000)], fuzz=[('p02', 'encode')]),
    'P03': dict(bins=['p03'], steps=[step('p03', 'decode', 600000)], fuzz=[('p03', 'decode')]),
    'P04': dict(bins=['p04'], steps=[step('p04', 'malformed', 800000)], fuzz=[('p04', 'malformed')]),
    'P05': dict(bins=['p05'], steps=[step('p05', 'chunked', 200000), step('p05', 'padded', 200000)], fuzz=[('p05', 'chunked'), ('p05', 'padded')]),
    'P06': dict(bins=['p06'], steps=[step('p06', 'output_modes', 40000)], fuzz=[('p06', 'output_modes')]),
    'P07': dict(bins=['p07'], steps=[step('p07', 'rewrite', 500000)], fuzz=[('p07', 'rewrite')]),
    'P08': dict(bins=['ext'], steps=[step('ext', 'extensions', 100000)], fuzz=[('ext', 'extensions')]),
    'P09': dict(bins=['p09'], steps=[step('p09', 'merge', 300000)], fuzz=[('p09', 'merge')]),
    'P10': dict(bins=['p10'], steps=[step('p10', 'utf8', 600000)], fuzz=[('p10', 'utf8')]),
    'P11': dict(bins=['p11', 'dyn_codec'], steps=[step('p11', 'depth_read', 150000), step('p11', 'depth_write', 60000), step('dyn_codec', 'dyn_depth', 8000)], fuzz=[('p11', 'depth_read')]),
    'P13': dict(bins=['p13'], steps=[step('p13', 'any_pack', 100000), step('p13', 'any_unpack', 200000)], fuzz=[('p13', 'any_unpack')]),
    'P14': dict(bins=['p14'], steps=[step('p14', 'alloc_read', 80000), step('p14', 'alloc_write', 15000), step('p14', 'alloc_modify', 60000)], fuzz=[('p14', 'alloc_read')]),
    'R01': dict(bins=['r01'], steps=[step('r01', 'grpc_read', 100000), step('r01', 'grpc_write', 40000)], fuzz=[('r01', 'grpc_read')]),
    'R02': dict(bins=['rpc'], steps=[step('rpc', 'rpc', 12000, args=('--retries', '60'), timeout=60)]),
    'V01': dict(bins=['varint'], steps=[step('varint', 'varint_pack', 3000000), step('varint', 'varint_parse', 3000000)], fuzz=[('varint', 'varint_parse')]),
    'F01': dict(bins=['flatmap'], steps=[step('flatmap', 'flat_map', 40000)], fuzz=[('flatmap', 'flat_map')]),
    'F02': dict(bins=['indirect'], steps=[step('indirect', 'indirect', 250000), step('indirect', 'indirect_view', 50000)], fuzz=[('indirect', 'indirect')]),
    'F03': dict(bins=['fields'], steps=[step('fields', 'arena_vector', 300000)], fuzz=[('fields', 'arena_vector')]),
    'F04': dict(bins=['fields'], steps=[step('fields', 'optional_field', 700000), step('fields', 'span_literal', 300000)], fuzz=[('fields', 'optional_field')]),
    'G01': dict(targets=['protoc-gen-hpp', 'bin/sgen_dump', 'codec_dyn_nosan.o', 'pbt_main_nosan.o'], run=lambda c: g01.run(c)),
    'G02': dict(targets=['protoc-gen-hpp', 'bin/sgen_dump'], run=lambda c: g02.run(c)),
    'J01': dict(bins=['json'], steps=[step('json', 'base64', 300000)], fuzz=[('json', 'base64')]),
    'J02': dict(bins=['json'], steps=[step('json', 'timestamp', 300000), step('json', 'duration', 300000), step('json', 'field_mask', 150000)], fuzz=[('json', 'timestamp'), ('json', 'duration')]),
    'D01': dict(bins=['dyn_codec'], steps=[step('dyn_codec', 'dyn_codec', 60000)], fuzz=[('dyn_codec', 'dyn_codec')]),
    'D02': dict(bins=['dyn_ops'], steps=[step('dyn_ops', 'dyn_ops', 9000)], fuzz=[('dyn_ops', 'dyn_ops')]),
    'D03': dict(bins=['dyn_factory'], steps=[step('dyn_factory', 'dyn_factory', 25000)], fuzz=[('dyn_factory', 'dyn_factory')]),
    'D04': dict(bins=['dyn_factory'], steps=[step('dyn_factory', 'dyn_factory_bad', 50000), step('dyn_factory', 'dyn_factory_fuzz', 40000)], fuzz=[('dyn_factory', 'dyn_factory_fuzz')]),
}
