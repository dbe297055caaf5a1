"""g02_case.py DIR SEED | g02_case.py DIR --replay FILE
One random set of virtual proto files through the plugin: descriptor and service headers, options, refusals.
Prints one JSON object: {"result": "", "refused" or the failing stage, ...}."""
import sys, os, random, subprocess, json, re, shutil, base64, copy, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, schema
from google.protobuf import descriptor_pb2 as D
from google.protobuf.unknown_fields import UnknownFieldSet
from google.protobuf.compiler import plugin_pb2 as PL

KW = schema.KEYWORDS
WORDS = ['a', 'b', 'foo', 'bar', 'x1', 'value', 'std', 'hpp_proto', 'file_descriptors', 'file_descriptor_', 'file_descriptor_set', 'proto', 'string_view', 'array', 'literals', 'A', 'Foo', '_x', 'x_', 'main', 'google', 'protobuf']
ODD = ['-', '.', ' ', '{', '}', '%', '+', '~', '@', ',', ';', "'", '$', '(', '#', '=']


def sh(cmd, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, b'', b'timeout')


# ---- generation ----

def component(r):
    k = r.random()
    if k < 0.5:
        return r.choice(WORDS)
    if k < 0.62:
        return r.choice(sorted(KW)) + r.choice(['', '', '_'])
    if k < 0.7:
        return r.choice('0123456789') + r.choice(['', 'a', '_b'])
    if k < 0.985:
        w = r.choice(WORDS).strip('_')
        i = r.randrange(len(w) + 1)
        o = r.choice(ODD)
        if w[i - 1:i] == '_' or w[i:i + 1] == '_':
            o = 'q'
        return w[:i] + o + w[i:]
    return r.choice(['a__b', '_Up', 'a-_b', '-X', 'a--b', '\u00e9', 'a"b', '%_', '_', '1__'])


def path(r, used):
    for _ in range(50):
        dirs = [component(r) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        base = component(r)
        base = base.rstrip('_') or 'b' if r.random() < 0.95 else base
        if used and r.random() < 0.35:  # close to a path in use
            o = r.choice(sorted(used))
            k = r.random()
            odir, _, ob = o.rpartition('/')
            stem = ob[:-6]
            if k < 0.3:
                dirs, base = odir.split('/') if odir else [], stem.replace('_', '-', 1) if r.random() < 0.5 else stem.replace('-', '_')
            elif k < 0.6:
                dirs = (odir.split('/') if odir else []) + [re.sub(r'[^A-Za-z0-9_]', '_', stem) + '_proto'] + ([r.choice(['file_descriptor_', 'file_descriptor_set'])] if r.random() < 0.5 else [])
            elif odir:
                dirs = odir.split('/')
                if r.random() < 0.5:
                    j = r.randrange(len(dirs))
                    dirs[j] = dirs[j] + '_' if dirs[j] in KW or r.random() < 0.3 else dirs[j]
        p = '/'.join(dirs + [base + '.proto'])
        # paths which the file system of the check cannot hold apart are of no interest
        if p not in used and not any(p.startswith(u[:-6] + '.') or '//' in p for u in used):
            return p
    return f'u{len(used)}.proto'


def varint(n):
    b = b''
    while n > 127:
        b += bytes([n & 127 | 128])
        n >>= 7
    return b + bytes([n])


def ld(n, s):
    return varint(n << 3 | 2) + varint(len(s)) + s


def generate(seed, tmp):
    r = random.Random(seed)
    x = tmp + '/x.pb'
    p = sh([build.B + '/bin/sgen_dump', str(seed), x, f'files={r.choice([1, 2, 3, 4])}', 'msgs=3', 'fields=4'])
    assert p.returncode == 0, p.stderr
    fds = D.FileDescriptorSet.FromString(open(x, 'rb').read())
    used, names = set(), {}
    for f in fds.file:
        p = path(r, used)
        used.add(p)
        names[f.name] = p
    for f in fds.file:
        f.name = names[f.name]
        for i, d in enumerate(f.dependency):
            f.dependency[i] = names[d]
    files = list(fds.file)
    msgs = []  # (file index, full name, nested depth 0 only)
    for i, f in enumerate(files):
        for m in f.message_type:
            msgs.append((i, (f.package + '.' if f.package else '') + m.name))
    # files without messages
    for k in range(r.choice([0, 0, 1, 2])):
        f = D.FileDescriptorProto(name=path(r, used), syntax='proto3')
        used.add(f.name)
        if r.random() < 0.6:
            f.package = f'only{k}'
        kind = r.random()
        if kind < 0.5:
            e = f.enum_type.add(name=f'OnlyEnum{k}')
            e.value.add(name=f'ONLY{k}_ZERO', number=0)
        elif kind < 0.75 and files:
            f.dependency.append(r.choice(files).name)
        pos = r.randrange(len(files) + 1) if not f.dependency else len(files)
        msgs = [(i + (i >= pos), n) for i, n in msgs]
        files.insert(pos, f)
        for g in files[pos + 1:]:
            if r.random() < 0.5 and f.name not in g.dependency:
                g.dependency.append(f.name)
    for i, f in enumerate(files):  # more imports, also public and weak ones
        for g in files[:i]:
            if r.random() < 0.15 and g.name not in f.dependency:
                f.dependency.append(g.name)
        for j in range(len(f.dependency)):
            if r.random() < 0.15:
                f.public_dependency.append(j)
    # services: requests and responses from the file itself or a direct import
    k = 0
    for i, f in enumerate(files):
        cand = [n for j, n in msgs if j == i or files[j].name in f.dependency]
        while cand and r.random() < 0.4:
            s = f.service.add(name=f'Svc{k}')
            k += 1
            seen = set()
            for j in range(r.choice([0, 1, 1, 2, 4])):
                n = r.choice(sorted(KW)) if r.random() < 0.3 else r.choice(['Call', 'get', 'x', 'Stream_1', 'request', 'Traits_']) + str(j)
                if n in seen:
                    continue
                seen.add(n)
                m = s.method.add(name=n, input_type='.' + r.choice(cand), output_type='.' + r.choice(cand))
                if r.random() < 0.4:
                    m.client_streaming = True
                if r.random() < 0.4:
                    m.server_streaming = True
    # options the plugin has to carry along or to act on
    over = {}
    for f in files:
        if r.random() < 0.25:
            o = r.choice(['special', 'class', 'a_proto', 'foo_proto', '_y', 'X1', 'std', 'file_descriptor_', 'file_descriptor_set', 'not_eq', 'Z_'])
            if r.random() < 0.12:
                o = r.choice(['a__b', '_Bad', '1x', 'a.b', 'a-b', '', 'x::y'])
            over[f.name] = o
            f.options.MergeFromString(ld(8964, ld(3, o.encode())))
        if r.random() < 0.2:
            f.options.MergeFromString(ld(50001, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40])))))
        if r.random() < 0.2:
            f.options.java_package = ''.join(r.choice('ab"\\\n\t\0?%{}0179\u00e9/*') for _ in range(8))
        if r.random() < 0.3:
            l = f.source_code_info.location.add()
            l.span.extend([0, 0, 1])
            l.leading_comments = 'comment */ "x" \\'
        for m in f.message_type:
            for fl in m.field:
                if not fl.json_name:
                    fl.json_name = re.sub(r'_(.)', lambda q: q[1].upper(), fl.name)
    opts = []
    if r.random() < 0.3:
        opts.append('directory_prefix=' + r.choice(['p', 'a/b', 'x-y', 'a b']))
    if r.random() < 0.3:
        opts.append('namespace_prefix=' + r.choice(['pre', 'p1.p2', 'p3.q']))
    if r.random() < 0.15:
        opts.append('preserve_proto_field_names')
    if r.random() < 0.15:
        opts.append('proto2_explicit_presence=.' + r.choice(['', 'x', 'p.M']))
    return dict(files=[base64.b64encode(f.SerializeToString()).decode() for f in files], over=over, opts=','.join(opts), seed=seed)


# ---- what the documentation says ----

def ident(s):
    return s + '_' if s in KW else s


def reserved(s):
    return '__' in s or re.match(r'_[A-Z]', s)


def namespace(name, override):
    """list of namespace components, or None when the name has to be refused"""
    comps = name.split('/')
    out = []
    for i, c in enumerate(comps):
        if i == len(comps) - 1 and override is not None:
            if not re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', override):
                return None
            s = ident(override)
        else:
            if not c:
                return None
            s = ''.join(chr(b) if re.match(rb'[A-Za-z0-9_]', bytes([b])) else '_' for b in c.encode())
            if s[0].isdigit():
                s = '_' + s
            s = ident(s)
        if reserved(s):
            return None
        out.append(s)
    return out


def closure(files, name):
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += files[n].dependency
    return seen


def plain(m):
    """fields set to their default value cleared, where that means the same (the plugin does so)"""
    for f, v in m.ListFields():
        if f.type == f.TYPE_MESSAGE:
            for y in v if f.is_repeated else [v]:
                plain(y)
        elif not f.is_repeated and f.name not in ('oneof_index', 'packed') and v == f.default_value:
            m.ClearField(f.name)
    return m


class Bad(Exception):
    def __init__(self, stage, log):
        self.stage, self.log = stage, log


def plugin(files, wanted, opts):
    q = PL.CodeGeneratorRequest(parameter=opts, file_to_generate=wanted)
    q.proto_file.extend(files)
    p = sh([build.B + '/protoc-gen-hpp'], input=q.SerializeToString())
    if p.returncode:
        raise Bad('crash', f'exit {p.returncode}\n' + p.stderr.decode(errors='replace'))
    return PL.CodeGeneratorResponse.FromString(p.stdout)


def cstr(b):
    return '"' + ''.join(f'\\{c:03o}' for c in b) + '"'


def run(case, tmp):
    r = random.Random(case['seed'] + 1)
    files = [D.FileDescriptorProto.FromString(base64.b64decode(f)) for f in case['files']]
    by = {f.name: f for f in files}
    over = case['over']
    ns = {n: namespace(n, over.get(n)) for n in by}
    wanted = [f.name for f in files if r.random() < 0.8] or [files[-1].name]
    whole = sorted(set().union(*[closure(by, w) for w in wanted]))
    sent = [f for f in files if f.name in whole]  # protoc sends the closure only
    res = plugin(sent, wanted, case['opts'])
    # refusals
    why = [n for n in whole if ns[n] is None]
    must = [[n] for n in why]
    if not must:
        ent = {}
        spaces = {}
        clash = []
        for n in whole:
            for e in ('file_descriptor_', 'file_descriptor_set'):
                q = '::'.join(ns[n] + [e])
                clash += [[m, n] for m in ent.get(q, [])]
                ent.setdefault(q, []).append(n)
            for k in range(1, len(ns[n]) + 1):
                spaces.setdefault('::'.join(ns[n][:k]), []).append(n)
        for q, l in ent.items():
            clash += [[n, m] for n in l for m in spaces.get(q, [])]
        must = clash
    inc = set(wanted).union(*[by[w].dependency for w in wanted])
    unsafe = [n for n in inc if '"' in n]
    if must:
        if not res.error:
            raise Bad('not refused', f'expected a refusal because of one of {must}')
        if not any(all(n in res.error for n in c) for c in must) and not (unsafe and 'unsafe' in res.error):
            raise Bad('diagnostic', f'does not name the files of one of {must}:\n{res.error}')
        return 'refused: ' + ('name' if why else 'collision'), 0, len(by)
    if unsafe:
        if not res.error:
            raise Bad('not refused', f'unsafe file names: {unsafe}')
        return 'refused: unsafe', 0, len(by)
    if res.error:
        raise Bad('refused', res.error)
    # the set of files, and that what is generated for a file does not depend on what else is requested
    exp = set()
    for w in wanted:
        exts = ['msg.hpp', 'pb.hpp', 'glz.hpp', 'desc.hpp'] + (['service.hpp'] if by[w].service else [])
        exp |= {w[:-5] + e for e in exts}
    got = [f.name for f in res.file]
    if len(set(got)) != len(got) or set(got) != exp:
        raise Bad('file list', f'missing {sorted(exp - set(got))} unexpected {sorted(set(got) - exp)} duplicates {len(got) - len(set(got))}')
    content = {f.name: f.content for f in res.file}
    one = r.choice(wanted)
    for f in plugin([g for g in files if g.name in closure(by, one)], [one], case['opts']).file:
        if f.content != content[f.name]:
            raise Bad('depends on other files', f'{f.name} differs when {one} is generated alone')
    prefix = dict(o.split('=', 1) for o in case['opts'].split(',') if '=' in o).get('directory_prefix', '')
    root = tmp + '/gen'
    shutil.rmtree(root, ignore_errors=True)
    rest = [n for n in whole if n not in wanted]
    if rest:
        for f in plugin(sent, rest, case['opts']).file:
            content[f.name] = f.content
    for n, c in content.items():
        p = os.path.join(root, prefix, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(c)
    # one program that prints what the headers of some of the files offer
    def inc_line(n, ext):
        return '#include "' + (prefix + '/' if prefix else '') + n[:-5] + ext + '"\n'
    pick = [n for n in whole if r.random() < 0.8] or [whole[0]]
    r.shuffle(pick)
    svc = [n for n in pick if by[n].service and r.random() < 0.7]
    t = ''.join(inc_line(n, 'desc.hpp') for n in pick) + ''.join(inc_line(n, 'service.hpp') for n in svc)
    t += '#include <cstdio>\n#include <tuple>\nstatic void put(std::string_view v) { for (unsigned char c : v) std::printf("%02x", c); std::puts(""); }\n'
    ops = case['opts']
    body = ''
    for n in pick:
        q = '::hpp_proto::file_descriptors::' + '::'.join(ns[n])
        body += f'  {{ constexpr std::string_view v = {q}::file_descriptor_.value; static_assert(v.size() > 0); put(v); auto s = {q}::file_descriptor_set(); std::printf("%zu\\n", s.size()); for (auto &d : s) put(d.value); }}\n'
    nspre = dict(o.split('=', 1) for o in ops.split(',') if '=' in o).get('namespace_prefix', '')
    k = 0
    for n in svc:
        f = by[n]
        for s in f.service:
            sns = '::' + '::'.join([ident(c) for c in (nspre.split('.') if nspre else []) + (f.package.split('.') if f.package else [])] + [ident(s.name)])
            if not s.method:
                continue
            ms = []
            for j, m in enumerate(s.method):
                mt = f'{sns}::{ident(m.name)}'
                ms.append(mt)
                full = (f.package + '.' if f.package else '') + s.name
                body += (f'  static_assert(std::string_view({mt}::method_name) == std::string_view({cstr(("/" + full + "/" + m.name).encode())}));\n'
                         f'  static_assert({mt}::client_streaming == {str(m.client_streaming).lower()} && {mt}::server_streaming == {str(m.server_streaming).lower()} && {mt}::ordinal == {j} && {mt}::rpc_type == {m.server_streaming * 2 + m.client_streaming});\n')
                for a, ty in (('request_t', m.input_type), ('response_t', m.output_type)):
                    body += f'  static_assert(std::is_same_v<{mt}::{a}<::hpp_proto::stable_traits>, {cpp_name(sent, ty, nspre)}<::hpp_proto::stable_traits>>);\n'
            body += f'  static_assert(std::is_same_v<{sns}::_methods, std::tuple<{", ".join(ms)}>>);\n'
            k += 1
    open(tmp + '/u.cpp', 'w').write(t + 'int main() {\n' + body + '}\n')
    p = sh([build.CXX, '-std=c++23', '-w', '-O0', f'-I{root}', f'-I{build.REPO}/include', '-ferror-limit=5', tmp + '/u.cpp', '-o', tmp + '/u'])
    if p.returncode:
        raise Bad('compile', p.stderr.decode(errors='replace'))
    p = sh([tmp + '/u'])
    if p.returncode:
        raise Bad('program', f'exit {p.returncode}')
    out = p.stdout.decode().split('\n')

    def key(f):
        """(serialized form without extensions of the file options, those extensions by number)"""
        f = plain(f)
        ext = []
        if f.HasField('options'):
            ext = sorted(((u.field_number, u.wire_type, u.data) for u in UnknownFieldSet(f.options)), key=lambda u: u[0])
            f.options.DiscardUnknownFields()
            if not f.options.ListFields():
                f.ClearField('options')
        return f.SerializeToString(deterministic=True), ext

    def norm(b):
        return key(D.FileDescriptorProto.FromString(b))

    def expected(n):
        f = D.FileDescriptorProto()
        f.CopyFrom(by[n])
        f.ClearField('source_code_info')
        return key(f)
    at = 0
    total = 0
    for n in pick:
        v = norm(bytes.fromhex(out[at]))
        cnt = int(out[at + 1])
        sets = [norm(bytes.fromhex(l)) for l in out[at + 2:at + 2 + cnt]]
        at += 2 + cnt
        total += 1 + cnt
        if v != expected(n):
            raise Bad('descriptor', f'{n}: {v[1]} instead of {expected(n)[1]}\n' + '\n'.join(difflib.unified_diff(*(str(D.FileDescriptorProto.FromString(b[0])).split('\n') for b in (expected(n), v)), lineterm='')))
        want = sorted(expected(m) for m in closure(by, n))
        if sorted(sets) != want:
            raise Bad('descriptor set', f'{n}: holds {[D.FileDescriptorProto.FromString(s[0]).name for s in sets]} instead of {sorted(closure(by, n))}')
    return '', total + k, len(by)


def cpp_name(files, full, nspre):
    full = full[1:]
    for f in files:
        p = f.package + '.' if f.package else ''
        for m in f.message_type:
            if p + m.name == full:
                parts = [ident(c) for c in (nspre.split('.') if nspre else []) + (f.package.split('.') if f.package else [])]
                return '::' + '::'.join(parts + [ident(m.name)])
    raise AssertionError(full)


def attempt(case, tmp):
    try:
        res, n, k = run(case, tmp)
        return '', dict(result=res, checks=n, files=k)
    except Bad as e:
        return e.stage, dict(result='FAIL', stage=e.stage, log=e.log[:8000])


def shrink(case, stage, tmp, seconds):
    import time
    end = time.time() + seconds

    def cands(c):
        fs = [D.FileDescriptorProto.FromString(base64.b64decode(f)) for f in c['files']]

        def mk(l, **kw):
            return dict(c, files=[base64.b64encode(f.SerializeToString()).decode() for f in l], **kw)
        for i, f in enumerate(fs):
            if not any(f.name in g.dependency for g in fs) and len(fs) > 1:
                yield mk(fs[:i] + fs[i + 1:])
        if c['opts']:
            yield dict(c, opts='')
        for i in range(len(fs)):
            for what in ('service', 'extension', 'options', 'source_code_info', 'dependency'):
                l = copy.deepcopy(fs)
                if what == 'dependency':
                    for j in range(len(fs[i].dependency)):
                        l = copy.deepcopy(fs)
                        del l[i].dependency[j]
                        l[i].ClearField('public_dependency')
                        yield mk(l)
                elif what == 'options':
                    if fs[i].HasField('options') and fs[i].name not in c['over']:
                        l[i].ClearField('options')
                        yield mk(l)
                elif getattr(fs[i], what) and (what != 'source_code_info' or fs[i].HasField(what)):
                    l[i].ClearField(what)
                    yield mk(l)
            for j in range(len(fs[i].message_type)):
                l = copy.deepcopy(fs)
                del l[i].message_type[j]
                yield mk(l)
                for k in range(len(fs[i].message_type[j].field)):
                    l = copy.deepcopy(fs)
                    if not l[i].message_type[j].oneof_decl:
                        del l[i].message_type[j].field[k]
                        yield mk(l)
    moved = True
    while moved and time.time() < end:
        moved = False
        for c in cands(case):
            if time.time() > end:
                break
            # candidates have to stay valid: types resolve
            try:
                from google.protobuf import descriptor_pool
                pool = descriptor_pool.DescriptorPool()
                for f in c['files']:
                    pool.AddSerializedFile(base64.b64decode(f))
            except Exception:
                continue
            if attempt(c, tmp)[0] == stage:
                case, moved = c, True
                break
    return case


if __name__ == '__main__':
    tmp = sys.argv[1]
    os.makedirs(tmp, exist_ok=True)
    if sys.argv[2] == '--replay':
        case = json.loads(open(sys.argv[3]).read().split('\n', 1)[0])
        st, res = attempt(case, tmp)
        print(json.dumps(res, indent=1).replace('\\n', '\n'))
        sys.exit(1 if st else 0)
    case = generate(int(sys.argv[2]), tmp)
    text = '\n'.join(str(D.FileDescriptorProto.FromString(base64.b64decode(f))) for f in case['files'])
    st, res = attempt(case, tmp)
    if st and len(sys.argv) > 3:
        case = shrink(case, st, tmp, float(sys.argv[3]))
        st, res = attempt(case, tmp)
        text = '\n'.join(str(D.FileDescriptorProto.FromString(base64.b64decode(f))) for f in case['files'])
        res['case'] = case
    res['names'] = [D.FileDescriptorProto.FromString(base64.b64decode(f)).name for f in case['files']]
    res['over'], res['opts'] = case['over'], case['opts']
    if st:
        res['text'] = text
    print(json.dumps(res))
