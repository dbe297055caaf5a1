"""Random protobuf schemas through the protoc plugin: the generated headers compile and the generated
messages conform to the wire format (the same properties as P01-P03, P07, run on each schema)."""
import os, subprocess, sys, json, shutil, re, time, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

V, B = build.VERIF, build.B
TRAITS = ['default_traits', 'keep_nonowning', 'stable_traits', 'keep_pmr', 'keep_default', 'non_owning_traits', 'pmr_stable_traits', 'keep_stable']


def sh(cmd, timeout=300, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


class Schema:
    """one descriptor set in its own directory"""

    def __init__(self, d, fds, traits, opts=''):
        self.d, self.fds, self.traits, self.opts = d, fds, traits, opts
        os.makedirs(d + '/gen', exist_ok=True)
        open(d + '/s.pb', 'wb').write(fds)
        self.log = ''

    def fail(self, stage, out):
        self.log = out
        return stage

    def run(self, n, seed, only=None):
        """'' when everything held, 'rejected' when the plugin refused the schema, else the failing stage"""
        d = self.d
        rc, out = sh([build.PY, V + '/tools/g01_tables.py', d, ','.join(self.traits), self.opts])
        if rc:
            return self.fail('tables', out)
        files = open(d + '/files').read().split()
        out_dir = d + '/gen' + ''.join('/' + o.split('=', 1)[1] for o in self.opts.split(',') if o.startswith('directory_prefix='))
        os.makedirs(out_dir, exist_ok=True)
        opt = [f'--hpp_opt={self.opts}'] if self.opts else []
        rc, out = sh([build.PROTOC, f'--descriptor_set_in={d}/s.pb', f'--plugin=protoc-gen-hpp={B}/protoc-gen-hpp', f'--hpp_out={out_dir}', *opt, *files], timeout=30)
        if rc:
            if 'protoc-gen-hpp' in out or '--hpp_out' in out:
                return self.fail('rejected', out)
            return self.fail('protoc', out)
        fl = [build.CXX, '-std=c++23', '-w', '-O0', f'-I{d}/gen', f'-I{d}', f'-I{V}/core', f'-I{V}/harness', f'-I{build.REPO}/include', '-DOPS_R', '-DOPS_W', '-ferror-limit=5']
        rc, out = sh(fl + ['-c', d + '/u.cpp', '-o', d + '/u.o'])
        if rc:
            return self.fail('compile', out)
        rc, out = sh([build.CXX, d + '/u.o', f'{B}/codec_dyn_nosan.o', f'{B}/pbt_main_nosan.o', '-o', d + '/run'])
        if rc:
            return self.fail('link', out)
        self.cases = 0
        for prop in ([only] if only else ['decode', 'encode', 'roundtrip'] + (['rewrite'] if any('keep' in t for t in self.traits) else []) + (['extensions'] if os.path.exists(d + '/has_ext') else [])):
            rc, out = sh([d + '/run', '--prop', prop, '--seed', str(seed), '--n', str(n), '--workers', '1', '--out', d + '/o.json', '--replay-dir', d, '--max-seconds', '20', '--shrink-seconds', '10', '--tmp', d],
                         env=dict(os.environ, KS_TABLE=d + '/ks.tbl'))
            if rc:
                self.prop = prop
                return self.fail(prop, out)
            r = json.load(open(d + '/o.json'))
            self.cases += r['cases']
        return ''


CELLS = 8  # 18 types x 8 forms x 3 syntaxes are covered by 54 schemas
RESERVED = {'std', 'Traits'}  # names the generator may refuse (with a diagnostic)


def dump(seed, path, args):
    rc, txt = sh([B + '/bin/sgen_dump', str(seed), path, *args])
    if rc:
        raise SystemExit('sgen_dump: ' + txt)
    return txt


def describe(path):
    """the schema as text"""
    rc, txt = sh([build.PY, '-c', 'import sys\nfrom google.protobuf import descriptor_pb2 as d\nprint(d.FileDescriptorSet.FromString(open(sys.argv[1],"rb").read()))', path])
    return txt


def attempt(d, fds, traits, seed, n, opts=''):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    s = Schema(d, fds, traits, opts)
    r = s.run(n, seed)
    return s, r


def stage_of(s, r):
    """identifies the failure while shrinking"""
    if r in ('decode', 'encode', 'roundtrip', 'rewrite', 'extensions'):
        m = re.search(r'sig=(\S+)', s.log)
        return r + ':' + (m[1] if m else '')
    return r


def refused_ok(s, text):
    """a refusal counts as an answer only when the schema holds a name the generator cannot express"""
    names = set(re.findall(r'[A-Za-z_][A-Za-z0-9_]*', text))
    return 'rename' in s.log and bool(names & RESERVED)


def options(i, txt):
    """plugin options of case i"""
    r = random.Random(i)
    o = []
    if r.random() < 0.3:
        o.append('namespace_prefix=' + r.choice(['np', 'n1.n2', 'p.M0']))
    if r.random() < 0.2:
        o.append('directory_prefix=' + r.choice(['dp', 'd1/d2']))
    if r.random() < 0.1:
        o.append('preserve_proto_field_names')
    if r.random() < 0.4:
        names = re.findall(r'(?m)^ message (\S+)', txt) or ['x']
        fields = re.findall(r'(?m)^  (\w+)=\d+ ', txt) or ['f']
        o += ['proto2_explicit_presence=.' + r.choice(names) + r.choice(['', '.' + r.choice(fields), 'x', '0']) for _ in range(r.choice([1, 1, 2]))]
    return ','.join(o)


def one(base, i, args, n):
    d = f'{base}/{i}'
    os.makedirs(d, exist_ok=True)
    txt = dump(i, d + '/x.pb', [f'matrix={CELLS}', f'matrix_at={i}', *args])
    traits = [TRAITS[i % len(TRAITS)]]
    fds = open(d + '/x.pb', 'rb').read()
    t0 = time.time()
    opts = options(i, txt)
    s, r = attempt(d + '/w', fds, traits, i, n, opts)
    return dict(opts=opts, i=i, traits=traits, r=r, stage=stage_of(s, r), wall=time.time() - t0, log=s.log, text=txt, fds=fds, s=s, cases=getattr(s, 'cases', 0), d=d)


def shrink(base, x, n, seconds):
    """smaller schemas that fail in the same way"""
    end = time.time() + seconds
    best, log = x['fds'], x['log']
    k = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        c = f'{base}/c{k}'
        k += 1
        shutil.rmtree(c, ignore_errors=True)
        os.makedirs(c)
        open(c + '/in.pb', 'wb').write(best)
        rc, out = sh([build.PY, V + '/tools/g01_shrink.py', c + '/in.pb', c])
        if rc:
            break
        cand = [open(f'{c}/{j}.pb', 'rb').read() for j in range(int(out.strip().splitlines()[-1]))]
        for lo in range(0, len(cand), 8):
            if time.time() > end:
                break

            def try_one(j):
                s, r = attempt(f'{c}/w{j % 8}', cand[j], x['traits'], x['i'], n, x['opts'])
                return j, stage_of(s, r), s.log
            with ThreadPoolExecutor(8) as ex:
                hits = [h for h in ex.map(try_one, range(lo, min(lo + 8, len(cand)))) if h[1] == x['stage']]
            if hits:
                best, log = cand[hits[0][0]], hits[0][2]
                progress = True
                break
        shutil.rmtree(c, ignore_errors=True)
    return best, log


def replay_text(x, fds, log, d):
    import base64
    open(d + '/best.pb', 'wb').write(fds)
    return (f'# protoc-gen-hpp on this schema: {x["stage"]}\n# Replay: python3 tools/g01.py --replay FILE\n'
            f'traits: {",".join(x["traits"])}\nseed: {x["i"]}\nopts: {x["opts"]}\nfds: {base64.b64encode(fds).decode()}\n\n{describe(d + "/best.pb")}\n{log[:20000]}\n')


def run(ctx):
    """registered as the run hook of G01"""
    thorough = ctx.tier == 'thorough'
    base = ctx.tmp + '/g'
    deadline = time.time() + (ctx.left() - 150 if thorough else 240)
    total = 1200 if thorough else 60
    n = 600
    first = (ctx.seed - 1) * 100000
    labels, samples, cases, done, distinct, bad = {}, [], 0, 0, set(), None
    t0 = time.time()

    def job(k):
        if time.time() > deadline or bad:
            return None
        i = first + 1 + k
        x = one(base, i, (['names=1'] if k % 4 == 3 else []), n)
        shutil.rmtree(x['d'], ignore_errors=True)
        return x
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(job, range(total)):
            if x is None:
                continue
            done += 1
            cases += x['cases']
            for t in x['traits'] + [x['r'] or 'conforms'] + sorted({o.split('=')[0] for o in x['opts'].split(',') if o}):
                labels[t] = labels.get(t, 0) + 1
            for w in ('map', 'oneof', 'group', 'required', 'enum', 'default', 'proto2', 'proto3', 'edition'):
                if re.search(r'\b' + w, x['text']):
                    labels['schema with ' + w] = labels.get('schema with ' + w, 0) + 1
            if not x['r'] and len(re.findall(r'=\d+ ', x['text'])) >= 6:
                distinct.add(x['fds'])
                if len(samples) < 4:
                    samples.append(x['text'][:1200])
            if x['r'] and not (x['r'] == 'rejected' and refused_ok(x['s'], x['text'])) and bad is None:
                bad = x
    if bad:
        print(f'schema {bad["i"]} {bad["traits"]} fails: {bad["stage"]}; shrinking', flush=True)
        fds, log = shrink(base, bad, n, 150)
        p = ctx.save('schema.replay', replay_text(bad, fds, log, base))
        ctx.violation(p, bad['stage'])
    ctx.part(prop='schemas', rule='the generated code was compiled, the schema has at least 6 fields and all codec properties were run on it', cases=done, nontrivial=len(distinct), distinct_nontrivial=len(distinct),
             labels=labels, samples=samples, wall_ms=int((time.time() - t0) * 1000), truncated=done < total)
    ctx.part(prop='codec cases on generated code', cases=cases, distinct_nontrivial=0, labels={}, samples=[])


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        import base64
        kv = dict(l.split(': ', 1) for l in open(sys.argv[2]).read().splitlines()[:7] if ': ' in l)
        d = B + '/tmp/g01_replay'
        s, r = attempt(d, base64.b64decode(kv['fds']), kv['traits'].split(','), int(kv['seed']), 600, kv.get('opts', ''))
        print(r or 'held', s.log[:6000])
        sys.exit(1 if r else 0)
    base, lo, hi = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for x in ex.map(lambda i: one(base, i, sys.argv[4:], 600), range(lo, hi)):
            ok = not x['r'] or x['r'] == 'rejected' and refused_ok(x['s'], x['text'])
            print(x['i'], x['traits'][0], x['opts'], (x['stage'] or 'ok') + (' (ok)' if x['r'] and ok else ''), f'{x["wall"]:.1f}s')
            if not ok:
                print('   ', '\n    '.join([l[:250] for l in x['log'].splitlines() if 'error' in l or 'FAIL' in l or x['r'] == 'rejected'][:3]))
