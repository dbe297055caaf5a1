#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decides one property on the current working tree of /repo.

exit 0: held on everything explored; exit 1 + "VIOLATION property=ID replay=PATH": broken.
"""
import json, os, sys, time, subprocess, shutil, glob
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/tools')
import build, checks

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')


def known_sigs(pid):
    """Signatures of the recorded (unrepaired) findings of a property: list of (signature, text)."""
    out = []
    try:
        for l in open(VERIF + '/KNOWN_FINDINGS.txt'):
            if l.startswith('known: '):
                f = l[7:].split(None, 2)
                if f[0] == 'property=' + pid and f[1].startswith('sig='):
                    out.append((f[1][4:], f[2].strip()))
    except OSError:
        pass
    return out


class Ctx:
    def __init__(self, pid, spec):
        self.pid, self.spec, self.tier, self.seed = pid, spec, TIER, SEED
        self.ev = VERIF + '/evidence'
        os.makedirs(self.ev + '/replay', exist_ok=True)
        self.tmp = f'{build.B}/tmp/{pid}'
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.parts = []
        self.violations = []
        self.assumptions = list(spec.get('assumptions', []))
        self.env = ENV

    def left(self):
        return 840 - (time.time() - T0)

    def violation(self, replay, text):
        self.violations.append((replay, text))

    def save(self, name, text):
        p = f'{self.ev}/replay/{self.pid}-{name}'
        with open(p, 'w') as f:
            f.write(text)
        return p

    def part(self, **kw):
        """prop, rule, cases, distinct_nontrivial, labels, samples, wall_ms ..."""
        self.parts.append(kw)

    def build(self, targets):
        rc, out = build.ninja([build.B + '/' + t for t in targets])
        if rc:
            rc, out = build.ninja([build.B + '/' + t for t in targets], jobs=4)  # once more, in case memory ran short
        if rc:
            i = out.find('FAILED:')
            p = self.save('build.log', 'The harness, or the code the plugin generated for its schemas, does not build against the current tree.\n'
                          'Reproduce: ./check.py ' + self.pid + '\n\n' + out[max(i, 0):][:60000])
            self.violation(p, 'build failed')
            print(out[max(i, 0):][:3000])
            return False
        return True

    def run_prop(self, binary, prop, n, cap, timeout=20, workers=8, args=()):
        sigs = self.tmp + '/known'
        with open(sigs, 'w') as f:
            f.write('\n'.join(s for s, _ in known_sigs(self.pid)) + '\n')
        out = f'{self.tmp}/{prop}.json'
        for attempt in range(2):
            try:
                p = subprocess.run([f'{build.B}/bin/{binary}', '--prop', prop, '--seed', str(SEED), '--n', str(n), '--workers', str(workers), '--out', out,
                                    '--replay-dir', self.ev + '/replay', '--known', sigs, '--max-seconds', str(int(cap)), '--timeout', str(timeout),
                                    '--shrink-seconds', '40' if TIER == 'thorough' else '20', '--tmp', self.tmp, *args],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, cwd=VERIF)
            except OSError as e:
                print(e)
                continue
            print(p.stdout[:4000].rstrip())
            if p.returncode in (0, 1) and os.path.exists(out):
                break
        else:
            raise SystemExit(f'property driver failed with {p.returncode}')
        r = json.load(open(out))
        r['binary'] = binary
        self.parts.append(r)
        if p.returncode == 1:
            with open(r['replay'], 'a') as f:
                pass
            self.violation(r['replay'], r['signature'])
        return p.returncode == 0

    def fuzz(self, binary, prop, seconds, jobs=8):
        """libFuzzer campaign: the bytes are the choice sequence of the same property."""
        d = f'{self.tmp}/fz_{prop}'
        os.makedirs(d + '/corpus')
        procs = []
        for j in range(jobs):
            procs.append(subprocess.Popen([f'{build.B}/bin/{binary}_fz', d + '/corpus', f'-seed={SEED * 100 + j + 1}', f'-max_total_time={int(seconds)}', '-max_len=4096',
                                           '-timeout=25', '-rss_limit_mb=3000', f'-artifact_prefix={d}/crash-', '-print_final_stats=1', '-reload=5', '-use_value_profile=1'],
                                          stdout=open(f'{d}/log{j}', 'w'), stderr=subprocess.STDOUT, env=dict(ENV, PBT_PROP=prop)))
        for p in procs:
            try:
                p.wait(seconds + 90)
            except subprocess.TimeoutExpired:
                p.kill()
        execs = 0
        for j in range(jobs):
            for l in open(f'{d}/log{j}', errors='replace'):
                if l.startswith('stat::number_of_executed_units:'):
                    execs += int(l.split(':')[-1])
        corpus = len(os.listdir(d + '/corpus'))
        self.parts.append(dict(prop=prop + ' (libFuzzer)', binary=binary + '_fz', cases=execs, distinct_nontrivial=0, corpus=corpus, wall_ms=int(seconds * 1000), samples=[], labels={}))
        print(f'libFuzzer {prop}: {execs} executions, corpus {corpus}')
        for c in sorted(glob.glob(d + '/crash-*')):
            out = f'{self.tmp}/{prop}.fz.json'
            p = subprocess.run([f'{build.B}/bin/{binary}', '--prop', prop, '--replay-bytes', c, '--out', out, '--replay-dir', self.ev + '/replay', '--tmp', self.tmp, '--shrink-seconds', '60'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV)
            print(p.stdout[:3000])
            if p.returncode == 1:
                r = json.load(open(out))
                if r['signature'] in [s for s, _ in known_sigs(self.pid)]:
                    continue
                self.violation(r['replay'], r['signature'])
                break
            print('not reproduced outside libFuzzer, ignored:', c)

    def finish(self):
        total = sum(p.get('cases', 0) for p in self.parts)
        distinct = sum(p.get('distinct_nontrivial', 0) for p in self.parts)
        samples = []
        for p in self.parts:
            for s in p.get('samples', [])[:4]:
                samples.append({'prop': p['prop'], 'case': s[:1200]} if isinstance(s, str) else {'prop': p['prop'], **s})
        cov = {'evaluations': total, 'distinct_nontrivial': distinct,
               'rule': ' | '.join(f"{p['prop']}: non-trivial when {p['rule']}" for p in self.parts if p.get('rule')) or 'build only',
               'samples': samples or ['no case was run'],
               'parts': [{k: v for k, v in p.items() if k in ('prop', 'binary', 'cases', 'discarded', 'nontrivial', 'distinct_nontrivial', 'truncated', 'flaky', 'labels', 'known', 'wall_ms', 'corpus', 'signature')} for p in self.parts]}
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.spec.get('level', 'exploration'), 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 1), 'violations': len(self.violations)}
        with open(f'{self.ev}/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)
        for s, t in known_sigs(self.pid):
            print(f'KNOWN-FINDING: property={self.pid} {t}')
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            print(f'VIOLATION property={self.pid} replay={self.violations[0][0]}')
            return 1
        print(f'{self.pid} held: {total} cases, {distinct} distinct non-trivial, {time.time() - T0:.0f} s')
        return 0


def main():
    global TIER
    pid = sys.argv[1]
    if '--tier' in sys.argv:
        TIER = sys.argv[sys.argv.index('--tier') + 1]
    spec = checks.CHECKS[pid]
    checks.generate()
    c = Ctx(pid, spec)
    thorough = TIER == 'thorough'
    targets = ['bin/' + b for b in spec.get('bins', [])] + list(spec.get('targets', []))
    if thorough:
        targets += ['bin/' + b + '_fz' for b, _ in spec.get('fuzz', [])]
    if c.build(targets):
        print(f'built in {time.time() - T0:.0f} s', flush=True)
        steps = spec.get('steps', [])
        for st in steps:
            n, cap = st['n'], st.get('cap', 60)
            if thorough:
                n, cap = n * st.get('deep', 25), min(300, max(30, (c.left() - 60) * (0.6 if spec.get('fuzz') else 0.9) / len(steps)))
            if not c.run_prop(st['bin'], st['prop'], n, cap, timeout=st.get('timeout', 20), workers=st.get('workers', 8), args=st.get('args', ())):
                break
        if not c.violations and spec.get('run'):
            spec['run'](c)
        if thorough and not c.violations:
            fz = spec.get('fuzz', [])
            for b, p in fz:
                s = min(180, (c.left() - 100) / len(fz))
                if s > 15 and not c.violations:
                    c.fuzz(b, p, s)
    sys.exit(c.finish())


if __name__ == '__main__':
    main()
