"""Descriptor and service headers of random sets of virtual proto files (tools/g02_case.py does one case)."""
import os, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
import build

V = build.VERIF


def one(d, seed, shrink=None):
    try:
        p = subprocess.run([build.PY, V + '/tools/g02_case.py', d, str(seed)] + ([str(shrink)] if shrink else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300)
    except subprocess.TimeoutExpired:
        return dict(result='FAIL', stage='timeout', log='', names=[])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode or not p.stdout.startswith('{'):
        raise SystemExit(f'g02_case.py {seed} failed with {p.returncode}: {p.stderr[-3000:]}')
    return json.loads(p.stdout)


def run(ctx):
    thorough = ctx.tier == 'thorough'
    deadline = time.time() + (ctx.left() - 200 if thorough else 200)
    total = 8000 if thorough else 190
    first = ctx.seed * 1000000
    labels, samples, done, checks, distinct, bad = {}, [], 0, 0, set(), []
    t0 = time.time()

    def job(k):
        if time.time() > deadline or bad:
            return None
        x = one(f'{ctx.tmp}/g2_{k}', first + k)
        x['seed'] = first + k
        if x['result'] == 'FAIL':
            bad.append(x)
        return x
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(job, range(total)):
            if x is None:
                continue
            done += 1
            checks += x.get('checks', 0)
            labels[x['result'] or 'generated'] = labels.get(x['result'] or 'generated', 0) + 1
            for o in x['opts'].split(','):
                labels[o.split('=')[0] or 'no option'] = labels.get(o.split('=')[0] or 'no option', 0) + 1
            if x['over']:
                labels['file_descriptor_name'] = labels.get('file_descriptor_name', 0) + 1
            if x['result'] != 'FAIL' and (len(x['names']) > 1 or x['over']):
                distinct.add(json.dumps([x['names'], x['over'], x['opts']]))
                if len(samples) < 6:
                    samples.append({'files': ' | '.join(x['names']), 'file_descriptor_name': json.dumps(x['over']), 'options': x['opts'], 'outcome': x['result'] or f"{x['checks']} descriptors, sets and services compared"})
    if bad:
        x = bad[0]
        print(f'case {x["seed"]} fails: {x["stage"]}; shrinking', flush=True)
        y = one(f'{ctx.tmp}/g2_s', x['seed'], 60)
        if y['result'] == 'FAIL':
            x = y
        text = json.dumps(x.get('case')) + f'\n# protoc-gen-hpp on these files: {x["stage"]}\n# Replay: {build.PY} tools/g02_case.py SCRATCHDIR --replay FILE\n{x.get("log", "")}\n\n{x.get("text", "")}\n'
        ctx.violation(ctx.save('files.replay', text), x['stage'])
    ctx.part(prop='virtual files', rule='there are at least two files or an overridden name, and the outcome was checked (headers compiled and compared, or refusal explained)', cases=done, nontrivial=len(distinct),
             distinct_nontrivial=len(distinct), labels=labels, samples=samples, wall_ms=int((time.time() - t0) * 1000), truncated=done < total)
    ctx.part(prop='descriptors, sets and services compared', cases=checks, distinct_nontrivial=0, labels={}, samples=[])
