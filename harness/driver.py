"""Decide a property: python driver.py PROPERTY [--thorough] [--replay FILE] (seed and tier from VERIF_SEED and VERIF_TIER).

Three kinds of jobs, all of them run by TLC on the modules of /verif/spec:
  traces : histories executed on the real library are validated against the specification;
  gen    : behaviours of the specification are generated by TLC, replayed on the real library, and their
           traces are validated too;
  mc     : exhaustive model checking of the specification itself.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
sys.path.insert(0, HERE)

import checks  # noqa: E402

REPO = '/repo/src'
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 8


class CheckError(Exception):
    """The check itself failed."""


def tlc(module, cfg, tmp, env=None, workers=1, heap='2g', timeout=800, extra=()):
    """Run TLC, give its output and exit status."""
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m',
           '-XX:TieredStopAtLevel=1', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-config', cfg,
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE'] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timeout on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout.decode(errors='replace'), p.returncode


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(histories, module, tmp):
    """Validate histories: the list of mismatches (history index, event, clause, detail), and the counts."""
    todo = list(range(len(histories)))
    bad, done, trans, states = [], 0, 0, 0
    while todo:
        path = tempfile.mktemp(dir=tmp, suffix='.json')
        with open(path, 'w') as f:
            json.dump([dict(ev=histories[i]['ev']) for i in todo], f)
        out, code = tlc(module + '.tla', module + '.cfg', tmp, env=dict(TRACE=path))
        os.unlink(path)
        seen = set()
        for line in out.splitlines():
            if line.startswith('"DONE '):
                seen.add(int(line.split()[1].rstrip('"')) - 1)
                done += 1
            elif line.startswith('"MISMATCH '):
                m = json.loads(json.loads(line)[len('MISMATCH '):])
                seen.add(m['h'] - 1)
                bad.append((todo[m['h'] - 1], m['ev'], m['why'], '%s %s' % (m['op'], m['which'])))
        a, b = counts(out)
        trans, states = trans + a, states + b
        rest = [todo[k] for k in range(len(todo)) if k not in seen]
        if code == 0:
            empty = [k for k in rest if not histories[k]['ev']]
            if len(empty) != len(rest):
                raise CheckError('histories without verdict:\n' + out[-3000:])
            break
        # an event that the specification cannot evaluate is not one of its behaviours
        hs = re.findall(r'/\\ h = (\d+)', out)
        evs = re.findall(r'/\\ i = (\d+)', out)
        if 'Error:' not in out or not hs or (int(hs[-1]) - 1) in seen:
            raise CheckError('TLC failed:\n' + out[-3000:])
        k = int(hs[-1]) - 1
        err = out[out.index('Error:'):][:400]
        bad.append((todo[k], int(evs[-1]), 'not-evaluable', err))
        rest.remove(todo[k])
        trans += len(seen)
        todo = rest
    return bad, done, trans, states


def harness_env(seed, tmp):
    return dict(os.environ, PYTHONPATH=REPO + ':' + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed % 1000),
                VH_ERR=os.path.join(tmp, 'err.txt'), TMPDIR=tmp)


def produce(script, args, seed, tmp, timeout=600):
    out = tempfile.mktemp(dir=tmp, suffix='.json')
    cmd = [PY, os.path.join(HERE, script)] + [str(a) for a in args] + [out]
    p = subprocess.run(cmd, env=harness_env(seed, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       cwd=tmp)
    if p.returncode:
        raise CheckError('harness failed: %s\n%s' % (cmd, p.stdout.decode(errors='replace')[-3000:]))
    with open(out) as f:
        h = json.load(f)
    os.unlink(out)
    return h


class Result:

    def __init__(self):
        self.bad, self.done, self.trans, self.states, self.events, self.samples, self.notes = [], 0, 0, 0, 0, [], []
        self.ops = dict()
        self.mc = []
        self.stops = 0

    def add(self, hist, script, module, verdict):
        bad, done, trans, states = verdict
        self.done += done
        self.trans += trans
        self.states += states
        hit = set()
        for h, ev, why, detail in bad:
            hit.add(h)
            self.bad.append(dict(history=hist[h], script=script, module=module, ev=ev, why=why, detail=detail))
        for n, h in enumerate(hist):
            self.events += len(h['ev'])
            self.stops += 'stop' in h
            for e in h['ev']:
                k = e['op'] + ('/' + e['res'].get('k', '') if 'res' in e else '')
                self.ops[k] = self.ops.get(k, 0) + 1
            if h.get('broken') and n not in hit:
                self.bad.append(dict(history=h, script=script, module=module, ev=len(h['ev']) + 1, why='observation',
                                     detail=h['broken']))


def run_traces(job, seed, tmp, res, pool, scale):
    n = int(job['n'] * scale)
    size = max(4, min(job.get('chunk', 75), -(-n // JOBS)))

    def chunk(first):
        hist = produce(job['script'], list(job.get('args', [])) + [seed, min(size, n - first), first], seed, tmp)
        return hist, validate(hist, job['module'], tmp)
    return [(job, pool.submit(chunk, first)) for first in range(0, n, size)]


def run_gen(job, seed, tmp, res, pool, scale):
    """Behaviours generated by TLC in simulation mode, replayed on the library, then validated."""
    def one(k):
        out = tempfile.mktemp(dir=tmp, suffix='.json')
        text, code = tlc(job['gen'] + '.tla', job['gen'] + '.cfg', tmp, env=dict(GENOUT=out),
                         extra=['-simulate', 'num=%d' % int(job['n'] * scale / JOBS), '-depth', str(job['depth']), '-seed',
                                str(seed * 1000 + k)])
        beh = []
        for line in text.splitlines():
            if line.startswith('"BEHAVIOUR '):
                beh.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
        if not beh:
            raise CheckError('no behaviour generated:\n' + text[-2000:])
        path = tempfile.mktemp(dir=tmp, suffix='.json')
        with open(path, 'w') as f:
            json.dump(beh, f)
        hist = produce(job['script'], list(job.get('args', [])) + ['--replay', path], seed, tmp)
        os.unlink(path)
        return hist, validate(hist, job['module'], tmp)
    return [(job, pool.submit(one, k)) for k in range(JOBS)]


def run_mc(job, tmp, res):
    t0 = time.time()
    out, code = tlc(job['mc'] + '.tla', job.get('cfg', job['mc']) + '.cfg', tmp, workers=JOBS, heap='8g', timeout=job.get('timeout', 600),
                    extra=job.get('extra', ()))
    if code != 0 or 'No error has been found' not in out:
        raise CheckError('model checking of %s failed:\n%s' % (job['mc'], out[-3000:]))
    a, b = counts(out)
    res.trans += a
    res.states += b
    res.mc.append(dict(model=job['mc'], config=job.get('cfg', job['mc']), transitions=a, distinct_states=b, wall_s=round(time.time() - t0, 1)))


def brief(h, n=6):
    """A sample: the first events of a history."""
    out = []
    for e in h['ev'][:n]:
        s = json.dumps({k: v for k, v in e.items() if k not in ('obs', 'dpost', 'map')}, sort_keys=True)
        out.append(s if len(s) < 400 else s[:400] + '...')
    return out


def main():
    prop = sys.argv[1]
    conf = checks.CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    tier = 'thorough' if tier == 'thorough' or '--thorough' in sys.argv else 'quick'
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    t0 = time.time()
    res = Result()
    tmp = tempfile.mkdtemp(prefix='vh-')
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            path = os.path.join(tmp, 'cmds.json')
            with open(path, 'w') as f:
                json.dump([r['commands']], f)
            hist = produce(r['script'], r.get('args', []) + ['--replay', path], r['seed'], tmp)
            res.add(hist, r['script'], r['module'], validate(hist, r['module'], tmp))
        else:
            with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
                futures = []
                for job in conf['jobs']:
                    scale = 1 if tier == 'quick' else job.get('thorough', 12)
                    if 'gen' in job:
                        futures += run_gen(job, seed, tmp, res, pool, scale)
                    elif 'script' in job:
                        futures += run_traces(job, seed, tmp, res, pool, scale)
                for job, f in futures:
                    hist, verdict = f.result()
                    res.add(hist, job['script'], job['module'], verdict)
                    if len(res.samples) < 3 and hist and hist[0]['ev']:
                        res.samples.append(dict(history=hist[0].get('id', ''), events=brief(hist[0])))
            for job in conf['jobs']:
                if 'mc' in job and (tier == 'thorough' or job.get('quick', True)):
                    run_mc(job, tmp, res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    status = 0
    mine = [b for b in res.bad if checks.relevant(prop, b)]
    others = {}
    for b in res.bad:
        if b not in mine:
            others[b['why']] = others.get(b['why'], 0) + 1
    known = checks.known_findings(prop)
    reported = {}
    for b in mine:
        k = [f for f in known if f['match'](b)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
            continue
        status = 1
        reported.setdefault(b['why'], []).append(b)
    if status:
        folder = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(folder, exist_ok=True)
        n = 0
        for why, l in sorted(reported.items()):
            for b in sorted(l, key=lambda x: x['ev'])[:2]:
                n += 1
                path = os.path.join(folder, '%s-%s-%d.json' % (prop, why, n))
                job = [j for j in conf['jobs'] if j.get('script') == b['script']]
                ev = b['history']['ev'][:b['ev']]
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, seed=seed, script=b['script'], module=b['module'], clause=why, event=b['ev'],
                                   args=job[0].get('args', []) if job else [],
                                   detail=b['detail'], id=b['history'].get('id', ''), commands=[checks.strip(e) for e in ev],
                                   events=ev), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  clause %s: %s (%d occurrences)' % (why, b['detail'][:300], len(l)))
    if others:
        print('note: clauses of other properties not satisfied: %s' % json.dumps(others, sort_keys=True))
    print('%s %s seed=%d: %d traces validated, %d mismatches, %d events, %d transitions, %d states, %.1f s' % (
        prop, tier, seed, res.done, len(res.bad), res.events, res.trans, res.states, time.time() - t0))
    if not replay:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        cov = dict(states=res.states, transitions=res.trans, traces_validated_against_impl=res.done,
                   samples=res.samples, histories_generated=res.done + len(res.bad), events=res.events,
                   events_by_result=dict(sorted(res.ops.items())), models=res.mc,
                   unrelated_mismatches=others, histories_stopped_by_the_generator=res.stops)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                           assumptions=conf.get('assumptions', checks.ASSUMPTIONS), wall_s=round(time.time() - t0, 1),
                           violations=len(mine)), f, indent=1)
    return status


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as trouble:
        print('CHECK ERROR: %s' % trouble)
        sys.exit(2)
