#!/usr/bin/env python3
"""Decides one property on the current working tree of /repo.

    python3-vt /verif/check.py PID [--thorough]
    python3-vt /verif/check.py --replay FILE

Exit 0: every obligation is discharged (or stood in for, see the evidence).
Exit 1: a VIOLATION line was printed.  Exit 2: no answer.
"""
import json
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import site  # noqa: E402
site.addsitedir('/opt/venv/lib/python3.12/site-packages')
from vc import cside, tree  # noqa: E402

CONFIGS = ('py', 'c', 'wpy', 'wc')
PYTHON = os.path.realpath(sys.executable) if 0 else sys.executable


def registry():
    import importlib
    for n in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
        if n.endswith('.py') and n[0] != '_':
            importlib.import_module('contracts.' + n[:-3])
    from vc import dsl
    return dsl.REGISTRY


def applies(k, config):
    return config[-2:].lstrip('w') in k.configs and (
        k.watch or config[0] != 'w') and k.conc


def proves(k, config):
    """Does the deductive engine take up the contract in this configuration?"""
    return k.sym and 'py' in k.configs and (k.watch or config[0] != 'w')


class Findings:
    """Defects that are recorded, not repaired."""

    def __init__(self, path):
        self.known = []
        for line in open(path):
            m = re.match(r'finding: property=(\S+) contract=(.+?) config=(\S+)'
                         r' match=(.+?) :: (.+)', line)
            if m:
                self.known.append(m.groups())

    def match(self, v):
        for f in self.known:
            pid, key, config, text, why = f
            if key == v['contract'] and v['config'] in config.split(',') and \
                    re.search(text, v.get('message') or ''):
                return f
        return None


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dirs = []
        self.scratch = tempfile.mkdtemp(prefix='vcheck.out.')
        self.dirs.append(self.scratch)
        self.violations = []
        self.errors = []
        self.conc = []
        self.sym = []
        self.cside = []
        self.lock = threading.Lock()
        self.procs = set()
        self.dead = False

    # scratch copies of the tree
    def prepare(self, need):
        self.trees = {}
        for c in need:
            d, err = tree.make(c=c)
            self.dirs.append(d)
            if err:
                self.errors.append('the C sources do not compile: ' + err)
            self.trees[c] = d

    def close(self):
        self.dead = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def worker(self, config, mode, keys, opts, timeout, nobuild=False):
        fd, out = tempfile.mkstemp(dir=self.scratch)
        os.close(fd)
        os.unlink(out)
        env = dict(os.environ, VC_OPTS=json.dumps(opts),
                   PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        for n in ('PURE_PYTHON', 'ZOPE_WATCH_CHECKERS', 'PYTHONPATH'):
            env.pop(n, None)
        p = subprocess.Popen(
            [PYTHON, os.path.join(VERIF, 'vc', 'worker.py'),
             self.trees[config.endswith('c')], config, mode, out] + list(keys),
            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            start_new_session=True, cwd=self.scratch)
        self.procs.add(p)
        try:
            err = p.communicate(timeout=timeout)[1]
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            err = p.communicate()[1]
            rc = 'timeout'
        finally:
            self.procs.discard(p)
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            res = []
        vec = None
        try:
            raw = open(out + '.vec', 'rb').read().split(b'\n')[0]
            vec = json.loads(raw)
        except (OSError, ValueError):
            pass
        return rc, res, vec, err.decode('utf8', 'replace')[-3000:]

    def conc_job(self, config, keys, opts, timeout):
        keys = list(keys)
        while keys and not self.dead:
            rc, res, vec, err = self.worker(config, 'conc', keys, opts,
                                            timeout)
            with self.lock:
                self.conc += res
            done = {r['key'] for r in res}
            if rc == 0:
                missing = [k for k in keys if k not in done]
                if missing:
                    self.errors.append('no result for %s in %s'
                                       % (missing, config))
                return
            left = [k for k in keys if k not in done]
            if (rc == 'timeout' or rc < 0) and vec and vec[0] in left:
                # the code under test took the process down
                key, mode, v = vec
                vio = dict(contract=key, config=config, steps=1, vector=v,
                           kind='crash', events=[], outcome=[], tags=[],
                           message='the process %s' % (
                               'does not come to an end' if rc == 'timeout'
                               else 'is killed by signal %d' % -rc))
                if mode != 'single':
                    vio['vector'] = []
                    vio['rng'] = '%s%s/%s/%d' % (
                        mode[0], self.seed, key, v)
                with self.lock:
                    self.conc.append(dict(key=key, config=config,
                                          violations=[vio]))
                keys = left[left.index(key) + 1:] + left[:left.index(key)]
                if rc == 'timeout':
                    return
                continue
            self.errors.append('worker for %s in %s failed (%s): %s'
                               % (left, config, rc, err))
            return

    def sym_job(self, config, key, opts, timeout):
        rc, res, vec, err = self.worker(config, 'sym', [key], opts, timeout)
        if not res:
            res = [dict(key=key, status='undecided', obligations=0,
                        discharged=0, names={}, refuted=[], unknown=[],
                        paths=0, queries=0, checks=0, cvc5=0, used=[],
                        events=[], wall=timeout, solver=0.0,
                        why='the prover ended with %s: %s' % (rc, err[-500:]))]
        for r in res:
            r['config'] = config
        with self.lock:
            self.sym += res

    def c_job(self, gb, t, i, timeout):
        r = cside.run(self, gb, t, i, self.pid, timeout)
        with self.lock:
            self.cside.append((t, r))

    def go(self, jobs, n=8):
        q = queue.Queue()
        for j in jobs:
            q.put(j)

        def loop():
            while True:
                try:
                    f, a = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    f(*a)
                except Exception as e:
                    self.errors.append('%s: %r' % (f.__name__, e))
        ts = [threading.Thread(target=loop) for _ in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def chunks(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


LIMITS = {
    'quick': dict(cap=2500, sample=300, hist=250, time=10.0, leaks=True),
    'thorough': dict(cap=30000, sample=3000, hist=3000, time=60.0,
                     leaks=True),
}


def sym_jobs(run, keys, reg):
    jobs = []
    if run.pid == 'C23':
        return []           # only the C implementation is concerned
    for config in ('py', 'wpy'):
        for key in keys:
            k = reg[key]
            if proves(k, config):
                t = k.symtime * (1 if run.tier == 'quick' else 4)
                jobs.append((-k.symtime, config, key, t))
    jobs.sort()
    return [(run.sym_job, (config, key, dict(symtime=t), t + 60))
            for _, config, key, t in jobs]


def c_jobs(run, repo):
    """The contracts of the C functions, discharged by CBMC."""
    todo = cside.jobs(run.pid)
    if not todo:
        return []
    files = sorted({t['file'] for t, i in todo})
    gbs, err = cside.build(repo, run.scratch, files)
    tmo = 200 if run.tier == 'quick' else 1200
    jobs = []
    for t, i in todo:
        if t['file'] in gbs:
            jobs.append((run.c_job, (gbs[t['file']], t, i, tmo)))
        else:
            run.cside.append((t, dict(
                status='undecided', reached=[], refuted=[], open=[],
                closed=[], wall=0.0, why='goto-cc: ' + err)))
    return jobs


def jobs_for(run, keys, reg, opts):
    jobs = []
    tmo = 300 if run.tier == 'quick' else 3000
    for config in ('c', 'py', 'wc', 'wpy'):
        if run.pid == 'C23' and config != 'c':
            continue
        ks = [k for k in keys if applies(reg[k], config)]
        per = 3 if run.tier == 'quick' else 1
        for ch in chunks(ks, max(1, (len(ks) + per - 1) // per)):
            jobs.append((run.conc_job, (config, ch, opts, tmo)))
    return jobs


def check(pid, tier, seed):
    run = Run(pid, tier, seed)
    try:
        return decide(run)
    finally:
        run.close()


def decide(run):
    pid, tier = run.pid, run.tier
    reg = registry()
    keys = keys_for(reg, pid)
    if not keys:
        print('no contracts for', pid)
        return 2
    opts = dict(seed=run.seed, limits=LIMITS[tier])
    run.prepare([False, True])
    if not run.errors:
        run.go(sym_jobs(run, keys, reg) + jobs_for(run, keys, reg, opts) +
               c_jobs(run, tree.REPO))
        deepen(run, reg)
    # results ----------------------------------------------------------
    findings = Findings(os.path.join(VERIF, 'known_findings.txt'))
    seen, new = [], []
    for r in run.conc:
        if r.get('error'):
            run.errors.append('%s in %s: %s' % (r['key'], r['config'],
                                                r['error']))
        for v in r['violations']:
            if not matters(pid, reg[v['contract']], v):
                continue
            f = findings.match(v)
            if f is None:
                new.append(v)
            elif f not in seen:
                seen.append(f)
    failed = proof_failures(run, reg, findings, seen, new)
    c_sum = cside.summary(run.cside)
    c_failed = c_failures(run, c_sum, new)
    for f in seen:
        print('KNOWN-FINDING: property=%s %s' % (f[0], f[4]))
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, n))
    for i, v in enumerate(new[:12]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s %s [%s]: %s' % (v['contract'], v['config'], v['kind'],
                                  v['message']))
        for e in v['events'][:8]:
            print('    ' + e[:200])
        for o in v.get('obligations', ()):
            print('    failed obligation: ' + o)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    for i, r in enumerate(failed[:6]):
        path = os.path.join(rdir, '%s-p%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(r, f, indent=1)
        print('%s %s: obligation not discharged: %s' % (
            r['key'], r['config'], '; '.join(
                x['obligation'] for x in r['refuted'])))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (
            pid, path))
        rc = 1
    if run.errors:
        for e in run.errors[:10]:
            print('ERROR ' + e, file=sys.stderr)
        rc = rc or 2
    for i, r in enumerate(c_failed[:6]):
        path = os.path.join(rdir, '%s-c%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(r, f, indent=1)
        print('%s: obligation not discharged: %s' % (
            r['contract'], '; '.join(r['refuted'][:6])))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (
            pid, path))
        rc = 1
    total = sum(r.get('runs', 0) + r.get('histories', 0) for r in run.conc)
    if not total:
        rc = rc or 2
    evidence(run, reg, keys, new, failed, c_sum, c_failed, seen, total)
    print('%s: %s contracts; %d of %d obligations discharged (%d of %d '
          'contracts proved); C: %d of %d obligations, %d of %d contracts; '
          '%d runs; %.1f s' % (
              (pid, len(keys), sum(r['discharged'] for r in run.sym),
               sum(r['obligations'] for r in run.sym),
               sum(r['status'] == 'proved' for r in run.sym), len(run.sym)) +
              cside.counted(run.cside)[::-1] +
              (sum(s['status'] in ('proved', 'bounded') for s in c_sum),
               len(c_sum), total, time.time() - run.t0)))
    for s in c_sum:
        if s['why']:
            print('    not proved: %s: %s' % (s['contract'], s['why'][-200:]))
    for r in run.sym:
        if r['status'] != 'proved':
            print('    not proved: %s %s: %s' % (
                r['key'], r['config'], (r.get('why') or r['status'])[-200:]))
    return rc


def deepen(run, reg):
    """Look further for an input where an obligation is refuted."""
    bad = {(v['contract'], v['config']) for r in run.conc
           for v in r['violations']}
    jobs = []
    for r in run.sym:
        k = reg[r['key']]
        if r['status'] == 'refuted' and k.conc and \
                (r['key'], r['config']) not in bad:
            opts = dict(seed=run.seed + 7, limits=dict(
                LIMITS['thorough'], time=45.0, leaks=False))
            jobs.append((run.conc_job, (r['config'], [r['key']], opts, 300)))
    if jobs:
        run.go(jobs)


def proof_failures(run, reg, findings, seen, new):
    """The refuted obligations that no run demonstrates."""
    failed = []
    for r in run.sym:
        if r['status'] != 'refuted':
            continue
        here = [v for v in new if v['contract'] == r['key']]
        for v in here:
            v.setdefault('obligations', [])
            v['obligations'] += ['%s (%s): %s' % (r['key'], r['config'],
                                                  x['obligation'])
                                 for x in r['refuted']]
        if here:
            continue
        known = [f for f in seen if f[1] == r['key'] and
                 r['config'] in f[2].split(',')]
        if not known:
            failed.append(r)
    return failed


def c_failures(run, c_sum, new):
    """The refuted obligations on C functions that no run demonstrates."""
    failed = [s for s in c_sum if s['status'] == 'refuted']
    here = [v for v in new if v['config'].endswith('c')]
    if here:
        for v in here:
            v.setdefault('obligations', [])
            v['obligations'] += ['%s: %s' % (s['contract'], x)
                                 for s in failed for x in s['refuted'][:4]]
        return []
    if not failed:
        return []
    # the verifier's own counterexample goes with the report
    rs = {}
    for t, r in run.cside:
        if r['status'] == 'refuted' and not t['file'].endswith('_cut'):
            rs.setdefault(t['name'], (t, r))
    gbs, err = cside.build(tree.REPO, run.scratch, ['checker', 'proxy'])
    for s in failed[:6]:
        t, r = rs[s['harness']]
        if t['file'] in gbs:
            i = [list(x) for x in t['shapes']].index(r['shapes'])
            q = cside.run(run, gbs[t['file']], t, i, run.pid, 200, trace=True)
            s['cbmc'] = q.get('trace', '')
        s['property'] = run.pid
        s['shape'] = r['shapes']
    return failed


def keys_for(reg, pid):
    return [k for k in reg if pid in reg[k].pids or (
        pid == 'C23' and any('.c:' in f for f in reg[k].functions))]


def matters(pid, k, v):
    """Does a violation of a contract break this property?"""
    if pid == 'C23':
        return 'C23' in k.pids or v['kind'] in ('crash', 'leak') or \
            'SystemError' in v['message']
    return v['kind'] != 'leak'


TRUSTED = [
    'vc/transform.py: the instrumentation of the source of zope.security and '
    'zope.proxy read on this run (it adds hooks, it leaves no statement out)',
    'vc/sym.py, vc/rt.py, vc/explore.py: the symbolic semantics of Python '
    'values, operators and loops, and the generation of obligations',
    'CPython 3.12 (runs the instrumented code), z3, cvc5',
]


C_TRUSTED = [
    'cside/capi.c: the contracts of the functions of the Python/C API, and '
    'of the permission lookup and the interaction, as used by the C sources '
    '(results, exceptions, references; each of them may fail)',
    'cside/proxy_h.c, cside/checker_h.c: a slot is given what CPython gives '
    'it; CBMC (SAT back end); the C front end of goto-cc; malloc succeeds',
]


def evidence(run, reg, keys, new, failed, c_sum, c_failed, seen, total):
    levels = json.load(open(os.path.join(VERIF, 'tools', 'levels.json')))
    level = levels.get(run.pid, levels['default'])['level']
    fns = sorted({f for k in keys for f in reg[k].functions
                  if isinstance(f, str)})
    proved = sorted({f for r in run.sym if r['status'] == 'proved'
                     for f in reg[r['key']].functions if isinstance(f, str)
                     and '.c:' not in f})
    back = {}
    for r in run.sym:
        for n, i in r.get('backends', {}).items():
            back[n] = back.get(n, 0) + i
    # (the contracts of known findings are refuted: not counted, but listed)
    told = {(f[1], c) for f in seen for c in f[2].split(',')}
    count = [r for r in run.sym if (r['key'], r['config']) not in told]
    c_all, c_done = cside.counted(run.cside)
    if c_done:
        back['cbmc (SAT)'] = c_done
    used = sorted({u for r in run.sym for u in r.get('used', ())})
    cov = dict(
        obligations=sum(r['obligations'] for r in count) + c_all,
        discharged=sum(r['discharged'] for r in count) + c_done,
        checker_cmd='python3-vt /verif/check.py %s' % run.pid,
        trusted_base=TRUSTED + (C_TRUSTED if run.cside else []) + used,
        functions_under_contract=fns,
        functions_proved=proved,
        discharged_by=back,
        solver_time_s=round(sum(r.get('solver', 0) for r in run.sym), 2),
        prover_time_s=round(sum(r['wall'] for r in run.sym), 2),
        proofs=[dict(contract=r['key'], config=r['config'],
                     status=r['status'], paths=r['paths'],
                     obligations=r['obligations'],
                     discharged=r['discharged'],
                     solver_queries=r['queries'] + r['checks'],
                     why=r.get('why')) for r in run.sym],
        bounded=dict(
            explanation='the same contracts run on the unmodified modules '
            'and on the compiled C extension, for enumerated behaviours of '
            'the environment; this stands in for what is listed under '
            'not_proved, looks for failing inputs of what is refuted, and '
            'is not counted above',
            evaluations=total,
            distinct_nontrivial=sum(r.get('sigs', 0) for r in run.conc),
            contracts=[dict(contract=r['key'], config=r['config'],
                            runs=r.get('runs'), exhausted=r.get('exhausted'),
                            histories=r.get('histories'),
                            reference_checks=r.get('leaks'))
                       for r in run.conc]),
        not_proved=[dict(contract=k, why=reg[k].bounded or
                         ('only the C implementation is concerned; see c_contracts'
                          if c_sum else
                          'only the C implementation is concerned'))
                    for k in keys if not reg[k].sym or
                    'py' not in reg[k].configs] + [
            dict(contract=r['key'], config=r['config'],
                 why=r.get('why') or r['status'])
            for r in run.sym if r['status'] != 'proved'],
        evaluations=total,
        distinct_nontrivial=sum(r.get('sigs', 0) for r in run.conc),
        rule='distinct sequences of (operation, outcome) performed by the '
             'real code under a contract',
        samples=[s for r in run.conc for s in r.get('samples', [])][:5])
    if c_sum:
        cov['c_contracts'] = [
            dict(contract=s['contract'], status=s['status'],
                 bound=s['bounded'], reached=s['reached'],
                 cbmc_time_s=s['wall'], why=s['why']) for s in c_sum]
        cov['c_contracts_proved'] = sum(s['status'] == 'proved'
                                        for s in c_sum)
        cov['not_proved'] += [
            dict(contract=s['contract'],
                 why=s['why'] or s['bounded'] and 'bounded: ' + s['bounded']
                 or s['status'])
            for s in c_sum if s['status'] != 'proved']
        cov['cbmc_time_s'] = round(sum(s['wall'] for s in c_sum), 1)
    ev = dict(
        property=run.pid, tier=run.tier, seed=run.seed, level=level,
        coverage=cov, assumptions=used,
        wall_s=round(time.time() - run.t0, 2),
        violations=len(new) + len(failed) + len(c_failed),
        violated=[dict(contract=v['contract'], config=v['config'],
                       message=v['message']) for v in new] + [
            dict(contract=r['key'], config=r['config'],
                 message='; '.join(x['obligation'] for x in r['refuted']))
            for r in failed] + [
            dict(contract=s['contract'], config='c',
                 message='; '.join(s['refuted'])) for s in c_failed],
        known_findings=[f[4] for f in seen])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    v = json.load(open(path))
    run = Run('replay', 'quick', int(os.environ.get('VERIF_SEED', '1')))
    try:
        if 'harness' in v:          # a failed obligation on a C function
            run.pid = v['property']
            run.prepare([True])
            t = [t for t in cside.TABLE if t['name'] == v['harness'] and
                 v['contract'].startswith(cside.SOURCES[t['file']])][0]
            gbs, err = cside.build(tree.REPO, run.scratch, [t['file']])
            r = cside.run(run, gbs[t['file']], t,
                          [list(x) for x in t['shapes']].index(v['shape']),
                          run.pid, 600, trace=True)
            print(r.get('trace'))
            print(r['status'], r['refuted'])
            return 1 if r['status'] != 'proved' else 0
        if 'vector' not in v:       # a failed obligation, Python
            run.prepare([False, True])
            run.sym_job(v['config'], v['key'], dict(symtime=300), 400)
            print(json.dumps(run.sym, indent=1))
            return 1 if run.sym[0]['status'] == 'refuted' else 0
        run.prepare([v['config'].endswith('c')])
        rc, res, vec, err = run.worker(v['config'], 'conc', [v['contract']],
                                       dict(replay=v), 120)
        print(json.dumps(res, indent=1) if res else 'exit %s\n%s' % (rc, err))
        return 1 if rc != 0 or not res or res.get('violation') else 0
    finally:
        run.close()


def main():
    args = sys.argv[1:]
    if args[0] == '--replay':
        return replay(args[1])
    tier = 'thorough' if '--thorough' in args else 'quick'
    return check(args[0], tier, int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main())
