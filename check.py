#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]  --  decides one property by symbolic execution of the real code.

exit 0: holds on everything explored; 1: VIOLATION line(s); 2: no verdict (an error of the check)
"""
import fcntl
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import props

REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
T0 = time.time()
WALL_LIMIT = {'quick': 840, 'thorough': 6 * 3600}


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class CheckError(Exception):
    pass


def cargo(args, target, extra_env, logname):
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    env.update(RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    env.update(extra_env)
    f = open(logname, 'w')
    return subprocess.Popen(['cargo'] + args, cwd=HDIR, env=env, stdout=f, stderr=subprocess.STDOUT), logname


def forget(target):
    """make cargo rebuild the code under test and the harness, whatever the time stamps say"""
    for prof in ('release', 'debug', 'userrel'):
        d = os.path.join(target, prof, '.fingerprint')
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith(('harness-', 'nt-hive-')):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def copy_example():
    """the example program as a module of the harness; its file, arguments and output are stand-ins (harness/src/show.rs)"""
    t = open(os.path.join(REPO, 'examples', 'readhive.rs')).read()
    t = re.sub(r'(?<![\w:])(?:::)?std::', 'crate::show::std::', t)
    t += '\npub fn run() -> bool { crate::show::Done::done(main()) }\n'
    open(os.path.join(HDIR, 'src', 'readhive.rs'), 'w').write(t)


def build(feature):
    """IR of harness + nt-hive + std, and the native replay binary, from the current tree"""
    global HDIR
    os.makedirs(BUILD, exist_ok=True)
    HDIR = os.path.join(BUILD, 'harness-' + feature)
    shutil.rmtree(HDIR, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'harness'), HDIR, ignore=shutil.ignore_patterns('target'))
    if feature == 'c20':
        copy_example()
    tir = os.path.join(BUILD, 'ir')
    tn = os.path.join(BUILD, 'native')
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        forget(tir)
        forget(tn)
        d = os.path.join(tir, 'release', 'deps')
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith('harness-') and n.endswith('.ll'):
                    os.unlink(os.path.join(d, n))
        a = cargo(['rustc', '--release', '--offline', '--lib', '--crate-type', 'staticlib', '--features', feature, '--',
                   '--emit=llvm-ir'], tir, {'RUSTFLAGS': '-C no-vectorize-loops -C no-vectorize-slp'},
                  os.path.join(BUILD, 'build-ir-%s.log' % feature))
        b = cargo(['build', '--offline', '--bin', 'replay', '--features', feature], tn, {},
                  os.path.join(BUILD, 'build-native-%s.log' % feature))
        for p, ln in (a, b):
            if p.wait() != 0:
                sys.stdout.write(open(ln).read()[-3000:])
                raise CheckError('build failed, see ' + ln)
        lls = [n for n in os.listdir(d) if n.startswith('harness-') and n.endswith('.ll')]
        if len(lls) != 1:
            raise CheckError('no IR produced')
        ll = os.path.join(BUILD, feature + '.ll')
        os.replace(os.path.join(d, lls[0]), ll)
        rp = os.path.join(BUILD, 'replay-' + feature)
        shutil.copy2(os.path.join(tn, 'debug', 'replay'), rp)
    finally:
        lock.close()
    return ll, rp


def build_release(feature):
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        tn = os.path.join(BUILD, 'native')
        forget(tn)
        p, ln = cargo(['build', '--offline', '--profile', 'userrel', '--bin', 'replay', '--features', feature], tn, {},
                      os.path.join(BUILD, 'build-rel-%s.log' % feature))
        if p.wait() != 0:
            return None
        rp = os.path.join(BUILD, 'replay-rel-' + feature)
        shutil.copy2(os.path.join(tn, 'userrel', 'replay'), rp)
        return rp
    finally:
        lock.close()


def write_input(path, harness, inp):
    with open(path, 'w') as f:
        f.write('harness %s\ncase %d\n' % (harness, inp['case']))
        for s in inp['syms']:
            f.write('sym %d\n' % s)
        for r in inp['regions']:
            f.write('region %d\n' % r['len'])
            run = None
            for o, b in r['bytes']:
                if run is not None and run[0] + len(run[1]) == o and len(run[1]) < 4096:
                    run[1].append(b)
                else:
                    if run is not None and any(run[1]):
                        f.write('at %d %s\n' % (run[0], bytes(run[1]).hex()))
                    run = (o, [b])
            if run is not None and any(run[1]):
                f.write('at %d %s\n' % (run[0], bytes(run[1]).hex()))


def replay(binary, path, timeout=20):
    """-> (outcome, covers, outs) of the native run"""
    try:
        p = subprocess.run([binary, path, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 10)
    except subprocess.TimeoutExpired:
        return 'TIMEOUT', [], []
    cov, outs, last = [], [], 'NOTHING'
    for l in p.stdout.decode(errors='replace').splitlines():
        if l.startswith('COVER '):
            cov.append(int(l[6:]))
        elif l.startswith('OUT '):
            outs.append(int(l[4:]))
        else:
            last = l
    if p.returncode != 0:
        last = 'TIMEOUT' if p.returncode == -14 else 'CRASH signal %d' % -p.returncode
    return last, cov, outs


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def job_main(conn, ll, job, seed, slots):
    try:
        import worker
        r = worker.run_job(ll, job, seed, slots)
    except BaseException as x:
        import traceback
        r = dict(harness=job['harness'], case=job['case'], error='crash: %r\n%s' % (x, traceback.format_exc()[-1500:]), stats={}, covers={},
                 violations=[], samples=[], funcs=[], dbg=[], time=0)
    conn.send(r)
    conn.close()


def run_jobs(ll, jobs, seed, limit, on_result, more):
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    todo = list(jobs)[::-1]
    live = {}
    slots = mp.Semaphore(nproc)
    while todo or live:
        while todo and slots.acquire(False):
            j = todo.pop()
            left = max(5, limit - 60 - (time.time() - T0))
            if 'fallback' in j:
                left = min(left, j['deep_s'])
            j = dict(j, cfg=dict(j.get('cfg', {}), time_limit=left))
            a, b = mp.Pipe(False)
            p = mp.Process(target=job_main, args=(b, ll, j, seed, slots))
            p.start()
            b.close()
            live[a] = (p, j, time.time())
        for c in multiprocessing.connection.wait(list(live), timeout=0.2 if todo else 5):
            p, j, t = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dict(harness=j['harness'], case=j['case'], error='worker died', stats={}, covers={}, violations=[], samples=[],
                         funcs=[], dbg=[], time=time.time() - t)
            p.join()
            c.close()
            if on_result(r):
                todo = []
                for q, _, _ in live.values():
                    q.kill()
                return 'stopped'
        todo += more
        del more[:]
        if time.time() - T0 > limit:
            for q, _, _ in live.values():
                q.kill()
            return 'time limit'
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = props.PROPS[prop]
    feature = prop.lower()
    rdir = os.path.join(HERE, 'replays', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ll, rp = build(feature)
    log('built', ll)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    jobs = [j for j in spec['jobs'](tier) if only is None or j['harness'] == only]
    res = []
    viol = []          # (text, path)
    kfound = {}
    nonrepro = []
    rel = [None, False]

    deep = {(j['harness'], j['case']): j for j in jobs if 'fallback' in j}
    more, reduced = [], []

    def on_result(r):
        res.append(r)
        S = r['stats']
        j = deep.get((r['harness'], r['case']))
        skipped = len(nonrepro)
        log('%s/%d: %s paths=%s queries=%s solver=%.1fs steps=%s time=%.1fs%s' % (
            r['harness'], r['case'], 'ok' if not r['error'] and not r['violations'] else ('ERROR ' + r['error'] if r['error'] else 'VIOLATIONS'),
            S.get('paths'), S.get('queries'), S.get('solver_s', 0), S.get('steps'), r['time'],
            '' if os.environ.get('VERIF_COVERS') is None else ' covers=%s' % r['covers']))
        stop = False
        for n, v in enumerate(r['violations']):
            path = os.path.join(rdir, '%s-%d-%d.input' % (r['harness'], r['case'], n))
            write_input(path, r['harness'], v['input'])
            o, cov, outs = replay(rp, path)
            mode = 'dev'
            if not o.startswith(('ASSERT-FAIL', 'PANIC', 'TIMEOUT', 'CRASH')):
                if not rel[1]:
                    rel[0], rel[1] = build_release(feature), True
                if rel[0]:
                    o2, _, _ = replay(rel[0], path)
                    if o2.startswith(('ASSERT-FAIL', 'PANIC', 'TIMEOUT', 'CRASH')):
                        o, mode = o2, 'release'
            text = '%s/%d %s %s -> native (%s): %s' % (r['harness'], r['case'], v['kind'], v['what'], mode, o)
            if not o.startswith(('ASSERT-FAIL', 'PANIC', 'TIMEOUT', 'CRASH')):
                nonrepro.append(text)
                log('NOT REPRODUCED', text, path)
                continue
            hit = None
            for k in known:
                if k['harness'] == r['harness'] and k['kind'] == v['kind'] and k['native'] in o and k.get('what', '') in str(v['what']):
                    hit = k
            if hit:
                kfound.setdefault(hit['id'], (hit, text))
                continue
            with open(path, 'a') as f:
                f.write('# %s\n# re-run: python3 %s/tools/replay.py %s %s\n' % (text, HERE, prop, path))
            viol.append((text, path))
            log('VIOLATED', text)
            stop = True
            if os.environ.get('VERIF_ALL') is None:
                break
        if j is not None and not stop:
            # a step limit that does not show natively is a limit of the exploration
            hangs = [t for t in nonrepro[skipped:] if ' hang ' in t]
            if r['error'] or hangs:
                nonrepro[skipped:] = [t for t in nonrepro[skipped:] if t not in hangs]
                reduced.append('%s/%d (%s): %s' % (r['harness'], r['case'], r['error'] or 'step limit', 'not decided' if j['fallback'] is None else
                                                   'decided for lists of at most 3 entries instead'))
                log('REDUCED', reduced[-1])
                r.update(error=None, violations=[], samples=[])
                if j['fallback'] is not None:
                    more.append(dict(j['fallback']))
        return stop and os.environ.get('VERIF_ALL') is None

    why = run_jobs(ll, jobs, seed, WALL_LIMIT[tier], on_result, more)
    errors = ['%s/%d: %s' % (r['harness'], r['case'], r['error']) for r in res if r['error']]
    if why == 'time limit':
        done = {(r['harness'], r['case']) for r in res}
        left = [j for j in jobs if (j['harness'], j['case']) not in done]
        reduced.extend('%s/%d (wall clock limit of the tier): not decided' % (j['harness'], j['case']) for j in left if 'fallback' in j)
        if more or not left or any('fallback' not in j for j in left):
            errors.append('wall clock limit of the tier reached')
    # trace validation: the encoding must agree with the native build on sampled passing paths
    validated = 0
    samples = []
    if not viol:
        for r in res:
            for n, s in enumerate(r['samples']):
                path = os.path.join(rdir, 'sample.input')
                write_input(path, r['harness'], s['input'])
                o, cov, outs = replay(rp, path)
                if o != 'END' or cov != s['covers'] or outs != s['outs']:
                    keep = os.path.join(rdir, 'mismatch-%s-%d-%d.input' % (r['harness'], r['case'], n))
                    os.replace(path, keep)
                    errors.append('encoding and native run disagree on %s: native %s covers %s outs %s, encoding covers %s outs %s' % (
                        keep, o, cov, outs, s['covers'], s['outs']))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append(dict(harness=r['harness'], case=r['case'], covers=cov, syms=s['input']['syms'][:12],
                                            region_lengths=[x['len'] for x in s['input']['regions']]))
        # vacuity
        if only is None and not errors:
            got = {}
            for r in res:
                got.setdefault(r['harness'], set()).update(r['covers'])
            for h, need in spec.get('covers', {}).items():
                if any(j['harness'] == h for j in jobs):
                    miss = set(need) - got.get(h, set())
                    if miss:
                        errors.append('vacuous: %s never reached cover points %s' % (h, sorted(miss)))
    # evidence
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    ids = set()
    for r in res:
        ids.update(r['dbg'])
    from dbginfo import DbgInfo
    funcs, lines = DbgInfo(open(ll, encoding='latin1').read()).resolve(ids, REPO + '/src')
    cov = dict(
        states=tot.get('paths', 0), transitions=tot.get('steps', 0), traces_validated_against_impl=validated, samples=samples,
        explanation='states: symbolic execution paths (path conditions) explored to their end; transitions: LLVM IR instructions executed '
                    'symbolically; traces_validated_against_impl: sampled passing paths whose concrete input was run through the native build with '
                    'identical cover points and outputs',
        functions_encoded=sorted('%s:%d %s' % (a, c, b) for a, b, c in funcs), source_lines_encoded=len(lines),
        entry_points=sorted({r['harness'] for r in res}), jobs=len(res), forks=tot.get('forks', 0),
        queries=tot.get('queries', 0), queries_sat=tot.get('sat', 0), queries_unsat=tot.get('unsat', 0), queries_unknown=tot.get('unknown', 0),
        solver_seconds=round(tot.get('solver_s', 0), 2), assertions_reached=tot.get('asserts', 0), assertions_discharged=tot.get('discharged', 0),
        assertions_discharged_without_solver=tot.get('cheap', 0), paths_cut_by_assumptions=tot.get('killed', 0),
        cover_points={h: sorted({c for r in res if r['harness'] == h for c in r['covers']}) for h in {r['harness'] for r in res}},
        bounds=spec['bounds'](tier) if callable(spec['bounds']) else spec['bounds'], outside=spec.get('outside', ''),
        known_findings=[k for k in kfound], errors=errors, reduced=reduced)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=props.ASSUMPTIONS + spec.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(viol))
    if only is None:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        with open(os.path.join(BUILD, 'lines-%s.json' % prop), 'w') as f:
            json.dump(sorted(lines), f)
    log('paths=%d queries=%d solver=%.1fs asserts=%d validated=%d' % (tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0),
                                                                     tot.get('asserts', 0), validated))
    for k, (hit, text) in kfound.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, hit['what_fails']))
    for text, path in viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + text)
    if viol:
        return 1
    for e in errors:
        print('ERROR', e)
    for t in nonrepro:
        print('ERROR counterexample does not reproduce natively:', t)
    if errors or nonrepro:
        return 2
    for t in reduced:
        print('REDUCED', t)
    print('OK property=%s tier=%s held on everything explored' % (prop, tier))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('ERROR', e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
