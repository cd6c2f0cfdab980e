"""runs one (harness, case) job in its own process"""
import ctypes
import mmap
import multiprocessing as mp
import os
import random
import resource
import signal
import struct
import time
import traceback

import z3
from llparse import Module
from symex import Engine, Config, Unsupported, Inconclusive


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def run_job(ll, job, seed, slots=None):
    """slots: semaphore of idle processors; a job with pending paths hands half of them to a forked process when one is idle"""
    t0 = time.time()
    die_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (job.get('mem_gb', 4) << 30,) * 2)
    m = Module(ll)
    cfg = Config()
    for k, v in job.get('cfg', {}).items():
        setattr(cfg, k, v)
    e = Engine(m, cfg)
    rnd = random.Random('%s/%s/%s' % (seed, job['harness'], job['case']))
    samples = []
    cnt = [0]
    want = job.get('samples', 3)

    def hook(eng, st):
        cnt[0] += 1
        k = len(samples)
        if k >= want:
            k = rnd.randrange(cnt[0])
            if k >= want:
                return
        s = dict(input=eng.extract(st, st.model), covers=list(st.covers), outs=[eng.meval_any(st, o) for o in st.outs])
        if k < len(samples):
            samples[k] = s
        else:
            samples.append(s)
    e.path_hook = hook
    err = None
    kids = []
    pipe = [None]
    last = [time.time() + 0.7]

    def share(eng):
        now = time.time()
        if now < last[0] or not slots.acquire(False):
            return
        last[0] = now + 0.3
        a, b = mp.Pipe(False)
        pid = os.fork()
        if pid:
            b.close()
            kids.append((pid, a))
            eng.work = eng.work[1::2]
            return
        die_with_parent()
        a.close()
        for _, c in kids:
            c.close()
        kids.clear()
        pipe[0] = b
        eng.work = eng.work[0::2]
        for k in eng.stats:
            eng.stats[k] = 0
        eng.covers = {}
        eng.violations = []
        samples.clear()
        cnt[0] = 0
        rnd.seed('%s/%s' % (seed, pid))
    if slots is not None and job.get('share', True):
        e.share = share
    # after the first few violations of a job, its other paths are not needed: a count and the time of the first, shared by its processes
    board = mmap.mmap(-1, 16)

    def found():
        n, t = struct.unpack('qd', board[:16])
        board[:16] = struct.pack('qd', n + 1, t or time.time())

    def stop():
        n, t = struct.unpack('qd', board[:16])
        return n >= 6 or (n > 0 and time.time() - t > 15)
    if os.environ.get('VERIF_ALL') is None:
        e.on_violation, e.stop = found, stop
    try:
        e.run(job['harness'], job['case'])
    except (Unsupported, Inconclusive) as x:
        err = '%s: %s' % (type(x).__name__, x)
    except z3.Z3Exception as x:
        err = 'z3: %s' % x
    except MemoryError:
        err = 'out of memory'
    except RecursionError as x:
        err = 'RecursionError'
    except BaseException as x:
        err = 'crash: %r\n%s' % (x, traceback.format_exc()[-1500:])
    if slots is not None:
        slots.release()
    r = dict(harness=job['harness'], case=job['case'], error=err, stats=e.stats, covers=e.covers, violations=e.violations,
             samples=samples, funcs=set(e.funcs_seen), dbg=set(e.dbgseen))
    for pid, c in kids:
        try:
            q = c.recv()
        except EOFError:
            r['error'] = r['error'] or 'worker died'
            continue
        os.waitpid(pid, 0)
        r['error'] = r['error'] or q['error']
        for k, v in q['stats'].items():
            r['stats'][k] += v
        for k, v in q['covers'].items():
            r['covers'][k] = r['covers'].get(k, 0) + v
        r['violations'] += q['violations']
        r['samples'] += q['samples']
        r['funcs'] |= q['funcs']
        r['dbg'] |= q['dbg']
    r['samples'] = r['samples'][:want + 2]
    if pipe[0] is not None:
        pipe[0].send(r)
        pipe[0].close()
        os._exit(0)
    r.update(funcs=sorted(r['funcs']), dbg=sorted(r['dbg']), time=time.time() - t0)
    return r
