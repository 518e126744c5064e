"""Common driver of the checks: worker pool, coverage, evidence, verdict."""

import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import pathlib
import re
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    TIER = 'thorough'
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))


def setup_env():
    """ environment of this process and of the workers, before importing jax """
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    flags = os.environ.get('XLA_FLAGS', '')
    if 'xla_cpu_multi_thread_eigen' not in flags:
        flags += ' --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
        flags += ' --xla_backend_optimization_level=1 --xla_llvm_disable_expensive_passes=true'
            # only to shorten compilation
    os.environ['XLA_FLAGS'] = flags.strip()
    src = str(REPO / 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    if str(ROOT) not in sys.path:
        sys.path.insert(0, str(ROOT))


class Result:
    """ what one job covered and found; picklable """

    def __init__(self):
        self.counts = {}
        self.violations = []  # (message, replay dict)
        self.samples = []
        self.seen = {}  # name -> set of hashes, for distinct counts
        self.notes = []

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def distinct(self, name, *objs):
        s = self.seen.setdefault(name, set())
        s.update(objs)

    def violation(self, msg, **replay):
        if len(self.violations) < 20:
            self.violations.append((msg, jsonable(replay)))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(jsonable(obj))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def check(self, ok, msg, **replay):
        if not ok:
            self.violation(msg, **replay)
        return bool(ok)

    def merge(self, other):
        for k, v in other.counts.items():
            self.count(k, v)
        for k, v in other.seen.items():
            self.seen.setdefault(k, set()).update(v)
        self.violations.extend(other.violations)
        self.samples.extend(other.samples[:2])
        for n in other.notes:
            self.note(n)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else str(x)
    if hasattr(x, 'dtype') or isinstance(x, (np.generic,)):
        try:
            a = np.asarray(x)
            if a.dtype.kind not in 'biuf':
                a = a.astype(float)
            if a.size > 2000:
                return dict(shape=list(a.shape), head=jsonable(a.ravel()[:200]))
            return jsonable(a.tolist())
        except Exception:
            return repr(x)
    return repr(x)


def digest(*arrays):
    import numpy as np
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
    return h.hexdigest()


def _worker_init(path, env):
    sys.path[:] = path
    os.environ.update(env)
    setup_env()
    from mc import tape
    tape.install()


def _renamed(e):
    """
    Explanation if `e` was raised because a function of bartz the machinery
    calls directly was moved or has other arguments now, None otherwise.

    Everything with a public contract on names and arguments is also reached
    through the interface, so this silences no behaviour.
    """
    msg = str(e)
    if type(e).__name__ == 'RawBits':
        return msg
    if isinstance(e, (AttributeError, ImportError)) and re.search(r"module 'bartz[.\w]*' has no attribute|cannot import name .* from 'bartz", msg):
        where = traceback.extract_tb(e.__traceback__)[-1].filename
        return msg if not where.startswith(str(REPO)) else None
    if isinstance(e, TypeError) and re.search(r'\(\) (missing \d+ required|takes .* argument|got an unexpected keyword|got some positional-only|got multiple values)|missing a required argument|too many positional arguments', msg):
        if not any(f.filename.startswith(str(REPO)) for f in traceback.extract_tb(e.__traceback__)):
            return msg
    return None


def _call(func, args):
    try:
        res = func(*args)
        assert isinstance(res, Result)
        return res
    except BaseException as e:
        res = Result()
        if isinstance(e, (MemoryError, KeyboardInterrupt)):
            raise
        if why := _renamed(e):
            res.note(f'{func.__name__}{args!r:.80} not applicable: {why}')
            return res
        res.violation(
            f'{type(e).__name__} while exploring {args!r:.200}: {str(e)[:300]}',
            traceback=traceback.format_exc()[-6000:], args=repr(args)[:2000],
        )
        return res


def run(prop, jobs, *, level, rule=None, exhaustive=None, bounds=None, extra=None, workers=8, timeout=850, finish=None):
    """
    Run jobs [(func, args), ...] in worker processes, write the evidence,
    print the verdict, exit.

    coverage counters are taken from the names used by the jobs.
    """
    t0 = time.time()
    setup_env()
    if THOROUGH:
        timeout = 6 * 3600
    total = Result()
    only = os.environ.get('VERIF_ONLY')
    if only:
        jobs = [j for j in jobs if only in repr(j)]
    workers = max(1, min(workers, len(jobs)))
    if os.environ.get('VERIF_SERIAL') or workers == 1 and len(jobs) == 1 and not THOROUGH:
        from mc import tape
        tape.install()
        for f, a in jobs:
            t = time.time()
            total.merge(_call(f, a))
            if os.environ.get('VERIF_VERBOSE'):
                print(f'# {f.__name__}{a!r:.80} {time.time() - t:.1f}s', flush=True)
    else:
        ctx = multiprocessing.get_context('spawn')
        ex = concurrent.futures.ProcessPoolExecutor(workers, ctx, _worker_init, (list(sys.path), dict(os.environ)))
        futs = {ex.submit(_call, f, a): (f, a, time.time()) for f, a in jobs}
        try:
            for fut in concurrent.futures.as_completed(futs, timeout=timeout):
                f, a, t = futs[fut]
                try:
                    total.merge(fut.result())
                except Exception as e:
                    total.violation(f'worker died on {f.__name__}{a!r:.200}: {e!r:.300}', traceback=traceback.format_exc()[-3000:])
                if os.environ.get('VERIF_VERBOSE'):
                    print(f'# {f.__name__}{a!r:.80} done at {time.time() - t0:.1f}s', flush=True)
        except concurrent.futures.TimeoutError:
            pending = [f'{f.__name__}{a!r:.100}' for fut, (f, a, _) in futs.items() if not fut.done()]
            total.violation('no answer from the code under test within the time limit', pending=pending)
            for p in list(ex._processes.values()):
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    if finish is not None:
        finish(total)
    wall = time.time() - t0
    report(prop, total, level, rule, exhaustive, bounds, extra, wall)


def load_known():
    out = {}
    path = ROOT / 'known_findings.json'
    if path.exists():
        for e in json.loads(path.read_text()):
            if e.get('status') == 'known':
                out.setdefault(e['property'], []).append(e)
    return out


def report(prop, total, level, rule, exhaustive, bounds, extra, wall):
    c = dict(total.counts)
    for k, s in total.seen.items():
        c[k] = len(s)
    cov = {}
    if level == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] = c.pop(k, 0)
    else:
        for k in ('evaluations', 'distinct_nontrivial'):
            cov[k] = c.pop(k, 0)
        cov['rule'] = rule or ''
    if rule and level == 'model_checking':
        cov['rule'] = rule
    if exhaustive is not None:
        cov['exhaustive'] = bool(exhaustive)
    if bounds:
        cov['bounds'] = bounds
    cov.update(c)
    if extra:
        cov.update(extra)
    cov['samples'] = total.samples[:12] or ['none']
    if total.notes:
        cov['notes'] = total.notes[:20]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(wall, 2))
    (ROOT / 'evidence').mkdir(exist_ok=True)
    (ROOT / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1) + '\n')

    known = load_known().get(prop, [])
    new, seen = [], set()
    for msg, rep in total.violations:
        for k in known:
            if k['match'] in msg:
                if k['what'] not in seen:
                    print(f'KNOWN-FINDING: property={prop} {k["what"]}')
                seen.add(k['what'])
                break
        else:
            new.append((msg, rep))
    print(f'{prop}: ' + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, (int, float))) + f', {wall:.1f}s')
    if new:
        d = ROOT / 'replays'
        d.mkdir(exist_ok=True)
        path = d / f'{prop}.json'
        path.write_text(json.dumps([dict(message=m, replay=r) for m, r in new[:20]], indent=1) + '\n')
        for m, _ in new[:5]:
            print(f'  {m}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)
