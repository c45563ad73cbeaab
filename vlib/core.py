"""Property-check engine: Hypothesis-driven generated-input search, sharded over
processes, with shrinking, replay files and measured evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS') or max(1, min(8, os.cpu_count() or 1)))


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Ctx(object):
    """Per-case recorder handed to a check function."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self):
        self.is_nontrivial = False


class Sub(object):
    """One executable sub-check of a property.

    strategy: callable(tier) -> Hypothesis strategy of plain JSON-able cases
    check:    callable(case, ctx), raises Violation when the oracle disagrees
    quick / thorough: numbers of generated cases
    rule: what a case is and when it counts as non-trivial
    """

    def __init__(self, name, strategy, check, quick, thorough, rule, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {'quick': quick, 'thorough': thorough}
        self.rule = rule
        self.shards = shards


# --------------------------------------------------------------------------
# oracle helpers

def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def short(x, n=200):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            s = 'array%s %s' % (x.shape, np.array2string(x, threshold=12, edgeitems=3).replace('\n', ' '))
        else:
            s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) <= n else s[:n] + '...'


def same(got, want, what):
    """Exact equality of numbers or arrays (shape included, NaN equal to NaN)."""
    import numpy as np
    if want is None or got is None:
        require(got is None and want is None, '%s: got %s, expected %s', what, short(got), short(want))
        return
    g, w = np.asarray(got), np.asarray(want)
    require(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape, w.shape)
    nan = g.dtype.kind in 'fc' and w.dtype.kind in 'fc'
    require(np.array_equal(g, w, equal_nan=nan), '%s: got %s, expected %s', what, short(got), short(want))


def close(got, want, what, rtol=1e-9, atol=0.0):
    """Equality of numbers or arrays up to a stated tolerance (NaN equals NaN)."""
    import numpy as np
    if want is None or got is None:
        require(got is None and want is None, '%s: got %s, expected %s', what, short(got), short(want))
        return
    g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    require(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape, w.shape)
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    require(ok.all(), '%s: got %s, expected %s (rtol %g, atol %s)', what, short(got), short(want), rtol, short(atol))


def raises(excs, fn, what):
    """fn must raise one of excs (a clean refusal); returns the exception."""
    try:
        r = fn()
    except excs as e:
        return e
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s' % (what, type(e).__name__, short(str(e)), excs))
    raise Violation('%s: accepted, returned %s' % (what, short(r)))


# --------------------------------------------------------------------------
# running

def canon(case):
    return json.dumps(case, sort_keys=True)


def case_seed(case):
    return zlib.crc32(canon(case).encode())


class HarnessError(Exception):
    pass


def run_case(sub, case, ctx):
    """Run one check; raises Violation for a broken property, HarnessError for trouble of our own."""
    import numpy as np
    from . import sut
    s = case_seed(case)
    np.random.seed(s)
    random.seed(s)
    try:
        sub.check(case, ctx)
    except Violation:
        raise
    except MemoryError as e:
        raise HarnessError('out of memory in %s' % sub.name) from e
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        in_sut = any(os.path.abspath(f.filename).startswith(os.path.abspath(sut.SRC)) for f in frames)
        if isinstance(e, OSError) and getattr(e, 'errno', None) in (28, 12, 24, 23):
            raise HarnessError('%s: %r' % (sub.name, e)) from e
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in frames[-4:])
        raise Violation('%s raised %s: %s [%s]' % (
            'code under test' if in_sut else 'reading the output', type(e).__name__, short(str(e)), where)) from e


def _worker(prop_id, sub, tier, seed, shard, n, out, scratch):
    t0 = time.time()
    res = {'sub': sub.name, 'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': [],
           'failure': None, 'error': None}
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        mydir = os.path.join(scratch, '%s_%d' % (sub.name, shard))
        os.makedirs(mydir)
        tempfile.tempdir = mydir
        os.chdir(mydir)
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45
        hashes = set()
        fail = {'first': None, 'last': None}

        def body(case):
            ctx = Ctx()
            res['evaluations'] += 1
            try:
                run_case(sub, case, ctx)
            except Violation as e:
                rec = (json.loads(canon(case)), str(e))
                fail['first'] = fail['first'] or rec
                fail['last'] = rec
                raise
            for lab in set(ctx.labels):
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if ctx.is_nontrivial:
                h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(res['samples']) < 40:
                        res['samples'].append(case)

        test = given(case=sub.strategy(tier))(body)
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False, derandomize=False,
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example],
                        phases=(Phase.generate,) + (() if os.environ.get('VERIF_NO_SHRINK') else (Phase.shrink,)))(test)
        test = hypothesis.seed((seed * 1000003 + zlib.crc32(('%s/%s/%d' % (prop_id, sub.name, shard)).encode()))
                               & 0x7fffffff)(test)
        try:
            test()
        except Violation:
            res['failure'] = fail['last']
        except HarnessError:
            raise
        except BaseException as e:
            if fail['first'] is None or isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            # Hypothesis could not reproduce a failure: replay the recorded case by hand
            again = 0
            for _ in range(5):
                try:
                    run_case(sub, fail['first'][0], Ctx())
                except Violation:
                    again += 1
            if not again:
                raise HarnessError('failure did not reproduce: %s' % fail['first'][1])
            res['failure'] = fail['first']
        res['hashes'] = sorted(hashes)
    except BaseException:
        res['error'] = traceback.format_exc()[-4000:]
    res['wall_s'] = time.time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(out + '.tmp', out)


# the case counts of the quick tier given with the generators are multiplied by this; the checks with expensive cases
# and the statistical ones stay with fewer cases
MORE = {'C19': 1, 'C22': 1, 'C23': 1, 'C30': 1, 'C24': 1, 'C25': 1.5, 'C20': 2, 'C26': 1.5}


def _run_tasks(prop_id, subs, tier, seed, scratch, limit):
    """Fork one process per (sub, shard); returns results, or stops early at a failure."""
    ctx = mp.get_context('fork')
    tasks = []
    for sub in subs:
        n = sub.n[tier]
        shards = sub.shards or (WORKERS if n >= 16 else 1)
        if tier == 'quick':
            n = int(n * MORE.get(prop_id, 2.5))
        if os.environ.get('VERIF_SCALE'):
            n = max(1, int(n * float(os.environ['VERIF_SCALE'])))
        shards = max(1, min(shards, n))
        for i in range(shards):
            k = n // shards + (1 if i < n % shards else 0)
            tasks.append((sub, i, k))
    # spread the subs so that every sub starts early
    tasks.sort(key=lambda t: t[1])
    pending, running, results = list(tasks), [], []
    deadline = time.time() + limit
    stop_at = None
    while pending or running:
        while pending and len(running) < WORKERS and stop_at is None:
            sub, i, k = pending.pop(0)
            out = os.path.join(scratch, 'res_%s_%d.json' % (sub.name, i))
            p = ctx.Process(target=_worker, args=(prop_id, sub, tier, seed, i, k, out, scratch))
            p.start()
            running.append((p, out, sub.name))
        time.sleep(0.02)
        for item in list(running):
            p, out, name = item
            if p.is_alive():
                continue
            p.join()
            running.remove(item)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            else:
                r = {'sub': name, 'error': 'worker died with exit code %s' % p.exitcode,
                     'failure': None, 'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': []}
            results.append(r)
            if (r['failure'] or r['error']) and stop_at is None:
                # let shards that are already shrinking another failure finish
                stop_at = time.time() + 5
        now = time.time()
        if stop_at is not None and now > stop_at:
            for p, _o, _n in running:
                p.terminate()
            break
        if now > deadline:
            for p, _o, _n in running:
                p.terminate()
            results.append({'sub': '-', 'error': 'time limit of %d s reached' % limit, 'failure': None,
                            'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': []})
            break
    for p, _o, _n in running:
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    return results


def clip(case, n=1500):
    s = json.dumps(case)
    return case if len(s) <= n else {'truncated_case': s[:n]}


def load_subs(prop_id):
    return importlib.import_module('vlib.props.%s' % prop_id.lower()).SUBS


def known_findings(prop_id):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop_id]


def _known(prop_id, sub_name, case):
    for k in known_findings(prop_id):
        if k.get('sub') == sub_name and k.get('case') == case:
            return k
    return None


def main(prop_id, tier, seed, replay=None, limit=780, only=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vchk_%s_' % prop_id)
    from . import sut
    sut.prepare(scratch)
    try:
        try:
            subs = load_subs(prop_id)
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            traceback.print_exc()
            if any(os.path.abspath(f.filename).startswith(os.path.abspath(sut.SRC)) for f in frames):
                print('the code under test cannot be imported')
            return 2
        sut.silence()
        if only:
            subs = [s for s in subs if s.name in only]
        if replay:
            return _replay(prop_id, subs, replay)
        results = _run_tasks(prop_id, subs, tier, seed, scratch, limit)
        return _finish(prop_id, subs, tier, seed, results, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _replay(prop_id, subs, path):
    with open(path) as f:
        rec = json.load(f)
    sub = [s for s in subs if s.name == rec['sub']][0]
    cwd = os.getcwd()
    os.chdir(tempfile.tempdir)
    try:
        run_case(sub, rec['case'], Ctx())
    except Violation as e:
        print('replayed %s/%s: %s' % (prop_id, sub.name, e))
        print('VIOLATION property=%s replay=%s' % (prop_id, path))
        return 1
    finally:
        os.chdir(cwd)
    print('replayed %s/%s: property holds on this case' % (prop_id, sub.name))
    return 0


def _finish(prop_id, subs, tier, seed, results, t0):
    per, labels = {}, {}
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        h = set()
        for r in rs:
            h.update(r['hashes'])
        lab = {}
        for r in rs:
            for k, v in r['labels'].items():
                lab[k] = lab.get(k, 0) + v
        smp = [c for r in rs for c in r['samples']]
        # a few samples spread over the run
        step = max(1, len(smp) // 3)
        per[s.name] = {'evaluations': sum(r['evaluations'] for r in rs), 'distinct_nontrivial': len(h),
                       'labels': dict(sorted(lab.items())), 'rule': s.rule,
                       'samples': [clip(c) for c in smp[step // 2::step][:3]]}
    failures = [(r['sub'],) + tuple(r['failure']) for r in results if r['failure']]
    errors = [(r['sub'], r['error']) for r in results if r['error']]
    ev = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(v['evaluations'] for v in per.values()),
            'distinct_nontrivial': sum(v['distinct_nontrivial'] for v in per.values()),
            'rule': ' | '.join('%s: %s' % (k, v['rule']) for k, v in per.items()),
            'samples': [{'sub': k, 'case': c} for k, v in per.items() for c in v['samples'][:2]],
            'subs': per,
        },
        'assumptions': ['numpy, scipy, Pillow, lxml, jinja2 and matplotlib behave as documented'],
        'violations': len(failures),
        'wall_s': round(time.time() - t0, 3),
    }
    if errors:
        ev['coverage']['harness_errors'] = [e[1][-600:] for e in errors]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not os.environ.get('VERIF_NO_EVIDENCE'):
        path = os.path.join(HERE, 'evidence', '%s.json' % prop_id)
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(path + '.tmp', path)
    for k in known_findings(prop_id):
        if k.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (prop_id, k['what']))
    code = 0
    for sub, case, msg in failures:
        if _known(prop_id, sub, case):
            continue
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        name = '%s_%s_%s.json' % (prop_id, sub, hashlib.sha1(canon(case).encode()).hexdigest()[:10])
        rp = os.path.join(rdir, name)
        with open(rp, 'w') as f:
            json.dump({'property': prop_id, 'sub': sub, 'message': msg, 'case': case}, f, indent=1)
            f.write('\n')
        print('%s/%s: %s' % (prop_id, sub, msg))
        print('VIOLATION property=%s replay=%s' % (prop_id, os.path.relpath(rp, HERE)))
        code = 1
    if code == 0 and errors:
        for sub, e in errors:
            print('HARNESS ERROR in %s:\n%s' % (sub, e), file=sys.stderr)
        code = 2
    if code == 0:
        print('%s %s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
            prop_id, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return code
