"""Runs the sub-properties of one property: Hypothesis drives every shard in a
forked process with a seed derived from VERIF_SEED, failures are shrunk to a
JSON case, which is the replay file."""
import collections
import importlib
import json
import multiprocessing
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from lib import env
from lib.core import (Rec, Skip, Violation, brief, canon, case_hash, from_repo)

KNOWN = os.path.join(env.VERIF, 'known_findings.txt')
SHRINK_BUDGET = {'quick': 45., 'thorough': 150.}
WALL_BUDGET = {'quick': 420., 'thorough': 5400.}
CASE_LIMIT = {'quick': 120., 'thorough': 600.}


def load_known(prop):
    """{finding id: text} of the findings listed for prop. Lines:
    KNOWN-FINDING: property=<id> finding=<fid> <what fails>
    fixed: property=<id> <commit> <what failed>        (suppresses nothing)
    """
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'KNOWN-FINDING: property=(\S+) finding=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    return out


NOT_FINISHED = 'not finished'


class TooLong(BaseException):
    pass


def too_long(signum, frame):
    raise TooLong()


def run_case(sub, case, listed, limit=CASE_LIMIT['thorough']):
    """Execute one case. Returns (rec, violation message or None, skipped)"""
    rec = Rec(listed)
    t = time.time()
    old = signal.signal(signal.SIGALRM, too_long)
    signal.setitimer(signal.ITIMER_REAL, limit, 5.)
    try:
        try:
            sub.check(json.loads(canon(case)), rec)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            rec.seconds = time.time() - t
    except TooLong:
        return rec, NOT_FINISHED + ' after %g s (cases of this kind take seconds at most)' % limit, False
    except Violation as exc:
        return rec, str(exc), False
    except Skip:
        return rec, None, True
    except Exception as exc:
        if from_repo(exc):
            return rec, 'unexpected %s' % brief(exc), False
        raise
    return rec, None, False


class _Fail(Exception):
    pass


def run_shard(sub, n, seed, tier, listed, deadline):
    hyp = env.import_hypothesis()
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.errors as he

    st = dict(evals=0, skipped=0, distinct=set(), labels=collections.Counter(),
              samples=[], known=collections.Counter(), failure=None, error=None,
              truncated=False, maxerr=0., longest=0., requested=n, nontrivial=0)
    failing = {}
    t_first = [None]
    best = [None]

    def one(case, replaying=False):
        h = case_hash(case)
        if h in failing:
            raise _Fail(failing[h])
        now = time.time()
        if t_first[0] is not None and now - t_first[0] > SHRINK_BUDGET[tier]:
            return
        if now > deadline:
            st['truncated'] = True
            return
        rec, msg, skipped = run_case(sub, case, listed, CASE_LIMIT[tier])
        st['evals'] += 1
        if skipped:
            st['skipped'] += 1
        for lab in rec.labels:
            st['labels'][lab] += 1
        for fid in set(rec.known):
            st['known'][fid] += 1
        st['maxerr'] = max(st['maxerr'], rec.maxerr)
        st['longest'] = max(st['longest'], rec.seconds)
        if rec.nontrivial and not skipped:
            if h not in st['distinct']:
                st['distinct'].add(h)
                if len(st['samples']) < 2 and len(canon(case)) < 1500:
                    st['samples'].append(case)
        if msg is not None:
            if t_first[0] is None:
                t_first[0] = now
            failing[h] = msg
            size = len(canon(case))
            if best[0] is None or size <= best[0][0]:
                best[0] = (size, case, msg)
            raise _Fail(msg)

    try:
        for case in sub.examples:
            one(case)
        if n > 0:
            @hyp.seed(seed)
            @settings(max_examples=n, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck))
            @given(sub.strategy())
            def test(case):
                one(case)
            test()
    except _Fail:
        pass
    except he.Flaky:
        pass
    except BaseException as exc:
        st['error'] = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
    if best[0] is not None:
        # smallest failing case seen; confirm it outside of Hypothesis
        _, case, msg = best[0]
        try:
            if msg.startswith(NOT_FINISHED):
                again = msg
            else:
                rec, again, _sk = run_case(sub, case, listed, CASE_LIMIT[tier])
        except Exception:
            again = None
        st['failure'] = dict(case=case, message=msg, reproduced=again is not None)
        st['error'] = None
    return st


def _worker(args):
    modname, subname, n, seed, tier, listed, deadline = args
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    d = tempfile.mkdtemp(prefix='verif-%s-' % modname.split('.')[-1])
    cwd = os.getcwd()
    os.chdir(d)
    try:
        st = run_shard(sub, n, seed, tier, listed, deadline)
    except BaseException as exc:
        st = dict(error=''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    st['sub'] = subname
    return st


def derive_seed(*parts):
    return zlib.crc32(repr(parts).encode()) & 0x7fffffff


def main(prop, tier, seed, only=None):
    t0 = time.time()
    modname = 'props.%s' % prop.lower()
    env.import_hypothesis()
    env.import_meshless()
    mod = importlib.import_module(modname)
    known = load_known(prop)
    env.DEEP = env.DEEP or tier == 'thorough'
    deadline = t0 + WALL_BUDGET[tier]
    factor = float(os.environ.get('VERIF_FACTOR', '2' if tier == 'quick' else '1'))
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        n = int(getattr(sub, tier)*factor)
        k = max(1, min(sub.shards, n))
        for i in range(k):
            m = n//k + (1 if i < n % k else 0)
            jobs.append((modname, sub.name, m, derive_seed(prop, sub.name, i, seed), tier,
                         tuple(known), deadline))
    ctx = multiprocessing.get_context('fork')
    nproc = min(len(jobs), int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1)))
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        results = pool.map(_worker, jobs, chunksize=1)

    errors = [r for r in results if r.get('error')]
    results = [r for r in results if not r.get('error')]
    per = collections.OrderedDict()
    for sub in mod.SUBS:
        rs = [r for r in results if r['sub'] == sub.name]
        if not rs:
            continue
        labels = collections.Counter()
        distinct = set()
        knownc = collections.Counter()
        for r in rs:
            labels.update(r['labels'])
            distinct |= r['distinct']
            knownc.update(r['known'])
        per[sub.name] = dict(
            requested=sum(r['requested'] for r in rs),
            evaluations=sum(r['evals'] for r in rs),
            outside_domain=sum(r['skipped'] for r in rs),
            distinct_nontrivial=len(distinct),
            labels=dict(sorted(labels.items())),
            known_findings=dict(knownc),
            max_error_over_tolerance=max(r['maxerr'] for r in rs),
            longest_case_s=round(max(r['longest'] for r in rs), 3),
            truncated_by_time=any(r['truncated'] for r in rs),
        )
    failures = []
    for sub in mod.SUBS:
        fs = [r['failure'] for r in results if r['sub'] == sub.name and r['failure']]
        if fs:
            fs.sort(key=lambda f: (not f['reproduced'], len(canon(f['case']))))
            failures.append((sub.name, fs[0]))

    samples = []
    for sub in mod.SUBS:
        for r in results:
            if r['sub'] == sub.name and r['samples']:
                samples.append(dict(sub=sub.name, case=r['samples'][0]))
                break
    cov = dict(
        evaluations=sum(p['evaluations'] for p in per.values()),
        distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
        rule=mod.RULE,
        samples=samples,
        per_sub_property=per,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    if errors:
        ev['harness_errors'] = [e['error'][-800:] for e in errors]
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=False)

    for name, p in per.items():
        print('%s %-28s cases=%d nontrivial=%d outside=%d maxerr=%.2g%s' % (prop, name,
            p['evaluations'], p['distinct_nontrivial'], p['outside_domain'],
            p['max_error_over_tolerance'], ' TRUNCATED' if p['truncated_by_time'] else ''))
    allknown = collections.Counter()
    for p in per.values():
        allknown.update(p['known_findings'])
    for fid, text in known.items():
        print('KNOWN-FINDING: property=%s %s: %s (%d cases of this run)' % (prop, fid, text, allknown[fid]))
    if failures:
        rdir = os.path.join(env.VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for name, f in failures:
            path = os.path.join(rdir, '%s-%s-%s.json' % (prop, name, case_hash(f['case'])[:10]))
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, sub=name, message=f['message'],
                               reproduced=f['reproduced'], case=f['case']), fh, indent=1)
            print('  %s: %s%s' % (name, f['message'], '' if f['reproduced'] else
                  ' [only within its history of cases]'))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR in %s:\n%s' % (e['sub'], e['error']), file=sys.stderr)
        return 2
    total = cov['evaluations']
    if total == 0 or any(p['distinct_nontrivial'] == 0 for p in per.values()):
        print('HARNESS ERROR: a sub-property explored nothing', file=sys.stderr)
        return 2
    print('%s held on %d cases (%d distinct non-trivial) in %.1f s' % (prop, total,
        cov['distinct_nontrivial'], time.time() - t0))
    return 0
