"""Vocabulary of the checks: Violation, Sub (one executable sub-property),
Rec (per-case recorder) and helpers that run the code under test."""
import hashlib
import json
import os
import traceback

import numpy as np

from lib import env


class Violation(AssertionError):
    """The property does not hold for this case"""


class Skip(Exception):
    """The case is outside of the domain of the sub-property (counted)"""


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


class Rec(object):
    """What one case did: labels, whether it was non-trivial, known findings"""
    def __init__(self, listed=()):
        self.labels = []
        self.nontrivial = False
        self.known = []
        self.listed = set(listed)
        self.maxerr = 0.

    def label(self, *names):
        self.labels.extend(names)

    def hit(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def known_finding(self, fid, msg):
        """The observed failure is exactly the one described by finding `fid`:
        tolerated only if the committed file lists it"""
        if fid in self.listed:
            self.known.append(fid)
        else:
            raise Violation('%s: %s' % (fid, msg))


class Sub(object):
    def __init__(self, name, strategy, check, quick, thorough, examples=(), shards=8):
        self.name = name
        self.strategy = strategy      # callable: () -> hypothesis strategy
        self.check = check            # callable: (case, rec)
        self.quick = quick            # number of cases
        self.thorough = thorough
        self.examples = list(examples)
        self.shards = shards


def from_repo(exc):
    """True if the exception passed through a frame of the code under test"""
    root = os.path.realpath(env.REPO) + os.sep
    tb = exc.__traceback__
    for fr, _ in traceback.walk_tb(tb):
        fn = os.path.realpath(fr.f_code.co_filename)
        if fn.startswith(root):
            return True
    return False


def brief(exc):
    frames = [f for f in traceback.extract_tb(exc.__traceback__)]
    where = ''
    for f in frames:
        if os.path.realpath(f.filename).startswith(os.path.realpath(env.REPO) + os.sep):
            where = ' at %s:%d' % (os.path.relpath(f.filename, env.REPO), f.lineno)
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:300], where)


def call(what, fn, *args, **kwargs):
    """Call the code under test on an input it has to accept"""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s raised %s on a valid input' % (what, brief(exc)))


def rejects(what, exc_types, fn, *args, **kwargs):
    """The code under test has to raise one of exc_types"""
    try:
        out = fn(*args, **kwargs)
    except exc_types:
        return
    except Exception as exc:
        raise Violation('%s raised %s instead of %s' % (what, brief(exc),
            '/'.join(t.__name__ for t in exc_types)))
    raise Violation('%s was accepted (returned %s)' % (what, type(out).__name__))


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def as_matrix(what, K, n):
    """K as a float (n, n) array, or a Violation"""
    try:
        K = np.array(K, dtype=float)
    except Exception:
        raise Violation('%s is not a numeric matrix: %r' % (what, type(K)))
    ensure(K.shape == (n, n), '%s has shape %s, expected %s', what, K.shape, (n, n))
    ensure(np.isfinite(K).all(), '%s has non-finite entries', what)
    return K


def worst(K, Kref, S, tol):
    """Largest |K-Kref|/(tol*S) (entry-wise); S == 0 demands exact zeros up to
    the smallest scale of the matrix"""
    K = np.asarray(K, dtype=float)
    Kref = np.asarray(Kref, dtype=float)
    S = np.broadcast_to(np.asarray(S, dtype=float), Kref.shape)
    diff = np.abs(K - Kref)
    pos = S[S > 0]
    floor = pos.min()*1e-6 if pos.size else 1.
    q = diff/(tol*np.maximum(S, floor))
    k = int(np.argmax(q)) if q.size else 0
    idx = np.unravel_index(k, q.shape)
    return float(q[idx]), tuple(int(i) for i in idx)


def close(what, K, Kref, S, tol, rec=None):
    q, idx = worst(K, Kref, S, tol)
    if rec is not None:
        rec.maxerr = max(rec.maxerr, q)
    if not q <= 1.:
        raise Violation('%s: entry %s is %.17g, expected %.17g (tolerance exceeded %.3gx)' % (
            what, idx, np.asarray(K)[idx], np.asarray(Kref)[idx], q))
