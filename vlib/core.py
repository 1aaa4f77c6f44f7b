"""Monitors' bookkeeping: scenario registry, oracle checks, events, distinct states."""
import collections
import hashlib
import json
import os
import shutil
import tempfile

import numpy as np

REGISTRY = {}


class Stop(Exception):
    """Ends one execution early (the witness is already recorded)."""


def stable_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Scenario:
    def __init__(self, fn, quick, thorough, weight):
        self.fn, self.quick, self.thorough, self.weight = fn, quick, thorough, weight


class Spec:
    def __init__(self, pid, rule, required=(), level='exploration', assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.required, self.assumptions = list(required), list(assumptions)
        self.scenarios = {}
        REGISTRY[pid] = self

    def scenario(self, quick, thorough, weight=1):
        def deco(fn):
            self.scenarios[fn.__name__] = Scenario(fn, quick, thorough, weight)
            return fn
        return deco


def jsonable(o):
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size <= 60 else 'array%s %s...' % (o.shape, o.ravel()[:12].tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return str(o)


class Ctx:
    def __init__(self, pid, scenario, index, tier, seed):
        self.pid, self.scenario, self.index, self.tier = pid, scenario, index, tier
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.events = collections.Counter()
        self.states = set()
        self.nontrivial = set()
        self.checks = 0
        self.violations = []
        self.harness_errors = []
        self.sample = None
        self._dirs = []
        self._slots = {}
        self._keys = collections.Counter()
        self.context = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- inputs -------------------------------------------------------------
    def case(self, **kw):
        """Declare the input of this execution (used as sample, distinct count, witness)."""
        kw = jsonable(kw)
        self.context = kw
        if self.sample is None:
            self.sample = kw
        self.nontrivial.add(hashlib.md5((self.scenario + json.dumps(kw, sort_keys=True)).encode()).hexdigest()[:16])

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def many(self, small, p=.06):
        """A number of households: mostly few, now and then a district (more than a byte can count)."""
        if self.rng.random() < p:
            self.event('district')
            return int(self.rng.integers(260, 700))
        return int(self.rng.integers(1, small + 1))

    def counts(self, x, small=True, slot=None):
        """A copy of these counts (or of a dictionary of counts) in an integer type they may come in.

        With a slot (any hashable), it may be the array given before for the slot, refilled.
        """
        if isinstance(x, dict):
            return {k: self.counts(v, small, slot and (slot, k)) for k, v in x.items()}
        if slot:
            if slot not in self._slots:
                self._slots[slot] = self.counts(x, small) if self.rng.random() < .4 else None
                return self.counts(x, small) if self._slots[slot] is None else self._slots[slot]
            old = self._slots[slot]
            if old is not None and old.shape == np.shape(x) and (old.dtype.kind == 'f' or np.asarray(x).dtype.kind != 'f'):
                old[...] = x
                self.event('refilled_counts')
                return old
        if np.asarray(x).dtype.kind == 'f':
            return np.array(x)
        kinds = (int, int, np.int32, np.uint64, np.uint8, np.int16)[:6 if small else 4]
        kind = kinds[int(self.rng.integers(len(kinds)))]
        if kind is not int:
            self.event('narrow_counts')
        return np.array(x).astype(kind)

    def randint(self, lo, hi):
        """Inclusive bounds."""
        return int(self.rng.integers(lo, hi + 1))

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='x.', dir=os.environ['VERIF_WORK'])
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    # -- observations -------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def state(self, *parts):
        if len(self.states) < 20000:
            self.states.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    # -- verdicts -----------------------------------------------------------
    def violation(self, key, detail=''):
        self._keys[key] += 1
        if self._keys[key] <= 1:
            self.violations.append(dict(
                key=key, scenario=self.scenario, index=self.index,
                detail='%s | input: %s' % (detail, json.dumps(self.context)[:1500])))

    def check(self, cond, key, detail=''):
        self.checks += 1
        if not bool(cond):
            if callable(detail):
                detail = detail()
            self.violation('%s/%s' % (self.scenario, key), detail)
            return False
        return True

    def eq(self, got, want, key, detail=''):
        """Exact equality incl. shape (arrays) ; NaN equals NaN."""
        self.checks += 1
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and (
                np.array_equal(g, w) or
                (g.dtype.kind == 'f' and w.dtype.kind == 'f' and np.array_equal(g, w, equal_nan=True)))
        except Exception as e:
            ok, detail = False, '%s (comparison failed: %r)' % (detail, e)
        if not ok:
            self.violation('%s/%s' % (self.scenario, key),
                           '%s: got %s want %s' % (detail, jsonable(got), jsonable(want)))
        return ok

    def close(self, got, want, key, detail='', rtol=1e-6, atol=1e-9):
        self.checks += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except Exception as e:
            ok, detail = False, '%s (comparison failed: %r)' % (detail, e)
        if not ok:
            self.violation('%s/%s' % (self.scenario, key),
                           '%s: got %s want %s' % (detail, jsonable(got), jsonable(want)))
        return ok

    def finite(self, arr, key, detail=''):
        a = np.asarray(arr, dtype=float)
        return self.check(np.all(np.isfinite(a)), key, lambda: '%s: non finite %s' % (detail, jsonable(a)))

    def raises(self, exc, fn, key, detail=''):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.violation('%s/%s' % (self.scenario, key), '%s: raised %r instead of %s' % (detail, e, exc))
            return False
        self.violation('%s/%s' % (self.scenario, key), '%s: accepted, returned %s' % (detail, jsonable(r)))
        return False

    def result(self):
        return dict(scenario=self.scenario, index=self.index, events=dict(self.events),
                    states=sorted(self.states), nontrivial=sorted(self.nontrivial),
                    checks=self.checks, violations=self.violations,
                    harness_errors=self.harness_errors, sample=self.sample)
