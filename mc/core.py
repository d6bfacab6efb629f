"""Bounded explicit-state explorer: case enumeration, lockstep comparison, counting, reporting.

A check module (``mc/checks/cNN.py``) provides

  ID, TITLE, BOUNDS (dict tier -> text), ASSUMPTIONS (list of text)
  cases(tier)          -> list of JSON-able cases, simplest first: the *complete* bounded space
  run(case, rec)       -> drives the real code through the case in lockstep with the reference model

``rec`` (a Recorder) counts what was really explored: distinct states (by canonical key), transitions
(one per call of the real code that was compared with the model), and traces (complete executions).
Every disagreement, and every exception out of a call the model says must succeed, is a violation.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

from mc import rng

MAX_FAILS_PER_WORKER = 3
CASE_CPU_LIMIT = 200        # seconds of CPU; exceeding it means the code does not terminate


class Violation(Exception):
    """The real code and the model disagree."""


class CaseTimeout(BaseException):
    """A case used more CPU than any terminating run could."""


def canon(obj):
    """Canonical bytes of a state or observation (arrays rounded to 10 significant digits)."""
    if isinstance(obj, bytes):
        return obj
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return b'[' + b','.join(canon(oo) for oo in obj) + b']'
        if np.issubdtype(obj.dtype, np.floating):
            obj = np.asarray(obj, dtype=float)
            with np.errstate(all='ignore'):
                txt = ' '.join('%.10g' % vv for vv in obj.ravel())
            return ('%s:%s' % (obj.shape, txt)).encode()
        return repr((obj.shape, obj.ravel().tolist())).encode()
    if isinstance(obj, (list, tuple)):
        return b'(' + b','.join(canon(oo) for oo in obj) + b')'
    if isinstance(obj, dict):
        return b'{' + b','.join(canon(kk) + b':' + canon(obj[kk]) for kk in sorted(obj, key=str)) + b'}'
    if isinstance(obj, (float, np.floating)):
        return ('%.10g' % obj).encode()
    return repr(obj).encode()


def digest(obj):
    return int.from_bytes(hashlib.blake2b(canon(obj), digest_size=8).digest(), 'little')


class Recorder:

    def __init__(self, check):
        self.check = check
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.fails = []
        self.notes = set()
        self.case = None
        self.sample = []

    # ---- counting

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, num=1):
        self.transitions += num

    def trace(self, num=1):
        self.traces += num

    def count(self, name, num=1):
        self.extra[name] = self.extra.get(name, 0) + num

    def note(self, text):
        self.notes.add(text)

    # ---- judging

    def fail(self, what, **detail):
        raise Violation(json.dumps(dict(what=what, **detail), default=_default))

    def require(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)

    def close(self, got, want, what, rtol=1e-8, atol=0.0, **detail):
        """Require `got` to have the same shape and values as the model's `want`."""
        self.step()
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + ': wrong shape', got_shape=got.shape, want_shape=want.shape, **detail)
        if got.dtype == object:
            got = got.astype(float)
        good = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(good):
            idx = np.argwhere(~good)[0] if got.ndim else ()
            idx = tuple(int(ii) for ii in idx)
            self.fail(what, index=idx, got=float(got[idx]), want=float(want[idx]),
                      bad=int(np.count_nonzero(~good)), of=int(good.size), **detail)

    def equal(self, got, want, what, **detail):
        self.step()
        if canon(got) != canon(want):
            self.fail(what, got=repr(got)[:300], want=repr(want)[:300], **detail)

    def raises(self, excs, func, what, **detail):
        """Require the call to be rejected with one of `excs`."""
        self.step()
        try:
            val = func()
        except excs:
            return
        except Exception as err:
            self.fail(what + ': rejected with the wrong exception', got=repr(err)[:300], **detail)
        self.fail(what + ': accepted', got=repr(val)[:300], **detail)


def _default(obj):
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, (np.floating, np.integer, np.bool_)):
        return obj.item()
    return repr(obj)


def _alarm(*args):
    raise CaseTimeout()


def run_case(mod, case, rec):
    """Run one case; returns None or a failure dict."""
    import warnings
    rec.case = case
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                mod.run(case, rec)
        return None
    except Violation as err:
        detail = json.loads(str(err))
    except CaseTimeout:
        detail = dict(what='no termination within {} s of CPU'.format(CASE_CPU_LIMIT))
    except rng.Uncontrolled as err:
        rec.note('randomness not modelled: {}'.format(err))
        return None
    except Exception as err:
        detail = dict(what='call failed: ' + repr(err)[:300], traceback=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(case=case, detail=detail)


def _worker(mod, cases, wid, nproc, path, deadline):
    rec = Recorder(mod)
    done = 0
    capped = False
    for ii in range(wid, len(cases), nproc):
        if time.time() > deadline:
            capped = True
            break
        bad = run_case(mod, cases[ii], rec)
        done += 1
        if bad is not None:
            bad['index'] = ii
            rec.fails.append(bad)
            if len(rec.fails) >= MAX_FAILS_PER_WORKER:
                break
    out = dict(states=np.array(sorted(rec.states), dtype=np.uint64), transitions=rec.transitions,
               traces=rec.traces, extra=rec.extra, fails=rec.fails, notes=sorted(rec.notes), done=done,
               capped=capped, sample=rec.sample)
    import pickle
    with open(path + '.tmp', 'wb') as ff:
        pickle.dump(out, ff)
    os.replace(path + '.tmp', path)


def explore(mod, tier, jobs, budget):
    """Enumerate every case of the bounded space, over forked workers."""
    import pickle
    import tempfile
    import shutil
    cases = list(mod.cases(tier))
    jobs = max(1, min(jobs, len(cases)))
    tmp = tempfile.mkdtemp(prefix='mc-explore.')
    deadline = time.time() + budget
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(jobs):
        path = os.path.join(tmp, str(wid))
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                _worker(mod, cases, wid, jobs, path, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = path

    results, dead = [], []
    hard = deadline + 60
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard:
                for pp in pids:
                    os.kill(pp, signal.SIGKILL)
                    os.waitpid(pp, 0)
                    dead.append('worker still running {} s past its deadline'.format(60))
                pids = {}
                break
            time.sleep(0.02)
            continue
        if pid not in pids:
            continue
        path = pids.pop(pid)
        if status == 0 and os.path.exists(path):
            with open(path, 'rb') as ff:
                results.append(pickle.load(ff))
        else:
            dead.append('worker ended with status {}'.format(status))
    shutil.rmtree(tmp, ignore_errors=True)

    tot = dict(cases=len(cases), done=0, transitions=0, traces=0, extra={}, fails=[], notes=set(),
               capped=False, dead=dead)
    states = [np.zeros(0, dtype=np.uint64)]
    for res in results:
        states.append(res['states'])
        tot['done'] += res['done']
        tot['transitions'] += res['transitions']
        tot['traces'] += res['traces']
        tot['fails'].extend(res['fails'])
        tot['notes'].update(res['notes'])
        tot['capped'] |= res['capped']
        for kk, vv in res['extra'].items():
            tot['extra'][kk] = tot['extra'].get(kk, 0) + vv
    tot['states'] = int(np.unique(np.concatenate(states)).size)
    tot['fails'].sort(key=lambda bb: bb['index'])
    picks = sorted(set([0, len(cases)//3, (2*len(cases))//3, len(cases)-1]))
    tot['samples'] = [cases[ii] for ii in picks]
    return tot
