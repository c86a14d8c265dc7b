"""Monitor core: event counting, verdicts, case execution.

A *case* is a small JSON-able dict that fully determines one execution of the
real code (workload kind + seed + parameters).  While it runs, the property's
monitors observe calls at the public boundary of lingam and evaluate oracles;
each evaluation is an event counted under the name of the monitor.
"""
import hashlib
import json
import os
import signal
import time
import traceback
import warnings

import numpy as np


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """raised by a monitor after a violation that makes going on pointless"""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, bool)) or o is None:
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"shape": list(o.shape), "head": jsonable(o.ravel()[:20], depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    return repr(o)[:300]


class Monitor:
    """Collects the events and verdicts of one case."""

    def __init__(self, prop, case):
        self.prop = prop
        self.case = case
        self.events = {}
        self.states = set()
        self.violations = []
        self.notes = {}
        self.skips = {}

    # -- verdicts ---------------------------------------------------------
    def check(self, name, ok, tag="", **detail):
        """one evaluation of monitor `name`; records a violation if not ok"""
        self.events[name] = self.events.get(name, 0) + 1
        if not bool(ok):
            if len(self.violations) < 20:
                self.violations.append(
                    {
                        "monitor": name,
                        "tag": tag,
                        "case": self.case,
                        "detail": jsonable(detail),
                    }
                )
            return False
        return True

    def close(self, name, got, want, rtol=1e-6, atol=1e-8, tag="", **detail):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        ok = got.shape == want.shape and np.allclose(
            got, want, rtol=rtol, atol=atol, equal_nan=True
        )
        if ok:
            return self.check(name, True)
        return self.check(name, False, tag=tag, got=got, want=want, **detail)

    def raises(self, name, exc, fn, tag="", **detail):
        """fn() has to be refused with one of the exception types exc"""
        try:
            r = fn()
        except exc:
            return self.check(name, True)
        except Exception as e:  # refused, but not in the promised way
            return self.check(
                name, False, tag=tag, raised=repr(e)[:300], expected=str(exc), **detail
            )
        return self.check(
            name, False, tag=tag, returned=repr(r)[:200], expected=str(exc), **detail
        )

    # -- bookkeeping --------------------------------------------------------
    def state(self, *parts):
        """fingerprint of an observed situation, to count distinct ones"""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(str(p.shape).encode())
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.states.add(h.hexdigest())

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def skip(self, name, n=1):
        """an oracle that could not decide (tie, degenerate input): inconclusive"""
        self.skips[name] = self.skips.get(name, 0) + n


def case_rng(case):
    h = hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode(), digest_size=8
    ).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, prop, case, limit):
    """run one case; returns a plain dict (crosses the process boundary)"""
    m = Monitor(prop, case)
    t0 = time.time()
    out = {"case": case, "timeout": False, "oom": False}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            rng = case_rng(case)
            # global generators are seeded per case so that a case is replayable
            np.random.seed(rng.randint(2**31 - 1))
            import random

            random.seed(int(rng.randint(2**31 - 1)))
            getattr(mod, "case_" + case["kind"])(m, rng, case)
    except StopCase:
        pass
    except CaseTimeout:
        out["timeout"] = True
    except MemoryError:
        out["oom"] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f"{f.filename}:{f.lineno} {f.name}" for f in tb]
        m.check(
            "no-unexpected-exception",
            False,
            tag=type(e).__name__,
            error=repr(e)[:500],
            frames=frames[-12:],
        )
    finally:
        signal.alarm(0)
    out.update(
        events=m.events,
        states=sorted(m.states),
        violations=m.violations,
        notes=m.notes,
        skips=m.skips,
        secs=time.time() - t0,
    )
    return out
