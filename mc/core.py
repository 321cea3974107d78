"""Bounded exhaustive exploration: shards, cases, violations, evidence.

A check module defines
    PROPERTY, LEVEL, RULE, BOUNDS (text), ASSUMPTIONS (list)
    shards(tier) -> list of (function name, args)     # a partition of the bounded space
and module-level functions f(ctx, *args) that enumerate one part of the space:
    with ctx.case(desc):      # one execution of the real code; desc: dict or callable -> dict
        ...                   # ctx.check(cond, "message", **data); exceptions are violations
A violation may carry a `key`; keys listed in known_findings.json are reported as KNOWN-FINDING.
"""
import hashlib
import json
import mmap
import multiprocessing
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = float(os.environ.get("VERIF_HANG_S", "240"))   # one case without progress
FAST = float(os.environ.get("VERIF_FAST") or 0)         # developer option: seconds, stop at the first violation
MAX_VIOL = 1 if FAST else 3                              # per shard


class Violation(Exception):
    def __init__(self, msg, key=None, **data):
        Exception.__init__(self, msg)
        self.key, self.data = key, data


class StopShard(Exception):
    pass


class SkipCase(Exception):
    """The case is outside the property's preconditions."""


def jsonable(o, depth=0):
    if depth > 8:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return {"dtype": str(o.dtype), "shape": list(o.shape),
                "data": o.tolist() if o.size <= 400 else "<%d values>" % o.size}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:500]


class _Case(object):
    def __init__(self, ctx, desc, key):
        self.ctx, self.desc, self.key = ctx, desc, key

    def __enter__(self):
        self.ctx._begin(self.key)
        return self

    def __exit__(self, et, ev, tb):
        return self.ctx._end(self.desc, et, ev, tb)


class Ctx(object):
    def __init__(self, shard_id, seed, tier, counter=None, only=None):
        self.shard_id, self.seed, self.tier = shard_id, seed, tier
        self.counter, self.only = counter, only
        self.idx = 0
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.extra = {}
        self._sample_at = 1

    # -- enumeration -----------------------------------------------------------------
    def case(self, desc=None, key=None):
        return _Case(self, desc, key)

    def _begin(self, key):
        self.idx += 1
        if self.counter is not None:
            self.counter[0:8] = struct.pack("q", self.idx)
        if key is None:
            self.n_states += 1
        else:
            self.state(key)

    def state(self, key):
        """Record a canonical state; True if it is new."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def tick(self):
        """Progress inside one long case (keeps the hang detector quiet)."""
        self.idx += 1
        if self.counter is not None:
            self.counter[0:8] = struct.pack("q", self.idx)

    def did(self, n=1):
        self.transitions += n

    def outcome(self, o):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hashlib.blake2b(repr(o).encode(), digest_size=8).digest())

    def check(self, cond, msg, key=None, **data):
        if not cond:
            raise Violation(msg, key, **data)

    def _desc(self, desc):
        try:
            return jsonable(desc() if callable(desc) else desc)
        except Exception as e:  # the description must never hide the violation
            return "description failed: %r" % e

    def _end(self, desc, et, ev, tb):
        if et is None:
            self.traces += 1
            if self.idx >= self._sample_at and len(self.samples) < 3:
                self.samples.append({"shard": self.shard_id, "case": self.idx,
                                     "input": self._desc(desc)})
                self._sample_at = self.idx * 20 + 7
            return False
        if issubclass(et, SkipCase):
            self.skipped += 1
            return True
        if not issubclass(et, Exception) or issubclass(et, StopShard):
            if not issubclass(et, KeyboardInterrupt):
                return False
        v = {"shard": self.shard_id, "case": self.idx, "input": self._desc(desc),
             "key": getattr(ev, "key", None), "observed": jsonable(getattr(ev, "data", {}))}
        if issubclass(et, Violation):
            v["message"] = str(ev)
        else:
            v["message"] = "unexpected %s: %s" % (et.__name__, str(ev)[:300])
            v["traceback"] = traceback.format_exception(et, ev, tb)[-8:]
        self.add_violation(v)
        return True

    def add_violation(self, v):
        if v.get("key") and any(o.get("key") == v["key"] for o in self.violations):
            for o in self.violations:
                if o.get("key") == v["key"]:
                    o["count"] = o.get("count", 1) + 1
            return
        self.violations.append(v)
        if sum(1 for o in self.violations if o.get("key") not in KNOWN_KEYS) >= MAX_VIOL:
            raise StopShard()

    def result(self):
        return {"n_states": self.n_states, "states": self.states, "transitions": self.transitions,
                "traces": self.traces, "skipped": self.skipped, "samples": self.samples,
                "violations": self.violations, "outcomes": self.outcomes, "extra": self.extra,
                "done": True}


KNOWN_KEYS = set()


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop and e["status"] == "known":
                    out[e["key"]] = e
    return out


def run_shard(mod, shard_id, fn, args, seed, tier, counter=None, only=None):
    ctx = Ctx(shard_id, seed, tier, counter, only)
    try:
        getattr(mod, fn)(ctx, *args)
    except StopShard:
        pass
    return ctx.result()


def _child(mod, shard_id, fn, args, seed, tier, counter, wfd):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)     # joblib and the solvers report progress there
        try:
            res = run_shard(mod, shard_id, fn, args, seed, tier, counter)
        except BaseException as e:
            res = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
        data = pickle.dumps(res, -1)
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
        os.close(wfd)
    except BaseException:
        traceback.print_exc()
        code = 7
    finally:
        os._exit(code)


def _killpg(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


def explore(mod, shards, seed, tier, total_s):
    """Run every shard in its own forked process, a few at a time."""
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    todo = list(enumerate(shards))[::-1]
    running = {}
    results = [None] * len(shards)
    t0 = time.time()
    capped = False
    poller_files = {}
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < nproc and not capped:
            i, (fn, args) = todo.pop()
            counter = mmap.mmap(-1, 8)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(mod, i, fn, args, seed, tier, counter, w)
            os.close(w)
            running[r] = dict(i=i, pid=pid, counter=counter, buf=[], last=(0, time.time()),
                              fn=fn, args=args)
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            s = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                s["buf"].append(chunk)
                continue
            os.close(r)
            _, status = os.waitpid(s["pid"], 0)
            _killpg_children(s["pid"])
            del running[r]
            idx = struct.unpack("q", s["counter"][0:8])[0]
            try:
                results[s["i"]] = pickle.loads(b"".join(s["buf"]))
            except Exception:
                results[s["i"]] = {"crash": "the process running the code under test died "
                                   "(wait status %d) in case %d" % (status, idx), "case": idx}
        now = time.time()
        for r, s in list(running.items()):
            idx = struct.unpack("q", s["counter"][0:8])[0]
            if idx != s["last"][0]:
                s["last"] = (idx, now)
            elif now - s["last"][1] > HANG_S:
                _killpg(s["pid"])
                os.waitpid(s["pid"], 0)
                os.close(r)
                del running[r]
                results[s["i"]] = {"crash": "no progress for %d s in case %d (does not terminate)"
                                   % (HANG_S, idx), "case": idx}
        if FAST and any(v.get("key") not in KNOWN_KEYS for r in results if r
                        for v in r.get("violations", [{}] if "crash" in r else ())):
            total_s = 0
        if now - t0 > total_s and not capped:
            capped = True
            for r, s in list(running.items()):
                _killpg(s["pid"])
                os.waitpid(s["pid"], 0)
                os.close(r)
                results[s["i"]] = {"capped": True}
                del running[r]
            for i, _ in todo:
                results[i] = {"capped": True}
            todo = []
    return results, capped


def _killpg_children(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
