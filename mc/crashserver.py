"""Runs saves of real learners in forked processes that end, or whose file operations fail, at every point.

Started by the P27 check with LD_PRELOAD=crashfs.so; reads a scenario (JSON) on the command line and writes one JSON
line per explored point: {"desc": ..., "msg": null | text}."""
import ctypes
import json
import os
import pickle
import shutil
import sys
import tempfile

from . import ext

ERRNOS = {"ENOSPC": 28, "EIO": 5, "EACCES": 13}


def states_of(sc):
    """learners at successive moments of one training, as pickles (so that every one can be recreated)"""
    import numpy as np
    from pystruct import learners as L
    from . import table as T
    P = T.Problem(np.array([[[1., 0]], [[-1, 1]], [[1, 1]]]) * (1 + sc.get("big", 0)), [1.])
    from pystruct.models import MultiClassClf, GraphCRF
    rng = np.random.RandomState(0)
    if sc["model"] == "multi":
        m = MultiClassClf(n_features=2, n_classes=3)
        X, Y = np.array([[1., 0], [0, 1], [-1, 0], [1, 1]]), np.array([0, 1, 2, 1])
    else:
        m = GraphCRF(n_states=2, n_features=1, inference_method="max-product")
        X = [(np.array([[1.], [-1]]), np.array([[0, 1]])), (np.array([[0.], [2]]), np.array([[0, 1]]))]
        Y = [np.array([0, 1]), np.array([1, 1])]
    lr = getattr(L, sc["learner"])(m, **sc.get("options", {}))
    out = []

    def log(l, it):
        lg, l.logger = l.logger, None
        out.append((it, pickle.dumps(l, -1)))
        l.logger = lg
    lr.logger = log
    lr.fit(X, Y)
    return out


def view(lr):
    import numpy as np

    def canon(v):
        if isinstance(v, np.ndarray):
            return [str(v.dtype), list(v.shape), v.tolist()]
        if isinstance(v, (list, tuple)):
            return [canon(q) for q in v]
        if isinstance(v, dict):
            return {str(k): canon(q) for k, q in sorted(v.items(), key=lambda t: str(t[0]))}
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        if isinstance(v, np.generic):
            return v.item()
        if type(v).__module__.startswith("pystruct.models"):
            return [type(v).__name__, canon(v.__dict__)]
        return type(v).__name__
    return json.dumps({k: canon(v) for k, v in sorted(lr.__dict__.items()) if k not in ("inference_cache_", "logger",
                                                                                       "old_solution")})


class Unpicklable(object):
    def __reduce__(self):
        raise RuntimeError("cannot be pickled")


def save_all(states, d, lib, k, mode, prefix, report, pattern, save_every):
    from pystruct.utils import SaveLogger
    lg = SaveLogger(os.path.join(d, pattern), save_every=save_every)
    lib.crashfs_arm(d.encode(), k, mode, prefix)
    for i, (it, p) in enumerate(states):
        lr = pickle.loads(p)
        lr.logger = lg
        cache = getattr(lr, "inference_cache_", None)
        before = view(lr)
        try:
            lg(lr, it)
            report("ok %d" % i)
        except Exception as e:
            report("raised %d %s" % (i, type(e).__name__))
        if getattr(lr, "inference_cache_", None) is not cache or view(lr) != before:
            report("changed %d" % i)
    n = lib.crashfs_count()
    lib.crashfs_disarm()
    return n


def main():
    ext.setup()
    import pystruct.learners  # noqa
    from pystruct.utils import SaveLogger
    sc = json.loads(sys.argv[1])
    lib = ctypes.CDLL(None)
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    root = tempfile.mkdtemp(prefix="verif_crash_")
    try:
        # the interposition works
        d = tempfile.mkdtemp(dir=root)
        lib.crashfs_arm(d.encode(), 0, 0, 0)
        with open(os.path.join(d, "t"), "wb") as f:
            f.write(b"x")
        assert lib.crashfs_count() == 3, lib.crashfs_count()
        lib.crashfs_disarm()
        states = states_of(sc)[:sc.get("states", 3)]
        if sc.get("cache"):
            for q, (it, p) in enumerate(states):
                lr = pickle.loads(p)
                lr.inference_cache_ = [[("cached", q)] * sc["cache"]]
                states[q] = (it, pickle.dumps(lr, -1))
        explore(sc, states, lib, root, out, SaveLogger)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    out.write(json.dumps({"end": True}) + "\n")
    out.flush()


def explore(sc, states, lib, root, out, SaveLogger):
    views = [view(pickle.loads(p)) for _, p in states]
    pattern, every = sc.get("pattern", "m.pickle"), sc.get("save_every", 1)
    d = tempfile.mkdtemp(dir=root)
    log = []
    n = save_all(states, d, lib, 0, 0, 0, log.append, pattern, every)
    kinds = [chr(lib.crashfs_kind(i)) for i in range(n)]
    sizes = [lib.crashfs_size(i) for i in range(n)]

    def emit(desc, msg, **kw):
        out.write(json.dumps(dict(kw, desc=desc, msg=msg)) + "\n")
        out.flush()
    emit(dict(sc, point="no fault", operations="".join(kinds)), verdict(SaveLogger, d, pattern, states, views, log, None, every))
    shutil.rmtree(d)
    points = []
    for k in range(1, n + 1):
        points.append((k, 1, 0))
        if kinds[k - 1] == "w":
            s = sizes[k - 1]
            step = max(1, s // sc.get("torn", 40))
            points += [(k, 2, p) for p in sorted(set(list(range(1, s, step)) + [s - 1, s]))]
        else:
            points.append((k, 2, 0))
        points += [(k, 3, e) for e in ERRNOS.values()]
    for k, mode, prefix in points:
        d = tempfile.mkdtemp(dir=root)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                save_all(states, d, lib, k, mode, prefix, lambda m: os.write(w, (m + "\n").encode()), pattern, every)
            except BaseException as e:
                os.write(w, ("error %r\n" % e).encode())
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        log = data.decode().split("\n")[:-1]
        died = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77
        desc = dict(sc, operation=k, kind=kinds[k - 1], fault={1: "process ends before it", 2: "process ends after %d bytes"
                    % prefix if kinds[k - 1] == "w" else "process ends after it", 3: "fails with errno %d" % prefix}[mode])
        msg = None
        if mode < 3 and not died:
            msg = "the run is not reproducible: it did not reach the operation"
        else:
            msg = verdict(SaveLogger, d, pattern, states, views, log, mode, every)
        emit(desc, msg, progress=log)
        shutil.rmtree(d)


def verdict(SaveLogger, d, pattern, states, views, log, mode, every):
    ok = [int(l.split()[1]) for l in log if l.startswith("ok")]
    if any(l.startswith(("error", "changed")) for l in log):
        return "saving changed the learner" if any(l.startswith("changed") for l in log) else log[-1]
    if mode is None and len(ok) != len(states):
        return "saving failed without a fault: %r" % log
    due = [i for i, (it, _) in enumerate(states) if it == "final" or it % every == 0]
    done = [i for i in due if i in ok]
    begun = due[len([i for i in due if i in ok or any(l.startswith("raised %d " % i) for l in log)]):][:1] \
        if mode in (1, 2) else []
    many = "%d" in pattern
    files = sorted(os.listdir(d))
    if mode is None:
        want = sorted({pattern.replace("%d", str(states[i][0])) for i in due})
        if many:        # the name of the final model is not specified
            nums = [f for f in want if "final" not in f]
            if not set(nums) <= set(files) or len(files) != len(want):
                return "files %r, expected one per saved iteration (%r)" % (files, want)
        elif files != want:
            return "files %r, expected %r" % (files, want)
    for i in due if many else [None]:
        if many:
            if states[i][0] == "final":
                name = [f for f in files if f not in {pattern.replace("%d", str(it)) for it, _ in states if it != "final"}]
                if mode is None and len(name) != 1:
                    return "no file of the final model"
                if mode is not None:
                    continue
                name = name[0]
            else:
                name = pattern.replace("%d", str(states[i][0]))
            allowed = [i]
            must = i in ok
        else:
            name = pattern
            last = done[-1:] if not begun else done[-1:] + begun
            raised = [int(l.split()[1]) for l in log if l.startswith("raised")]
            # a save that reported an error may still have taken effect
            allowed = last + [q for q in raised if not done or q > done[-1]]
            must = bool(done)
        try:
            lr = SaveLogger(os.path.join(d, name)).load()
        except Exception as e:
            if must:
                return "the backup in %s cannot be loaded (%s: %s) although a save had completed" % (
                    name, type(e).__name__, str(e)[:80])
            continue
        v = view(lr)
        if getattr(lr, "inference_cache_", None):
            return "the inference cache was saved"
        if not any(v == views[q] for q in allowed):
            return "the loaded learner is not one of the saved states %r" % [states[q][0] for q in allowed]
    return None


if __name__ == "__main__":
    main()
