"""Backups written by SaveLogger during training are complete, faithful and survive crashes and write errors."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from ..core import ROOT, Violation

PROPERTY = "P27"
LEVEL = "fault_enumeration"
RULE = ("one state per (learner, options, sequence of saves, fault point): the real SaveLogger runs in a process whose file "
        "operations are counted and interrupted at that point (process ends before it, after it or after a part of the "
        "written bytes; or the operation fails); the file is then loaded with SaveLogger.load and compared with the states "
        "given to the logger; further, one state per (learner, save_every, iterations) for complete training runs")
BOUNDS = ("every open, write, close, rename, unlink, truncate, sync and chmod of up to 3 saves of learners during real "
          "training; every write torn at 40 (quick) or 400 (thorough) positions and at its ends; errors ENOSPC, EIO, EACCES; "
          "one file or one file per iteration; with and without inference cache; save_every 1..5 and 0..8 iterations")
ASSUMPTIONS = ["the operating system survives: completed writes are not lost or reordered"]
LEARNERS = {"NSlackSSVM": {}, "OneSlackSSVM": dict(inference_cache=2), "FrankWolfeSSVM": dict(max_iter=4, check_dual_every=1, random_state=0),
            "SubgradientSSVM": dict(max_iter=4), "StructuredPerceptron": dict(max_iter=4, decay_exponent=-1)}


def build_shim(d):
    so = os.path.join(d, "crashfs.so")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(ROOT, "mc", "crashfs.c"), "-o", so, "-ldl"])
    return so


def crashes(ctx, learner, model, kw):
    d = tempfile.mkdtemp(prefix="verif_shim_")
    try:
        env = dict(os.environ, LD_PRELOAD=build_shim(d))
        sc = dict(kw, learner=learner, model=model, options=LEARNERS[learner])
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.crashserver", json.dumps(sc)], cwd=ROOT, env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        end = False
        for line in p.stdout:
            r = json.loads(line)
            if "end" in r:
                end = True
                continue
            with ctx.case(lambda: r["desc"]):
                ctx.did()
                ctx.check(r["msg"] is None, r["msg"], progress=r.get("progress"))
                ctx.outcome((r["desc"].get("fault"), r["desc"].get("kind"), r.get("progress")))
        err = p.stderr.read()
        p.wait()
        with ctx.case(lambda: sc):
            ctx.check(end and p.returncode == 0, "saving in a separate process failed: %s" % err[-600:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def data():
    from pystruct.models import MultiClassClf
    X, Y = np.array([[1., 0], [0, 1], [-1, 0], [1, 1], [-1, 1]]), np.array([0, 1, 2, 1, 0])
    return MultiClassClf(n_features=2, n_classes=3), X, Y


def runs(ctx, learner):
    """complete training runs with a SaveLogger: what is saved when, and nothing else changes"""
    import pystruct.learners as L
    from pystruct.utils import SaveLogger
    for n in range(0, 9):
        for every in (1, 2, 3, 5):
            for pat in ("m.pickle", "m%d.pickle", "it-%d"):
                d = tempfile.mkdtemp(prefix="verif_save_")
                try:
                    with ctx.case(lambda: dict(learner=learner, options=LEARNERS[learner], max_iter=n, save_every=every,
                                               file_name=pat)):
                        complete(ctx, L, SaveLogger, learner, n, every, pat, d)
                finally:
                    shutil.rmtree(d)


def complete(ctx, L, SaveLogger, learner, n, every, pat, d):
    kw = dict(LEARNERS[learner], max_iter=n)
    seen = []

    def track(l, it):
        seen.append((it, np.array(l.w), len(curve(l))))
    m, X, Y = data()
    ref = getattr(L, learner)(m, logger=track, **kw)
    ref.fit(X, Y)
    m, X, Y = data()
    lg = SaveLogger(os.path.join(d, pat), save_every=every)
    lr = getattr(L, learner)(m, logger=lg, **kw)
    lr.fit(X, Y)
    ctx.did(2)
    ctx.check(np.array_equal(lr.w, ref.w), "training with a SaveLogger gives other weights")
    its = [s[0] for s in seen if s[0] != "final" and s[0] % every == 0]
    files = sorted(os.listdir(d))
    if "%d" in pat:
        want = {pat.replace("%d", str(i)): i for i in its}
        extra = [f for f in files if f not in want]
        ctx.check(set(want) <= set(files) and len(extra) == 1, "files %r, expected those of the iterations %r and of the "
                  "final model" % (files, its))
        want[extra[0]] = "final"
    else:
        ctx.check(files == [pat], "files %r" % files)
        want = {pat: "final"}
    for f, it in want.items():
        s = [q for q in seen if q[0] == it][-1]
        back = SaveLogger(os.path.join(d, f)).load()
        ctx.check(np.array_equal(back.w, s[1]) and len(curve(back)) == s[2], "the model in %s is not that of "
                  "iteration %s" % (f, it))
        ctx.check(np.array_equal([np.ravel(y) for y in back.predict(X)],
                                 [np.ravel(q) for q in pred(m, X, s[1])]), "predictions of the loaded model")
        if it == "final":
            ctx.check(back.score(X, Y) == lr.score(X, Y), "score of the loaded model")
            if learner == "OneSlackSSVM":
                for l in (back, lr):
                    l.logger, l.max_iter = None, 200
                    l.fit(X, Y, warm_start=True)
                ctx.check(abs(back._objective(X, Y) - lr._objective(X, Y)) < 1e-2 * (1 + abs(lr._objective(X, Y))), "continuing the loaded model ends "
                          "elsewhere")
            ctx.check(type(back) is type(lr) and [repr(back.get_params(deep=False).get(q)) for q in ("C", "max_iter", "decay_exponent")] == [
                      repr(lr.get_params(deep=False).get(q)) for q in ("C", "max_iter", "decay_exponent")], "parameters of the "
                      "loaded model")
    ctx.outcome((n, every, pat, len(files)))


def curve(l):
    return l.objective_curve_ if hasattr(l, "objective_curve_") else l.loss_curve_


def pred(m, X, w):
    return [m.inference(x, w) for x in X]


def naming(ctx, pat):
    """calls with any iteration number: saved if and only if it is a multiple, under the name with that number, with the current state"""
    from pystruct.utils import SaveLogger
    import pystruct.learners as L
    m, X, Y = data()
    lr = L.StructuredPerceptron(m, max_iter=1)
    lr.fit(X, Y)
    for every in (1, 2, 3, 7, 10, 100):
        for it in list(range(0, 31)) + [49, 50, 98, 99, 100, 101, 110, 199, 200, 999, 1000, 1001, 1100, 9999, 10000, 12345, 99990, 100000, 1234567, "final"]:
            for np_ in (False, True) if it != "final" else (False,):
                d = tempfile.mkdtemp(prefix="verif_save_")
                try:
                    with ctx.case(lambda: dict(file_name=pat, save_every=every, iteration=it, numpy_integer=np_)):
                        lg = SaveLogger(os.path.join(d, pat), save_every=every)
                        lr.w = np.arange(lr.w.size) + (it if it != "final" else -1.)
                        lg(lr, np.int64(it) if np_ else it)
                        ctx.did()
                        want = [pat.replace("%d", str(it))] if it == "final" or it % every == 0 else []
                        ctx.check(os.listdir(d) == want, "files %r instead of %r" % (os.listdir(d), want))
                        if want:
                            back = SaveLogger(os.path.join(d, want[0])).load()
                            ctx.check(np.array_equal(back.w, lr.w), "another state was saved")
                        ctx.outcome((bool(want), it))
                finally:
                    shutil.rmtree(d)


class Bad(object):
    def __reduce__(self):
        raise RuntimeError("cannot be pickled")


def unpicklable(ctx):
    """a learner that cannot be pickled: the error is reported, the backup and the learner stay as they were"""
    import pystruct.learners as L
    from pystruct.utils import SaveLogger
    for learner in LEARNERS:
        for where in ("learner", "model"):
            for before in (False, True):
                d = tempfile.mkdtemp(prefix="verif_save_")
                try:
                    with ctx.case(lambda: dict(learner=learner, unpicklable=where, backup_exists=before)):
                        m, X, Y = data()
                        lr = getattr(L, learner)(m, **LEARNERS[learner])
                        lr.fit(X, Y)
                        lr.inference_cache_ = cache = [["c"]]
                        lg = SaveLogger(os.path.join(d, "m"))
                        if before:
                            lg.save(lr, lg.file_name)
                        (lr if where == "learner" else m).bad = Bad()
                        try:
                            lg.save(lr, lg.file_name)
                            ok = True
                        except RuntimeError:
                            ok = False
                        ctx.did()
                        ctx.check(not ok, "no error is reported")
                        ctx.check(lr.inference_cache_ is cache, "the learner lost its inference cache")
                        if before:
                            try:
                                back = lg.load()
                            except Exception as e:
                                raise Violation("the existing backup was destroyed (%s)" % type(e).__name__)
                            ctx.check(np.array_equal(back.w, lr.w), "the existing backup was changed")
                        else:
                            try:
                                lg.load()
                                ctx.check(False, "something was saved")
                            except (EOFError, IOError, OSError, pickle.UnpicklingError):
                                pass
                finally:
                    shutil.rmtree(d)


def shards(tier):
    Th = tier == "thorough"
    torn = 400 if Th else 40
    out = [("unpicklable", ())] + [("naming", (p,)) for p in ("m.pickle", "m%d.pickle", "%d", "a-%d-%d")]
    for learner in LEARNERS:
        out.append(("runs", (learner,)))
        for model in ("multi", "graph"):
            for kw in (dict(), dict(pattern="m%d.pickle"), dict(cache=3), dict(save_every=2, states=5)):
                out.append(("crashes", (learner, model, dict(kw, torn=torn))))
    return out
