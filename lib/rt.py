"""Monitor runtime: runs the workloads of one property on the real code, counts
what the monitors observed and turns their verdicts into exit codes, VIOLATION
lines, replay files and the evidence file.

Verdicts are three-valued:
  exit 0  every monitor evaluation held (or only listed known findings failed)
  exit 1  at least one violation, each with a replay file
  exit 2  inconclusive (watchdog, resource problems, nothing observed)
"""
import collections
import ctypes
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The monitored property does not hold on an observed execution."""

    def __init__(self, msg, mech=None, info=None):
        Exception.__init__(self, msg)
        self.msg, self.mech, self.info = msg, mech, info or {}


class Watchdog(BaseException):
    pass


class Ctx(object):
    """Handed to every case: its random stream, and the recording of events."""

    def __init__(self, prop, workload, seed, index, tier):
        self.prop, self.workload, self.seed, self.index, self.tier = prop, workload, seed, index, tier
        key = "%s|%s|%d|%d" % (prop, workload, seed, index)
        self.rng = np.random.RandomState(zlib.crc32(key.encode()) & 0xFFFFFFFF)
        self.events = collections.Counter()
        self.signature = None
        self.desc = None
        self.info = {}

    def describe(self, **kw):
        """Facts about the case, shown in evidence samples and replay files."""
        self.info.update(kw)

    def sig(self, *parts):
        """Declares the case non-trivial and gives it its identity."""
        self.signature = "%08x" % (zlib.crc32(repr(parts).encode()) & 0xFFFFFFFF)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def fail(self, msg, mech=None, **info):
        raise Violation(msg, mech, info)

    def check(self, cond, msg, mech=None, **info):
        self.events["assertions"] += 1
        if not bool(cond):
            raise Violation(msg, mech, info)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, mech=None, scale=None):
        """got == want element-wise up to tolerance; NaN equals NaN."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.events["assertions"] += 1
        self.events["values_compared"] += want.size
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape), mech)
        if want.size == 0:
            return
        with np.errstate(all="ignore"):
            tol = atol + rtol * (np.abs(want) if scale is None else np.maximum(np.abs(want), scale))
            bad = ~((np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want)) | (got == want))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(
                "%s: %d of %d values differ, first at %s: observed %r, expected %r"
                % (what, int(bad.sum()), want.size, i, float(got[i]), float(want[i])),
                mech,
            )

    def same(self, got, want, what, mech=None):
        """Bit-for-bit equal (NaN equals NaN)."""
        got, want = np.asarray(got), np.asarray(want)
        self.events["assertions"] += 1
        self.events["values_compared"] += want.size
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape), mech)
        with np.errstate(all="ignore"):
            eq = got == want
        try:
            eq = eq | (np.isnan(got.astype(float)) & np.isnan(want.astype(float)))
        except (TypeError, ValueError):
            pass
        eq = np.asarray(eq)
        if not eq.all():
            i = tuple(int(k) for k in np.argwhere(~eq)[0])
            raise Violation(
                "%s: %d of %d values differ, first at %s: observed %r, expected %r"
                % (what, int((~eq).sum()), want.size, i, got[i], want[i]),
                mech,
            )

    def raises(self, f, what, exc=Exception, mech=None):
        self.events["assertions"] += 1
        self.events["rejections_expected"] += 1
        try:
            f()
        except exc as e:
            return e
        raise Violation("%s: no error was raised" % what, mech)


def _end_with_parent():
    """Workers of a check that is killed do not go on."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except (OSError, AttributeError):
        pass


def _alarm(signum, frame):
    raise Watchdog()


CASE_TIMEOUT = 240
_STATE = {}


def run_case(spec):
    """Runs one case; returns a plain dict."""
    prop, wname, seed, index, tier = spec
    fn = _STATE["workloads"][wname].fn
    ctx = Ctx(prop, wname, seed, index, tier)
    out = dict(workload=wname, index=index, status="held", msg=None, mech=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        np.random.seed(12345)
        with np.errstate(all="ignore"):
            fn(ctx)
    except Violation as v:
        out.update(status="violated", msg=v.msg, mech=v.mech, detail=v.info)
    except Watchdog:
        out.update(status="inconclusive", msg="watchdog after %d s" % CASE_TIMEOUT)
    except (MemoryError, OSError, KeyboardInterrupt) as e:
        out.update(status="inconclusive", msg="%s: %s" % (type(e).__name__, e))
    except Exception as e:
        # Either the code under test failed on legitimate input, or it returned
        # something the oracle cannot even interpret (wrong type or shape).
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        where = "%s:%s" % (os.path.relpath(inside[-1].filename, REPO), inside[-1].name) if inside else "oracle"
        out.update(
            status="violated",
            msg="%s in %s: %s" % (type(e).__name__, where, str(e)[:300]),
            mech=None,
            detail={"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.update(events=dict(ctx.events), sig=ctx.signature, info=ctx.info, wall=time.time() - t0)
    return out


def _run_chunk(chunk):
    res = []
    for spec in chunk:
        if time.time() > _STATE["deadline"] or _STATE["stop"].value:
            res.append(dict(workload=spec[1], index=spec[3], status="skipped", events={}, sig=None, info={}))
            continue
        r = run_case(spec)
        if r["status"] == "violated" and r.get("mech") not in _STATE["known"]:
            with _STATE["nviol"].get_lock():
                _STATE["nviol"].value += 1
                if _STATE["nviol"].value >= 6:
                    _STATE["stop"].value = 1
        res.append(r)
    return res


class Workload(object):
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 60 else "array%s" % (o.shape,)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)[:300]


def load_known():
    """known_findings.json: {"findings": [{property, mech, what}], "fixed": [...]}"""
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def main(prop, module, argv):
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode()) & 0x7FFFFFFF
    workloads = collections.OrderedDict((w.name, w) for w in module.WORKLOADS)
    known = {k["mech"]: k for k in load_known()["findings"] if k["property"] == prop}
    _STATE.update(workloads=workloads, known=set(known))

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        r = run_case((prop, rep["workload"], rep["seed"], rep["index"], rep["tier"]))
        print(json.dumps(jsonable(r), indent=1))
        return 1 if r["status"] == "violated" else 0

    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    specs = []
    for w in workloads.values():
        if only and w.name not in only:
            continue
        n = w.quick if tier == "quick" else w.thorough
        specs.extend((prop, w.name, seed, i, tier) for i in range(n))
    # interleave, so that a time cap or an early stop thins out all workloads alike
    order = sorted(range(len(specs)), key=lambda k: zlib.crc32(("%s%d" % (specs[k][1], specs[k][3])).encode()))
    specs = [specs[k] for k in order]
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 7200))
    nproc = int(os.environ.get("VERIF_PROCS", max(1, min(8, os.cpu_count() or 1))))
    nproc = min(nproc, max(1, len(specs)))
    if getattr(module, "WARMUP", None) is not None:
        try:
            module.WARMUP()
        except Exception as e:  # the cases decide what it means
            print("warm-up failed: %r" % (str(e)[:200],), file=sys.stderr)
    _STATE["deadline"] = t_start + budget
    _STATE["stop"] = multiprocessing.Value("i", 0)
    _STATE["nviol"] = multiprocessing.Value("i", 0)
    size = max(1, min(10, len(specs) // (nproc * 4)))
    chunks = [specs[i : i + size] for i in range(0, len(specs), size)]
    results = []
    if nproc == 1:
        for c in chunks:
            results.extend(_run_chunk(c))
    else:
        pool = multiprocessing.get_context("fork").Pool(nproc, initializer=_end_with_parent)
        limit = _STATE["deadline"] + (CASE_TIMEOUT if tier == "quick" else 2 * CASE_TIMEOUT)
        try:
            it = pool.imap_unordered(_run_chunk, chunks)
            last, left, found = time.time(), len(chunks), False
            # a case that hangs where no signal reaches it must not hide what the others found
            while left and time.time() < limit and not (found and time.time() - last > 120):
                try:
                    part = it.next(timeout=5)
                    results.extend(part)
                    last, left = time.time(), left - 1
                    found = found or any(r["status"] == "violated" and r.get("mech") not in _STATE["known"] for r in part)
                except multiprocessing.TimeoutError:
                    pass
            pool.terminate()
        finally:
            pool.join()
    results.sort(key=lambda r: (r["workload"], r["index"]))
    return report(prop, module, tier, seed, results, len(specs), known, t_start, only)


def report(prop, module, tier, seed, results, planned, known, t_start, only):
    events = collections.Counter()
    per_wl = collections.OrderedDict()
    sigs = set()
    samples = []
    viol, incon, skipped = [], [], 0
    found_known = {}
    for r in results:
        for k, v in r["events"].items():
            events[k] += v
        d = per_wl.setdefault(r["workload"], collections.Counter())
        d["cases"] += 1
        d[r["status"]] += 1
        if r["status"] == "skipped":
            skipped += 1
            continue
        if r["sig"] is not None:
            sigs.add((r["workload"], r["sig"]))
        if d["cases"] <= 2 and r["info"]:
            samples.append(dict(workload=r["workload"], index=r["index"], **jsonable(r["info"])))
        if r["status"] == "violated":
            if r.get("mech") in known:
                found_known.setdefault(r["mech"], r)
            else:
                viol.append(r)
        elif r["status"] == "inconclusive":
            incon.append(r)
    evaluated = len(results) - skipped
    level = getattr(module, "LEVEL", "exploration")
    cov = dict(
        evaluations=evaluated,
        distinct_nontrivial=len(sigs),
        rule=module.RULE,
        samples=samples[:12],
        observed_events=dict(sorted(events.items())),
        workloads={k: dict(v) for k, v in per_wl.items()},
        planned_cases=planned,
        skipped_by_time_cap_or_early_stop=skipped,
        inconclusive=len(incon),
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t_start, 2),
        violations=len(viol),
    )
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    if not only:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1)
    for mech, r in sorted(found_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[mech]["what"]))
    for mech in sorted(set(known) - set(found_known)):
        print("note: listed finding %s was not observed in this run" % mech)
    shown = set()
    for r in viol:
        key = (r["workload"], r["msg"].split(":")[0])
        if key in shown or len(shown) >= 5:
            continue
        shown.add(key)
        path = os.path.join(evdir, "replay", "%s-%s-%d-%d.json" % (prop, r["workload"], seed, r["index"]))
        with open(path, "w") as f:
            json.dump(
                jsonable(dict(property=prop, workload=r["workload"], index=r["index"], seed=seed, tier=tier,
                              message=r["msg"], detail=r.get("detail"), case=r["info"],
                              rerun="./check.sh %s --replay %s" % (prop, path))), f, indent=1)
        print("%s/%s case %d: %s" % (prop, r["workload"], r["index"], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print(
        "%s %s seed=%d: %d cases (%d distinct non-trivial), %d assertions, %d values compared, "
        "%d violations, %d inconclusive, %d skipped, %.1f s"
        % (prop, tier, seed, evaluated, len(sigs), events["assertions"], events["values_compared"],
           len(viol), len(incon), skipped, time.time() - t_start)
    )
    sys.stdout.flush()
    if viol:
        return 1
    for r in incon[:3]:
        print("inconclusive: %s case %d: %s" % (r["workload"], r["index"], r["msg"]))
    need = getattr(module, "MIN_EVENTS", {"assertions": 1})
    missing = [k for k, v in need.items() if events[k] < v]
    if not only and missing:
        print("inconclusive: monitors not reached: %s" % missing)
        return 2
    if incon and len(incon) > 0.02 * max(1, evaluated):
        return 2
    return 0
