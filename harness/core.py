"""Shared machinery of the checks: running TLC, replaying its behaviours, judging recorded traces, evidence.

Every check is `run(chk)` in `harness/checks/<id>.py`.  It obtains behaviours (or verdicts) from TLC, and binds them to the
real `kalepy` imported from /repo.
"""
import contextlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = (TIER == "thorough")


JIT = {"C01", "C02", "C04", "C06", "C07", "C13", "C14", "C29", "C30", "C31"}


class MachineryError(Exception):
    """Something in the checker itself (not in kalepy) failed: the check ends with exit status 2."""


class TLCResult:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        self.records = []
        self.prints = []
        self.generated = self.distinct = 0
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.records.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('"##'):
                self.prints.append(json.loads(line)[2:])
            elif " states generated" in line or "states checked" in line:
                import re
                mm = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", line)
                if mm:
                    self.generated = int(mm.group(1).replace(",", ""))
                    self.distinct = int(mm.group(2).replace(",", ""))
                mm = re.search(r"The number of states generated: ([\d,]+)", line)
                if mm:
                    self.generated = int(mm.group(1).replace(",", ""))
            if line.startswith("The number of states generated:"):
                self.generated = int(line.split(":")[1].replace(",", "").strip())


def _jvm_env():
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    return env


class Check:

    def __init__(self, prop):
        self.prop = prop
        self.seed = SEED
        self.tier = TIER
        self.thorough = THOROUGH
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.replayed = 0       # behaviours of the specification replayed in / judged against the implementation
        self.calls = 0          # individual comparisons between the specification and the implementation
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self._lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self._nv = 0
        self.level = "model_checking"
        self._known_keys = load_known(prop)

    # ------------------------------------------------------------------ sizes

    def n(self, quick, thorough=None):
        """Pick the number for the current tier."""
        if self.thorough:
            return thorough if thorough is not None else 8 * quick
        return quick

    # ------------------------------------------------------------------ TLC

    def tlc(self, module, constants=None, invariants=(), properties=(), init="Init", nxt="Next", simulate=None, depth=40,
            seed=None, env=None, timeout=600, workers=1, spec=None, postcondition=None, check=True, heap="3g",
            constraint=None):
        """Run TLC on `spec/<module>.tla`: exhaustively, or with `simulate=num` random behaviours."""
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        lines = []
        if spec:
            lines.append("SPECIFICATION %s" % spec)
        else:
            lines += ["INIT %s" % init, "NEXT %s" % nxt]
        # Constants may be arbitrary expressions, so they are defined in a module wrapped around the specification
        body = []
        for kk, vv in (constants or {}).items():
            body.append("mc_%s == %s" % (kk, tla(vv)))
            lines.append("CONSTANT %s <- mc_%s" % (kk, kk))
        for inv in invariants:
            lines.append("INVARIANT %s" % inv)
        for pp in properties:
            lines.append("PROPERTY %s" % pp)
        if constraint:
            lines.append("CONSTRAINT %s" % constraint)
        if postcondition:
            lines.append("POSTCONDITION %s" % postcondition)
        with open(os.path.join(work, "MC.tla"), "w") as ff:
            ff.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(body)))
        cfg = os.path.join(work, "run.cfg")
        with open(cfg, "w") as ff:
            ff.write("\n".join(lines) + "\n")
        cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m",
               "-Djava.io.tmpdir=" + work, "-DTLA-Library=" + SPEC,
               "-cp", JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar"), "tlc2.TLC",
               "-deadlock", "-nowarning", "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"),
               "-workers", str(workers), "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 1009 + (seed or 0))]
        cmd += [os.path.join(work, "MC.tla")]
        ee = _jvm_env()
        if env:
            ee.update({k: str(v) for k, v in env.items()})
        tt = time.time()
        try:
            pp = subprocess.run(cmd, cwd=work, env=ee, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = pp.stdout.decode("utf-8", "replace")
        if os.environ.get("VERIF_DEBUG"):
            print("  tlc %s %s seed %s: %.1f s" % (module, simulate, seed, time.time() - tt))
        res = TLCResult(out, pp.returncode, time.time() - tt)
        shutil.rmtree(work, ignore_errors=True)
        with self._lock:
            self.states += res.distinct or res.generated
            self.transitions += res.generated
        if check and pp.returncode != 0:
            lines = [ll for ll in out.splitlines() if not ll.startswith('"@@')]
            errs = [kk for kk, ll in enumerate(lines) if ll.startswith("Error")]
            tail = "\n".join(lines[errs[0]:errs[0] + 12] + ["..."] + lines[-40:] if errs else lines[-60:])
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, pp.returncode, tail))
        return res

    def tlc_many(self, jobs):
        """Run several `tlc(**kw)` concurrently: list of results, in order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=min(4, len(jobs))) as ex:
            futs = [ex.submit(self.tlc, **kw) for kw in jobs]
            return [ff.result() for ff in futs]

    def judge(self, module, trace, constants=None, env=None, what="", **kw):
        """Have TLC decide whether a recorded trace is a behaviour of trace specification `module`.

        The specification prints one verdict per event: '## OK <i>' or '## BAD <i> <clause>'; returns list of bad
        `(index, clause)`.
        """
        path = os.path.join(self.scratch, "trace-%d.json" % (time.time_ns()))
        with open(path, "w") as ff:
            json.dump(trace, ff)
        ee = {"TRACE": path}
        ee.update(env or {})
        res = self.tlc(module, constants=constants, env=ee, **kw)
        bads, oks = [], 0
        for pp in res.prints:
            ww = pp.split(" ", 2)
            if ww[0] == "OK":
                oks += 1
            elif ww[0] == "BAD":
                bads.append((int(ww[1]), ww[2] if len(ww) > 2 else "?"))
        if oks + len(bads) != len(trace):
            raise MachineryError("trace specification %s gave %d verdicts for %d events\n%s" % (
                module, oks + len(bads), len(trace), res.out[-3000:]))
        with self._lock:
            self.replayed += len(trace)
        return bads

    # ------------------------------------------------------------------ outcomes

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(_plain(obj))

    def violate(self, message, **info):
        key = info.pop("key", None)
        if key is not None and key in self._known_keys:
            self.known.append((key, message))
            return
        self._nv += 1
        if self._nv > 5:
            return
        dd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(dd, exist_ok=True)
        path = os.path.join(dd, "%s-%d.json" % (self.prop, self._nv))
        with open(path, "w") as ff:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "message": message,
                       "how": "VERIF_SEED=%d VERIF_TIER=%s /verif/check %s" % (self.seed, self.tier, self.prop),
                       "case": _plain(info)}, ff, indent=1, default=repr)
        self.violations.append((message, path))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + message[:600].replace("\n", "\n  "))
        sys.stdout.flush()

    @contextlib.contextmanager
    def case(self, what, limit=120, **info):
        """Everything kalepy does wrong within a case, including to raise or to hang, is a violation."""
        def _alarm(*args):
            raise TimeoutError("no answer within {} s".format(limit))
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        except MachineryError:
            raise
        except Mismatch as err:
            self.violate("%s: %s" % (what, err), **info)
        except Exception as err:
            tb = traceback.format_exc()
            self.violate("%s: raised %s: %s" % (what, type(err).__name__, err), traceback=tb, **info)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return

    @property
    def stop(self):
        return self._nv >= 5

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed, "comparisons_with_implementation": self.calls,
               "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": self._nv}
        dd = os.path.join(VERIF, "evidence")
        os.makedirs(dd, exist_ok=True)
        with open(os.path.join(dd, self.prop + ".json"), "w") as ff:
            json.dump(ev, ff, indent=1, default=repr)
        shutil.rmtree(self.scratch, ignore_errors=True)
        seen = set()
        for key, msg in self.known:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, key))
                seen.add(key)
        print("%s %s: %d states, %d transitions, %d behaviours/traces bound, %d comparisons, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.transitions, self.replayed, self.calls, self._nv,
            time.time() - self.t0))
        return 1 if self._nv else 0


class Mismatch(Exception):
    pass


def load_known(prop):
    keys = set()
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                keys.add(line.split("key=", 1)[1].split(" ", 1)[0])
    return keys


def _plain(obj):
    import numpy as np
    if isinstance(obj, dict):
        return {str(k): _plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        obj = list(obj)
        return [_plain(v) for v in (obj if len(obj) <= 200 else obj[:200] + ["..."])]
    if isinstance(obj, np.ndarray):
        return _plain(obj.tolist()) if obj.size <= 400 else "array%s %s..." % (obj.shape, obj.ravel()[:20].tolist())
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def tla(val):
    """Python value to TLA+ literal."""
    if isinstance(val, Raw):
        return val.text
    if isinstance(val, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in val.items()) + "]"
    if isinstance(val, bool):
        return "TRUE" if val else "FALSE"
    if isinstance(val, str):
        return '"%s"' % val
    if isinstance(val, int):
        return str(val)
    if isinstance(val, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(val, key=lambda vv: getattr(vv, "text", None) or str(vv))) + "}"
    if isinstance(val, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in val) + ">>"
    raise TypeError(val)


class Raw:
    def __init__(self, text):
        self.text = text


# ---------------------------------------------------------------------- comparisons

def close(chk, got, want, what, rtol=1e-9, atol=0.0, shape=True):
    """Raise `Mismatch` unless the arrays agree."""
    import numpy as np
    got = np.asarray(got)
    want = np.asarray(want)
    chk.calls += max(1, want.size)
    if shape and got.shape != want.shape:
        raise Mismatch("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    try:
        gg, ww = got.astype(float), want.astype(float)
    except (TypeError, ValueError):
        raise Mismatch("%s: not numeric: %r" % (what, got))
    bad = ~(np.abs(gg - ww) <= atol + rtol * np.abs(ww))
    bad &= ~((gg == ww))
    bad &= ~(np.isnan(gg) & np.isnan(ww))
    if np.any(bad):
        idx = tuple(np.argwhere(bad)[0]) if np.ndim(bad) else ()
        raise Mismatch("%s: got %r, specification says %r (at %s; %d of %d differ)" % (
            what, gg[idx].item(), ww[idx].item(), idx, np.count_nonzero(bad), bad.size))


def same(chk, got, want, what):
    import numpy as np
    chk.calls += 1
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        ok = np.shape(got) == np.shape(want) and np.array_equal(np.asarray(got), np.asarray(want))
    else:
        ok = (got == want)
    if not ok:
        raise Mismatch("%s: got %r, specification says %r" % (what, got, want))


def need(chk, cond, what):
    chk.calls += 1
    if not cond:
        raise Mismatch(what)


def main(argv):
    prop = argv[1]
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    chk = Check(prop)
    mpl = os.path.join(chk.scratch, "mpl")
    os.makedirs(mpl, exist_ok=True)
    os.environ["MPLCONFIGDIR"] = mpl
    # Compiling dominates: only some checks exercise the compiled evaluation, without optimisation
    os.environ["NUMBA_OPT"] = "0"
    if prop not in JIT:
        os.environ["NUMBA_DISABLE_JIT"] = "1"

    def _watchdog():
        time.sleep(820 if not chk.thorough else 36000)
        print("watchdog: check did not finish")
        sys.stdout.flush()
        os._exit(2)
    threading.Thread(target=_watchdog, daemon=True).start()

    try:
        import logging
        import kalepy
        logging.disable(logging.CRITICAL)
        if not kalepy.__file__.startswith("/repo/"):
            raise MachineryError("kalepy is imported from %s" % kalepy.__file__)
        import importlib
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(chk)
    except MachineryError as err:
        print("MACHINERY ERROR in check %s: %s" % (prop, err))
        if chk._nv:
            return chk.finish()
        shutil.rmtree(chk.scratch, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY ERROR in check %s" % prop)
        if chk._nv:
            return chk.finish()
        shutil.rmtree(chk.scratch, ignore_errors=True)
        return 2
    return chk.finish()
