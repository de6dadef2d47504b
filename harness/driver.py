"""Run one property's check: model checking + conformance, verdict, evidence."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")

import common                      # noqa: E402
from common import VERIF, Machinery, tlc  # noqa: E402
import registry                    # noqa: E402


class Ctx:
    """What a generator sees: tier, seed, scratch directory, record sink."""

    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.thorough = tier == "thorough"
        self.records = []
        self.extra_states = self.extra_transitions = 0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, salt, int(hashlib.sha1(self.pid.encode()).hexdigest()[:6], 16)])

    def add(self, rec):
        self.records.append(rec)

    def guard(self, label, fn, *a, **k):
        """Run one generator case.  If the code under test misbehaves so badly
        that the case cannot even be recorded, that is itself the record."""
        try:
            fn(*a, **k)
        except Machinery:
            raise
        except Exception as e:      # noqa
            self.add({"op": "crash", "case": label, "exc": type(e).__name__,
                      "trace": traceback.format_exc()[-1500:]})

    def tlc(self, *a, **k):
        r = tlc(*a, **k)
        self.extra_states += r.distinct
        self.extra_transitions += max(0, r.states - 1)
        return r


class HarnessTimeout(BaseException):
    pass


def _timeout(*_):
    raise HarnessTimeout()


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:3])
                if d.get("property") == pid:
                    out[d["key"]] = line.split(None, 3)[3].strip()
    return out


def clip(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    c = registry.CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix="qmix-%s-" % pid)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    if not c.get("jit", False):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    try:
        rc = run(pid, c, tier, seed, scratch, t0)
    except Machinery as e:
        print("MACHINERY FAILURE:", e)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, c, tier, seed, scratch, t0):
    ctx = Ctx(pid, tier, seed, scratch)

    # 1. design-level model checking, in the background
    mc_out = []

    def run_mc():
        for m in c.get("mc", []):
            module, quick_cfg, thorough_cfg = m
            cfg = thorough_cfg if ctx.thorough and thorough_cfg else quick_cfg
            if cfg is None:
                continue
            try:
                r = tlc(module, cfg, workers=4, timeout=3000 if ctx.thorough else 600, env={"TRACE": ""})
            except Machinery as e:
                mc_out.append((module, cfg, e))
                continue
            mc_out.append((module, cfg, r))
    th = threading.Thread(target=run_mc)
    th.start()

    # 2. drive the real code
    t1 = time.time()
    common.import_repo(c.get("jit", False), ctx)
    t2 = time.time()
    if not any(r["op"] == "crash" for r in ctx.records):
        limit = 2400 if ctx.thorough else 420
        signal.signal(signal.SIGALRM, _timeout)
        signal.alarm(limit)
        try:
            c["gen"](ctx)
        except HarnessTimeout:
            # the code under test does not come back: that is an outcome, too
            ctx.add({"op": "crash", "case": "timeout", "exc": "Timeout", "trace": "no result within %d s" % limit})
        except Machinery:
            raise
        except Exception as e:      # noqa: the code under test raised where it must not
            ctx.add({"op": "crash", "case": "generator", "exc": type(e).__name__, "trace": traceback.format_exc()[-1500:]})
        finally:
            signal.alarm(0)
    t3 = time.time()
    if not ctx.records:
        raise Machinery("no records generated")

    # 3. judge the records
    trace = os.path.join(scratch, "trace.ndjson")
    with open(trace, "w") as f:
        for r in ctx.records:
            f.write(json.dumps(r) + "\n")
    res = tlc(c["module"], c.get("cfg"), env={"TRACE": trace},
              workers=8, timeout=3400 if ctx.thorough else 800)
    th.join()
    t4 = time.time()
    if not res.finished:
        keep = os.path.join(EVID, "machinery-%s.txt" % pid)
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        open(keep, "w").write(res.out)
        raise Machinery("TLC did not finish on the trace: %s (see %s)\n%s" % (res.error, keep, res.out[-1500:]))
    if res.distinct != 2 * len(ctx.records):
        raise Machinery("TLC judged %d states for %d records" % (res.distinct, len(ctx.records)))

    states, transitions = res.distinct, res.distinct - len(ctx.records)
    mc_desc = []
    for module, cfg, r in mc_out:
        if isinstance(r, Exception):
            raise Machinery("%s/%s: %s" % (module, cfg, r))
        if not r.finished:
            raise Machinery("model checking %s/%s failed: %s\n%s" % (module, cfg, r.error, r.out[-1500:]))
        states += r.distinct
        transitions += r.states
        mc_desc.append({"module": module, "config": cfg, "distinct_states": r.distinct, "states_generated": r.states})
    states += ctx.extra_states
    transitions += ctx.extra_transitions

    # 4. verdict
    known = known_findings(pid)
    bad = []
    for line in sorted(res.fails):
        rec = ctx.records[line - 1]
        k = rec.get("key")
        if k is not None and k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        else:
            bad.append((line, rec, res.fails[line]))

    ops = {}
    for r in ctx.records:
        ops[r["op"]] = ops.get(r["op"], 0) + 1
    samples = []
    for op in ops:
        r = next(x for x in ctx.records if x["op"] == op)
        samples.append({"op": op, "record": clip(r)})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions,
                       "traces_validated_against_impl": len(ctx.records) - len(res.fails),
                       "records_by_operation": ops,
                       "models_checked": mc_desc,
                       "trace_specification": c["module"],
                       "samples": samples},
          "assumptions": c.get("assumptions", registry.COMMON_ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d records %s, %d states; import %.1fs gen %.1fs tlc %.1fs"
          % (pid, tier, seed, len(ctx.records), ops, states, t2 - t1, t3 - t2, t4 - t3))
    if bad:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.ndjson" % (pid, tier, seed))
        with open(path, "w") as f:
            for line, rec, names in bad:
                f.write(json.dumps({"line": line, "failing_clauses": names, "record": rec}) + "\n")
        for line, rec, names in bad[:8]:
            print("  line %d op=%s case=%s: %s" % (line, rec["op"], rec.get("case", ""), ", ".join(names)))
            if rec["op"] == "crash":
                print("   ", rec.get("exc"), rec.get("trace", "")[-400:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    main()
