"""Shared machinery: run the code under test, project results, run TLC.

A check module (harness/c_*.py) supplies, per property id, a function
``generate(ctx)`` that drives the real code through its public API and yields
records; the TLA+ trace specification named by the check judges them.
"""
import io
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CLASSES = os.path.join(VERIF, "java", "classes")
TLA_JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


class Machinery(Exception):
    """The machinery (not the code under test) failed."""


# --- projection of values -------------------------------------------------

def F(x):
    """A double as [hi, lo], the signed halves of its bit pattern."""
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def C(z):
    z = complex(z)
    return [F(z.real), F(z.imag)]


def FS(a):
    import numpy as np
    a = np.ascontiguousarray(np.asarray(a, dtype=">f8").ravel())
    return np.frombuffer(a.tobytes(), dtype=">i4").reshape(-1, 2).tolist()


def CS(a):
    import numpy as np
    a = np.asarray(a, dtype=complex).ravel()
    re, im = FS(a.real), FS(a.imag)
    return [[x, y] for x, y in zip(re, im)]


def nest(a, shape, leaf):
    """Nested lists of ``shape`` out of the flat list ``leaf``."""
    for n in reversed(shape[1:]):
        leaf = [leaf[i:i + n] for i in range(0, len(leaf), n)]
    return leaf


def CN(a):
    import numpy as np
    a = np.asarray(a)
    return nest(a, a.shape, CS(a))


def FN(a):
    import numpy as np
    a = np.asarray(a)
    return nest(a, a.shape, FS(a))


def project(x):
    """Project whatever the code under test returned onto a record."""
    import numpy as np
    try:
        if isinstance(x, str):
            return {"ok": True, "kind": "str", "shape": [], "v": [x]}
        if x is None:
            return {"ok": True, "kind": "none", "shape": [], "v": []}
        a = np.asarray(x)
        if a.dtype.kind == "b":
            return {"ok": True, "kind": "b", "shape": list(a.shape), "v": [bool(t) for t in a.ravel()]}
        if a.dtype.kind in "iuf":
            return {"ok": True, "kind": "f", "shape": list(a.shape), "v": FS(a)}
        if a.dtype.kind == "c":
            return {"ok": True, "kind": "c", "shape": list(a.shape), "v": CS(a)}
    except Exception:
        pass
    return {"ok": True, "kind": "other", "shape": [], "v": [type(x).__name__]}


def failed(e):
    return {"ok": False, "exc": type(e).__name__, "kind": "exc", "shape": [], "v": []}


_sink = None


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints (including to fd-less stdout)."""
    with contextlib.redirect_stdout(io.StringIO()) as buf, contextlib.redirect_stderr(io.StringIO()):
        yield buf


def call(fn, *a, **k):
    """Projected outcome of a call; an exception is an outcome too."""
    try:
        with quiet():
            r = fn(*a, **k)
    except Exception as e:          # noqa: any exception of the code is data
        return failed(e)
    return project(r)


def call_raw(fn, *a, **k):
    """(result, None) or (None, exception)."""
    try:
        with quiet():
            return fn(*a, **k), None
    except Exception as e:
        return None, e


# --- TLC ------------------------------------------------------------------

def ensure_classes():
    want = [f for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java")]
    have = all(os.path.exists(os.path.join(CLASSES, f[:-5] + ".class")) for f in want)
    if have:
        return CLASSES
    out = os.path.join(tempfile.gettempdir(), "qmix-verif-classes")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-cp", TLA_JARS[0], "-d", out] +
                       [os.path.join(VERIF, "java", f) for f in want], capture_output=True, text=True)
    if p.returncode:
        raise Machinery("javac: " + p.stderr)
    return out


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.fails = {}
        for m in re.finditer(r'"FAIL\|(\d+)\|([^"]*)"', out):
            self.fails.setdefault(int(m.group(1)), []).extend(x for x in m.group(2).split(";") if x)
        self.states = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.states, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        self.finished = "Model checking completed. No error has been found." in out
        m = re.search(r"(Invariant \w+ is violated|Temporal properties were violated|Action property .* is violated|Error: .*)", out)
        self.error = m.group(1) if m else None


def tlc(module, cfg=None, env=None, workers=8, timeout=840, extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla; raises Machinery if TLC itself breaks."""
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap,
           "-cp", os.pathsep.join(TLA_JARS + [ensure_classes()]), "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout + p.stderr, p.returncode)


# --- importing the code under test ----------------------------------------

REPO = os.environ.get("QMIX_REPO", "/repo")


def import_repo(jit, ctx):
    """Import qmix from /repo's working tree.  A package that does not import
    is an outcome the specification rejects (op = crash)."""
    import warnings
    warnings.filterwarnings("ignore")
    sys.path.insert(0, REPO)
    import traceback
    try:
        with quiet():
            import qmix                                     # noqa
            import qmix.circuit, qmix.qtcurrent, qmix.harmonic_balance, qmix.respfn  # noqa
            import qmix.exp.clean_data, qmix.exp.iv_data, qmix.exp.if_data           # noqa
            import qmix.exp.if_response, qmix.exp.exp_data, qmix.exp.parameters      # noqa
            import qmix.mathfn.filters, qmix.mathfn.kktrans, qmix.mathfn.ivcurve_models  # noqa
    except Exception as e:
        ctx.add({"op": "crash", "case": "import", "exc": type(e).__name__, "trace": traceback.format_exc()[-1500:]})
        return
    if not os.path.abspath(qmix.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise Machinery("qmix imported from " + qmix.__file__)
    import numpy as np
    np.seterr(all="ignore")


def align(rng, z, p=.25):
    """Put some entries of a complex array exactly on an axis (phase 0, 90, 180, 270 degrees)."""
    import numpy as np
    z = np.array(z, dtype=complex)
    m = rng.random(z.shape) < p
    k = rng.integers(4, size=z.shape)
    a = np.abs(z)
    on = np.empty_like(z)
    on.real = np.select([k == 0, k == 2], [a, -a], 0.)
    on.imag = np.select([k == 1, k == 3], [a, -a], 0.)
    return np.where(m, on, z)


def holes(rng, z, p):
    """Zero some entries of a [tone, harmonic] array: independently, or in the patterns
    that a condition on part of the array would single out."""
    import numpy as np
    nf, np_ = z.shape[:2]
    k = rng.integers(8)
    if k == 0:
        z[rng.integers(nf)] = 0                  # a whole tone
    elif k == 1:
        z[:, rng.integers(np_)] = 0              # a whole harmonic
    elif k == 2:
        z[:, 0] = 0                              # all fundamentals
    elif k == 3:
        keep = (rng.integers(nf), rng.integers(np_))
        x = z[keep].copy() if hasattr(z[keep], "copy") else z[keep]
        z[:] = 0                                 # all but one
        z[keep] = x
    else:
        z[rng.random((nf, np_)) < p] = 0
    return z
