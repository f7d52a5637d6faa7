"""Shared by all harness scripts (run on the project's interpreter, import the code from /repo)."""
import sys, os, json, random, signal, traceback, types, logging, io

REPO = os.environ.get("EVOGIL_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
_real_stdout = sys.stdout


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet():
    sys.stdout = _Null()


def stub_scipy():
    """scipy is not installed here; NSLS needs only scipy.spatial.distance.euclidean."""
    try:
        import scipy.spatial.distance  # noqa
        return
    except Exception:
        pass
    import math
    sc, sp, di = types.ModuleType("scipy"), types.ModuleType("scipy.spatial"), types.ModuleType("scipy.spatial.distance")
    di.euclidean = lambda u, v: math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    sp.distance = di
    sc.spatial = sp
    sys.modules.update({"scipy": sc, "scipy.spatial": sp, "scipy.spatial.distance": di})


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout("scenario exceeded its time limit")


def seed_all(key):
    random.seed(key)
    try:
        import numpy
        numpy.random.seed(random.getrandbits(31))
    except Exception:
        pass


def run_main(fn, limit=60):
    """fn(scenario) -> trace dict {id,cfg,ev}.  Any exception becomes an `exc` event."""
    inp, outp = sys.argv[1], sys.argv[2]
    quiet()
    signal.signal(signal.SIGALRM, _alarm)
    hung = 0
    with open(inp) as f, open(outp, "w") as g:
        for line in f:
            if hung >= 2:       # decided already; do not wait for the rest
                break
            sc = json.loads(line)
            tr = {"id": sc.get("id", "?"), "cfg": {}, "ev": []}
            seed_all("%s-%s" % (os.environ.get("HARNESS_SEED", "1"), sc.get("id")))
            signal.alarm(sc.get("limit", limit))
            try:
                r = fn(sc, tr)
                if r is not None:
                    tr = r
            except Timeout as e:
                tr["ev"].append({"k": "exc", "msg": "timeout: " + str(e)})
                hung += 1
            except Exception as e:
                tr["ev"].append({"k": "exc", "msg": (type(e).__name__ + ": " + str(e))[:300],
                                 "tb": traceback.format_exc()[-700:]})
            finally:
                signal.alarm(0)
            tr.setdefault("scenario", sc)
            g.write(json.dumps(tr) + "\n")
            g.flush()


class Ids:
    """maps values to small integers by equality of a key"""

    def __init__(self):
        self.d = {}

    def __call__(self, key):
        if key not in self.d:
            self.d[key] = len(self.d) + 1
        return self.d[key]


def vec_key(v):
    return tuple(float(x) for x in v)


def ranks(rows):
    """order-preserving compression of objective vectors: per objective, value -> rank"""
    rows = [list(map(float, r)) for r in rows]
    if not rows:
        return []
    m = len(rows[0])
    maps = []
    for j in range(m):
        vals = sorted(set(r[j] for r in rows))
        maps.append({v: i for i, v in enumerate(vals)})
    return [[maps[j][r[j]] for j in range(m)] for r in rows]
