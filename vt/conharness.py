"""Concrete side of the contract harness: runs the same contract on the real code (CPython + numpy).

usage: conharness.py JOB.json OUT.json     (run with /opt/venv/bin/python)"""
import sys, os, json, time, traceback, copy, zlib, warnings, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VT_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

np.seterr(all="ignore")
from vt import api


class Skip(Exception):
    """precondition not met by the sampled input"""


class Violated(Exception):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail
        Exception.__init__(self, "%s: %s" % (label, detail))


class CallTimeout(Exception):
    pass


class Logical:
    pass


def resolve(qual):
    import importlib
    parts = qual.split(".")
    for k in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ModuleNotFoundError:
            continue
        for p in parts[k:]:
            o = getattr(o, p)
        return o
    raise ImportError(qual)


class ConS:
    symbolic = False
    tol = 1e-9

    def __init__(self, contract, case, seed, overrides=None, size=None):
        self.contract, self.case = contract, case
        self.rng = np.random.default_rng(seed)
        np.random.seed(seed % (2 ** 31))
        self.ov = overrides or {}
        self.np = np
        self.pi = np.pi
        self.used = {}
        self.checks = 0
        self.labels = set()
        self.hooks = {}
        self.size = size
        self.seed = seed
        # style of the sampled data
        self.style = int(self.rng.integers(0, 4))

    # ---- inputs
    def _rec(self, k, v):
        self.used[k] = v
        return v

    def _chk(self, v, pos=False, lo=None, hi=None, nonneg=False):
        """replayed inputs have to meet the declared ranges"""
        v = np.asarray(v)
        if (pos and not np.all(v > 0)) or (nonneg and not np.all(v >= 0)) or (lo is not None and not np.all(v >= lo)) \
                or (hi is not None and not np.all(v <= hi)):
            raise Skip()

    def real(self, name, pos=False, lo=None, hi=None, nonneg=False, gen=None):
        if name in self.ov and isinstance(self.ov[name], (int, float)):
            self._chk(self.ov[name], pos, lo, hi, nonneg)
            return self._rec(name, float(self.ov[name]))
        if gen is not None:
            return self._rec(name, float(gen(self.rng)))
        if lo is not None and hi is not None:
            v = self.rng.uniform(lo, hi)
        elif pos:
            v = float(np.exp(self.rng.normal(0, 1)))
            if lo is not None:
                v += lo
        elif nonneg:
            v = abs(self.rng.normal(0, 2))
        elif lo is not None:
            v = lo + abs(self.rng.normal(0, 2))
        elif hi is not None:
            v = hi - abs(self.rng.normal(0, 2))
        else:
            v = self.rng.normal(0, 3)
        return self._rec(name, float(v))

    def int(self, name, lo=None, hi=None, gen=None):
        if name in self.ov and isinstance(self.ov[name], int):
            self._chk(self.ov[name], False, lo, hi)
            return self._rec(name, int(self.ov[name]))
        if gen is not None:
            return self._rec(name, int(gen(self.rng)))
        lo_ = 0 if lo is None else lo
        if self.size is not None and hi is None:
            return self._rec(name, max(lo_, self.size))
        hi_ = hi if hi is not None else lo_ + int(self.rng.choice([1, 2, 3, 8, 20, 60]))
        return self._rec(name, int(self.rng.integers(lo_, hi_ + 1)))

    def bool(self, name):
        if name in self.ov and isinstance(self.ov[name], bool):
            return self._rec(name, self.ov[name])
        return self._rec(name, bool(self.rng.integers(0, 2)))

    def arr(self, name, n, pos=False, dt="f", lo=None, hi=None, nonneg=False, gen=None, increasing=False, scale=None):
        n = int(n)
        if name in self.ov and isinstance(self.ov[name], list) and len(self.ov[name]) >= n and None not in self.ov[name]:
            a = np.array(self.ov[name][:n])
            a = a.astype({"f": float, "i": int, "b": bool}[dt])
            self._chk(a, pos, lo, hi, nonneg)
            if increasing and not np.all(np.diff(a) > 0):
                raise Skip()
            return self._rec(name, a)
        if gen is not None:
            a = np.array(gen(self.rng, n), dtype={"f": float, "i": int, "b": bool}[dt])
            return self._rec(name, a)
        r = self.rng
        if dt == "b":
            a = r.integers(0, 2, n).astype(bool)
            k = r.integers(0, 6)
            if k == 0:
                a[:] = True
            elif k == 1:
                a[:] = False
        elif dt == "i":
            a = r.integers(0 if lo is None else lo, (12 if hi is None else hi) + 1, n)
        elif lo is not None and hi is not None:
            a = r.uniform(lo, hi, n)
        elif pos:
            a = np.exp(r.normal(0, 1, n))
            if self.style == 1:
                a = np.round(a, 1) + 0.1
        elif nonneg:
            a = np.abs(r.normal(0, 2, n))
            if self.style == 1 and n > 2:
                a = np.round(a)
        else:
            a = r.normal(0, 2, n)
            if self.style == 1 and n > 2:
                a = np.round(a * 2) / 2
            if self.style == 2 and n > 3:
                a *= np.exp(r.normal(0, 1.5, n))
        if increasing:
            a = np.cumsum(np.abs(a) + 1e-3)
        return self._rec(name, a)

    def const(self, x):
        return float(x)
    q = const

    # ---- cluster
    def cluster(self, prefix="", units="pckms", origin="cluster", n=None, gen=None, **attrs):
        C = resolve("clustertools.cluster.cluster.StarCluster")
        p = prefix
        c = C(units=units, origin=origin)
        n = self.int(p + "n", lo=1) if n is None else int(n)
        for k in ("x", "y", "z", "vx", "vy", "vz"):
            setattr(c, k, self.arr(p + k, n))
        c.m = self.arr(p + "m", n, pos=True)
        ids = self.arr(p + "id", n, dt="i", gen=lambda r, k: r.permutation(k * 2 + 3)[:k])
        c.id = ids
        c.kw = self.arr(p + "kw", n, dt="i", lo=0, hi=15)
        c.npop = self.arr(p + "npop", n, dt="i", lo=1, hi=2)
        c.m0 = self.arr(p + "m0", n, pos=True)
        c.nb = 0
        c.ntot = n
        c.ns = n
        c.tphys = self.real(p + "tphys")
        for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"):
            setattr(c, k, self.real(p + k))
        for k in ("zmbar", "rbar", "vbar", "tbar", "rbar_su", "rbar_au", "tbar_days"):
            setattr(c, k, self.real(p + k, pos=True))
        c._ro = self.real(p + "ro", gen=lambda r: r.uniform(7, 9))
        c._vo = self.real(p + "vo", gen=lambda r: r.uniform(200, 250))
        c._zo = self.real(p + "zo", gen=lambda r: r.uniform(0, 0.03))
        c._solarmotion = np.array([self.real(p + "sm%d" % i, gen=lambda r: r.uniform(-20, 20)) for i in range(3)])
        for k in ("r", "v", "rpro", "vpro"):
            setattr(c, k, self.arr(p + "der_" + k, n))
        for k in ("mtot", "mmean", "rmean", "rmax", "rm", "r10", "rmpro", "r10pro"):
            setattr(c, k, self.real(p + "der_" + k))
        for k, v in attrs.items():
            setattr(c, k, v)
        return c

    def order(self, c, prefix=""):
        n = int(c.ntot)
        c.rorder = self.rng.permutation(n)
        c.rproorder = self.rng.permutation(n)

    def snap(self, c):
        class Old:
            pass
        o = Old()
        for k, v in c.__dict__.items():
            if isinstance(v, (np.ndarray, list)):
                v = copy.copy(v)
            o.__dict__[k] = v
        return o

    # ---- logic
    def require(self, c):
        if not bool(c):
            raise Skip()

    def require_each(self, a):
        if not np.all(a):
            raise Skip()

    def require_pairs(self, name, n, f):
        k = np.arange(int(n))
        ok = np.broadcast_to(f(k[:, None], k[None, :]), (len(k), len(k)))
        if not bool(np.all(ok | np.eye(len(k), dtype=bool))):
            raise Skip()

    def ensure(self, label, c):
        self.checks += 1
        self.labels.add(label)
        ok = np.all(c)
        if not bool(ok):
            raise Violated(label, "condition is false")

    def eq(self, label, a, b, rtol=1e-6, atol=None):
        self.checks += 1
        self.labels.add(label)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and any(not np.isscalar(x) for x in list(a) + list(b)):
            if len(a) != len(b):
                raise Violated(label, "length %d != %d" % (len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (label, i), x, y, rtol, atol)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or (isinstance(a, str) and isinstance(b, str) and a == b)):
                raise Violated(label, "%r != %r" % (a, b))
            return
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.dtype == object or y.dtype == object:
                if a is not b and not (x.shape == y.shape and np.all(x == y)):
                    raise Violated(label, "%r != %r" % (a, b))
                return
            if x.shape != y.shape:
                if x.size == 1 and y.size == 1:
                    x, y = x.reshape(()), y.reshape(())
                else:
                    raise Violated(label, "shape %s != %s" % (x.shape, y.shape))
            if x.size == 0:
                return
            x = x.astype(float)
            y = y.astype(float)
        except (TypeError, ValueError):
            if a is not b:
                raise Violated(label, "%r != %r" % (a, b))
            return
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.all(fx | ~fy):
            raise Violated(label, "non-finite %s expected %s" % (short(x), short(y)))
        if not np.all(fy):
            # expected value not finite: outside the real-arithmetic reading of the contract
            x, y = x[fy], y[fy]
            if x.size == 0:
                return
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)))
        at = 1e-9 * sc + 1e-300 if atol is None else atol
        bad = ~(np.abs(x - y) <= at + rtol * np.abs(y))
        if np.any(bad):
            raise Violated(label, "got %s expected %s" % (short(x), short(y)))

    def define(self, obj, attr, value):
        setattr(obj, attr, value)

    def each(self, n):
        n = int(n)
        if n > 80:
            yield from (int(k) for k in self.rng.choice(n, 30, replace=False))
        else:
            yield from range(n)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def sqrt(self, x):
        return np.sqrt(x)

    def sum(self, x):
        return np.sum(x)

    def len(self, x):
        return len(x)

    def sum_of(self, n, f):
        return float(sum(f(k) for k in range(int(n)))) if int(n) else 0.0

    def array_of(self, n, f, dt="f"):
        return np.array([f(k) for k in range(int(n))], dtype={"f": float, "i": int, "b": bool}[dt])

    def lemma_sum_le(self, label, n, f, g):
        for k in range(int(n)):
            if not f(k) <= g(k) + 1e-9 * (abs(g(k)) + 1e-300):
                raise Violated(label, "termwise bound fails")

    def lemma_sum_eq(self, label, n, f, g):
        for k in self.each(n):
            self.eq(label, f(k), g(k))

    def lemma_sum_lt(self, label, n, f, g, at):
        self.lemma_sum_le(label, n, f, g)

    def lemma_reindex(self, label, order, f):
        self.ensure(label + " (order is a permutation)", np.array_equal(np.sort(np.asarray(order)), np.arange(len(order))))

    def lemma_split(self, label, n, j, f):
        self.ensure(label, 0 <= j <= n)

    def others(self, n, k, f):
        return float(sum(f(j) for j in range(int(n)) if j != k))

    def lemma_others(self, label, n, k, f):
        self.ensure(label, 0 <= k < n)

    def lemma_step(self, label, j, f):
        self.ensure(label, 0 <= j)

    def is_sorting(self, label, order, key, n):
        if not isinstance(order, np.ndarray):
            raise Violated(label + " (is an index array)", repr(order))
        self.ensure(label + ": covers every star", len(order) == int(n))
        self.ensure(label + ": no star twice", np.array_equal(np.sort(order), np.arange(int(n))))
        k = np.asarray(key)[order]
        self.ensure(label + ": ascending", np.all(k[1:] >= k[:-1]))

    def knn(self, cols, k):
        from scipy.spatial import cKDTree
        x = np.column_stack(cols)
        d, a = cKDTree(x).query(x, k=k)
        return [d[:, j] for j in range(k)], [a[:, j] for j in range(k)]

    def witness_index(self, mask_arr):
        w = np.where(mask_arr)[0]
        if len(w) == 0:
            raise Skip()
        return int(w[0])

    def fn(self, qual):
        return resolve(qual)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            try:
                f = resolve(f)
            except AttributeError as e:
                raise Violated("no exception", "AttributeError %s" % e)
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            return f(*a, **k)
        except (Violated, Skip, CallTimeout):
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            w = [t for t in tb if "clustertools" in t.filename]
            loc = "%s:%d %s" % (w[-1].filename.split("clustertools/", 1)[-1], w[-1].lineno, w[-1].name) if w else "?"
            raise Violated("no exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], loc))
        finally:
            sys.stdout.close()
            sys.stdout = so

    def ext(self, name):
        return resolve(name)

    def raises(self, f, *a, **k):
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            (resolve(f) if isinstance(f, str) else f)(*a, **k)
            return None
        except CallTimeout:
            raise
        except Exception as e:
            return type(e).__name__
        finally:
            sys.stdout.close()
            sys.stdout = so

    def cover(self, name):
        self.labels.add("cover:" + name)


def short(x):
    s = np.array2string(np.asarray(x).ravel()[:6], precision=6)
    return s


def jsonable(v):
    if isinstance(v, np.ndarray):
        return [jsonable(x) for x in v.tolist()[:60]]
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


def _alarm(sig, frm):
    raise CallTimeout("trial timed out")


def run_one(c, case, seed, overrides=None, size=None, limit=20):
    """-> ('ok', checks) | ('skip',) | ('violation', label, detail, inputs)"""
    S = ConS(c, case, seed, overrides, size)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    try:
        c.fn(S, **case)
        return ("ok", S.checks, S)
    except Skip:
        return ("skip", S.checks, S)
    except Violated as v:
        return ("violation", v.label, v.detail, {k: jsonable(x) for k, x in S.used.items()}, S)
    except CallTimeout:
        return ("timeout", "trial timed out", S)
    except Exception as e:
        tb = traceback.format_exc()
        return ("error", "%s: %s" % (type(e).__name__, e), tb[-1500:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)


def seed_of(base, name, ci, t):
    return (zlib.crc32(("%s|%d|%d" % (name, ci, t)).encode()) + 7919 * base) % (2 ** 31)


def replay(path):
    r = json.load(open(path))
    api.load_all()
    c = next(x for x in api.CONTRACTS if x.name == r["contract"])
    v = r["concrete"]
    print(c.name, c.cases[r["case_index"]], "seed", v["seed"])
    o = run_one(c, c.cases[r["case_index"]], v["seed"], v["overrides"], v.get("size"), 120)
    print(o[:3])
    sys.exit(1 if o[0] == "violation" else 0)


def main():
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    job = json.load(open(sys.argv[1]))
    try:
        import clustertools
    except Exception as e:
        json.dump({"import_error": "%s: %s" % (type(e).__name__, e)}, open(sys.argv[2], "w"))
        return
    api.load_all()
    byname = {c.name: c for c in api.CONTRACTS}
    res = []
    t0 = time.time()
    for it in job["items"]:
        c = byname[it["contract"]]
        case = c.cases[it["case"]]
        r = dict(contract=c.name, case=it["case"], trials=0, ok=0, skip=0, checks=0, viol=None, errors=[], timeouts=0, labels=[])
        labels = set()
        ti = time.time()
        plans = [(s, None) for s in it.get("overrides", [])] + [(None, t) for t in range(it.get("trials", 0))]
        for ov, t in plans:
            if time.time() - ti > it.get("budget", 60) or time.time() - t0 > job.get("budget", 600):
                break
            sd = seed_of(job["seed"], c.name, it["case"], t if t is not None else 0)
            o = run_one(c, case, sd, ov, it.get("size"))
            r["trials"] += 1
            if o[0] == "ok":
                r["ok"] += 1
                r["checks"] += o[1]
                labels |= o[2].labels
                if it.get("sample") and r["ok"] == 1:
                    r["sample"] = {k: jsonable(v) for k, v in list(o[2].used.items())[:6]}
            elif o[0] == "skip":
                r["skip"] += 1
            elif o[0] == "timeout":
                r["timeouts"] += 1
            elif o[0] == "violation":
                r["viol"] = dict(label=o[1], detail=o[2], inputs=o[3], seed=sd, overrides=ov, trial=t, size=it.get("size"))
                if not it.get("all"):
                    break
            else:
                r["errors"].append(o[1] + "\n" + o[2])
        r["labels"] = sorted(labels)
        r["secs"] = round(time.time() - ti, 2)
        res.append(r)
    json.dump({"results": res, "secs": time.time() - t0}, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
