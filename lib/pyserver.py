"""Drives pyvotess for the C18 harness: one request per line on fd 3, one
answer per line on fd 4 (both JSON). What the module prints goes to a file."""
import ctypes, gc, json, os, sys

sys.path.insert(0, os.environ["VERIF_PYDIR"])
import pyvotess as vt
try:
    import numpy as np
except ImportError:
    np = None

libc = ctypes.CDLL(None)
req, ans = os.fdopen(3), os.fdopen(4, "w")
kept = []


def shape(pts, form):
    if form == "tuples":
        return tuple(tuple(p) for p in pts)
    if form.startswith("numpy") and np is not None:
        kind = np.float32 if form.startswith("numpy32") else np.float64
        if form.endswith("-f"):
            return np.asfortranarray(np.array(pts, dtype=kind))
        if form.endswith("-slice"):
            a = np.zeros((2 * len(pts), 5), dtype=kind)
            a[::2, 1:4] = pts
            return a[::2, 1:4]
        if form.endswith("-back"):
            return np.array(pts[::-1], dtype=kind)[::-1]
        return np.array(pts, dtype=kind)
    return [list(p) for p in pts]


def rows(d, how):
    if how == "index":
        return [[d[i][j] for j in range(d[i].size())] for i in range(d.size())]
    if how == "iterate":
        return [[j for j in r] for r in d]
    if how == "held":
        v = [d[i] for i in range(d.size())]
        return [[r[j] for j in range(r.size())] for r in v]
    if how == "backwards":
        o = [None] * d.size()
        for i in reversed(range(d.size())):
            r = d[i]
            o[i] = [r[j] for j in reversed(range(r.size()))][::-1]
        return o
    raise ValueError(how)


def outside(d):
    """indices outside of the result must raise IndexError"""
    n, bad = d.size(), []
    def probe(f, what):
        try:
            f()
            bad.append(what)
        except IndexError:
            pass
    probe(lambda: d[n], "d[size]")
    probe(lambda: d[n + 7], "d[size+7]")
    probe(lambda: d[-n - 1], "d[-size-1]")
    if n:
        m = d[n - 1].size()
        probe(lambda: d[n - 1][m], "row[size]")
        probe(lambda: d[0][d[0].size() + 3], "row[size+3]")
        probe(lambda: d[n - 1][-m - 1], "row[-size-1]")
    return bad


def printed(d, path):
    sys.stdout.flush()
    libc.fflush(None)
    os.ftruncate(1, 0)
    os.lseek(1, 0, 0)
    d.print()
    libc.fflush(None)
    with open(path) as f:
        return f.read()


def container(q):
    """a dnn built here from its parts; the last entries may be one long run"""
    path = q["scratch"]
    l, o = list(q["list"]), list(q["offs"])
    if q["run"]:
        l += [(7 * i + 3) % 1000003 for i in range(q["run"])]
        o.append(len(l))
    d = vt.dnn(l, o) if o else vt.dnn()
    out = {"rows": rows(d, q["how"]), "size": d.size(), "outside": outside(d)}
    if q["drop"]:
        v = [d[i] for i in range(d.size())]
        del d, l, o
        gc.collect()
        out["rows"] = [[r[j] for j in range(r.size())] for r in v]
        return out
    for x in range(len(l)):
        l[x] = -9
    out["rows"] = rows(d, q["how"])
    out["print"] = printed(d, path + "/out")
    d.savetxt(path + "/saved")
    with open(path + "/saved") as f:
        out["saved"] = f.read()
    os.unlink(path + "/saved")
    return out


DEFAULTS = {"k": 64, "knn_grid_resolution": 16, "cpu_nthreads": 0,
            "gpu_ndsize": 1, "chunksize": 8196, "use_chunking": False,
            "use_recompute": False, "cc_p_maxsize": 32, "cc_t_maxsize": 32,
            "dev_suppress_stdout": True}


def differing(a, model):
    """parameters that do not read back as the model has them"""
    bad = []
    for k, v in model.items():
        got = a[k]
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                pass
        if got != v:
            bad.append("%s reads %r, was set to %r" % (k, got, v))
    return bad


def parameters(q):
    a, model, n = vt.vtargs(), dict(DEFAULTS), 0
    for step, (k, v) in enumerate(q["sets"]):
        if k in model and not isinstance(v, (list, type(None))):
            a[k] = v
            model[k] = v
        else:
            for f in (lambda: a.__setitem__(k, v),
                      lambda: a[k] if k not in model else int(None)):
                try:
                    f()
                    return {"bad": ["step %d: %r = %r was accepted" % (step, k, v)]}
                except Exception:
                    pass
        bad = differing(a, model)
        if bad:
            return {"bad": ["step %d: %s" % (step, b) for b in bad]}
    return {"bad": []}


def handle(q):
    if "list" in q:
        return container(q)
    if "sets" in q:
        return parameters(q)
    path = q["scratch"]
    a = vt.vtargs()
    model = dict(DEFAULTS)
    for k, v in q["args"]:
        a[k] = v
        model[k] = v
    x = shape(q["points"], q["form"])
    before = [list(map(float, p)) for p in x]
    dev = {"gpu": vt.device.gpu, "cpu": vt.device.cpu}
    call = ((lambda: vt.tesellate(x, a)) if q["device"] == "default" else
            (lambda: vt.tesellate(xyzset=x, args=a, device=dev[q["device"]]))
            if q["keywords"] else (lambda: vt.tesellate(x, a, dev[q["device"]])))
    out = {}
    if q["how"] == "orphan":
        # rows taken from a result nobody else holds
        n = len(x)
        v = [call()[i] for i in range(n)] if n <= 12 else None
        d = call()
        if v is None:
            v = [d[i] for i in range(n)]
            d2, d = d, None
            del d2
            gc.collect()
            d = call()
        junk = [bytearray(64 * (i % 40 + 1)) for i in range(200)]
        out["rows"] = [[r[j] for j in range(r.size())] for r in v]
        del junk
    else:
        d = call()
        out["rows"] = rows(d, q["how"])
    out["size"] = d.size()
    out["again"] = rows(call(), "index") if q["twice"] else None
    out["outside"] = outside(d)
    out["print"] = printed(d, path + "/out")
    d.savetxt(path + "/saved")
    with open(path + "/saved") as f:
        out["saved"] = f.read()
    os.unlink(path + "/saved")
    errors = []
    for k, v in q["bad"]:
        try:
            a[k] = v
            errors.append([k, "accepted"])
        except Exception as e:
            errors.append([k, type(e).__name__])
    out["errors"] = errors
    out["params"] = differing(a, model)
    del before
    return out


def main():
    first = True
    for line in req:
        q = json.loads(line)
        if first:
            fd = os.open(q["scratch"] + "/out", os.O_CREAT | os.O_RDWR, 0o600)
            os.dup2(fd, 1)
            first = False
        try:
            r = handle(q)
        except Exception as e:
            r = {"exception": type(e).__name__ + ": " + str(e)}
        ans.write(json.dumps(r) + "\n")
        ans.flush()


main()
