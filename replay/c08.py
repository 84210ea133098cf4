"""WorkFIX.calcul against the criteria, on random fields with errors, missing values and secondary peaks"""
import contextlib
import io
import math
from types import SimpleNamespace as NS

import numpy as np

nan = float("nan")
WORDS = dict(low="correl < correl_min", far="delta2 < displacement_max2", neigh="diff neighbour too large")


def mean_of_neighbours(x, bad, n0, n1):
    out = np.full(n0 * n1, nan)
    for i in range(n0):
        for j in range(n1):
            vals = [x[p * n1 + q] for p in range(max(i - 1, 0), min(i + 2, n0)) for q in range(max(j - 1, 0), min(j + 2, n1))
                    if (p, q) != (i, j) and not bad[p * n1 + q]]
            if vals and not bad[i * n1 + j]:
                out[i * n1 + j] = sum(vals) / len(vals)
    return out


def run(h):
    from fluidimage.calcul.errors import PIVError
    from fluidimage.data_objects.piv import HeavyPIVResults
    from fluidimage.works.piv.fix import WorkFIX

    def one(n0, n1, dx, dy, co, err, cmin, dmax, thr, npk, peaks, second, fails):
        n = n0 * n1
        dx, dy, co = np.array(dx), np.array(dy), np.array(co)
        x0, y0, c0 = dx.copy(), dy.copy(), co.copy()
        res = HeavyPIVResults(deltaxs=dx, deltays=dy, correls_max=co, errors=dict(err), secondary_peaks=list(peaks),
                              correls=list(range(n)))
        ux = uy = np.zeros(n, int)
        if second:
            ux, uy = (np.array([h.rng.randint(-3, 3) for _ in range(n)]) for _ in "xy")
            res.deltaxs_input, res.deltays_input = ux, uy

        def subpix(x, y, m):
            if m in fails:
                raise PIVError(explanation="no")
            return x + 0.25, y - 0.125

        piv = NS(ixvecs=np.arange(n1), iyvecs=np.arange(n0), params=NS(piv0=NS(nb_peaks_to_search=npk)),
                 correl=NS(apply_subpix=subpix), _xyoriginalimage_from_xymasked=lambda a, b: (a, b))
        fix = WorkFIX(NS(correl_min=cmin, displacement_max=dmax, threshold_diff_neighbour=thr), piv)
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            r = fix.calcul(res)
        # the criteria
        failed = [[] for _ in range(n)]
        for i in err:
            failed[i].append("err")
        for i in range(n):
            if c0[i] < cmin:
                failed[i].append("low")
        if dmax:
            for i in range(n):
                if not failed[i] and x0[i] ** 2 + y0[i] ** 2 > dmax ** 2:
                    failed[i].append("far")
        bad = np.array([bool(f) for f in failed]) | np.isnan(x0) | np.isnan(y0)
        mx, my = mean_of_neighbours(x0, bad, n0, n1), mean_of_neighbours(y0, bad, n0, n1)
        diff = np.array([nan if bad[i] else math.hypot(mx[i] - x0[i], my[i] - y0[i]) for i in range(n)])
        if thr is not None:
            for i in range(n):
                if not failed[i] and diff[i] > thr:
                    failed[i].append("neigh")
        rep = getattr(r, "replaced_vectors", {})
        for i in range(n):
            gx, gy = float(r.deltaxs[i]), float(r.deltays[i])
            same = lambda a, b: a == b or (np.isnan(a) and np.isnan(b))
            # which secondary peak is allowed to replace the vector: closer to the neighbours than the vector and the others
            best = None
            if npk >= 2 and peaks[i] and not np.isnan(diff[i]) and not np.isnan(mx[i]):
                good = [p for p in peaks[i] if p[2] / c0[i] > 0.6 and p[2] > cmin]
                ds = [math.hypot(mx[i] - p[0] - ux[i], my[i] - p[1] - uy[i]) for p in good]
                if ds and min(ds) < diff[i]:
                    p = good[ds.index(min(ds))]
                    if not (thr is not None and min(ds) > thr) and i not in fails and not (
                            dmax and (p[0] + ux[i]) ** 2 + (p[1] + uy[i]) ** 2 > dmax ** 2):
                        best = p
            if best is not None:
                if not h.check(i in rep, lambda: f"vector {i}: not replaced by {best}"):
                    continue
                h.check(i not in r.errors and i not in r.deltaxs_wrong and i not in r.deltays_wrong,
                        f"vector {i}: replaced and still flagged as wrong")
                h.check((gx, gy) == (best[0] + ux[i] + 0.25, best[1] + uy[i] - 0.125),
                        lambda: f"vector {i}: replaced by ({gx}, {gy}), peak {best}")
                h.check(r.correls_max[i] == best[2], "correlation of the replaced vector")
                h.check(tuple(map(float, rep[i])) == (x0[i], y0[i], c0[i]), "previous value of the replaced vector")
                continue
            h.check(i not in rep, lambda: f"vector {i} should not be replaced: {rep.get(i)}")
            h.check(same(float(r.correls_max[i]), c0[i]), "correlation modified")
            if not failed[i]:
                h.check(i not in r.errors and i not in r.deltaxs_wrong and i not in r.deltays_wrong,
                        lambda: f"vector {i} fails no criterion: {r.errors.get(i)}")
                h.check(same(gx, x0[i]) and same(gy, y0[i]), f"vector {i} modified")
                continue
            h.check(np.isnan(gx) and np.isnan(gy), f"vector {i} should be rejected ({failed[i]}): {gx}, {gy}")
            if not h.check(i in r.errors, f"vector {i} has no explanation ({failed[i]})"):
                continue
            for f in failed[i]:
                want = err[i] if f == "err" else WORDS[f]
                h.check(want in r.errors[i], lambda: f"vector {i}: explanation {r.errors[i]!r} without {want!r}")
            h.check(i in r.deltaxs_wrong and same(float(r.deltaxs_wrong[i]), x0[i]) and i in r.deltays_wrong
                    and same(float(r.deltays_wrong[i]), y0[i]), f"vector {i}: original value lost")
        h.check(set(r.errors) <= set(range(n)), "explanation of a vector which does not exist")

    k = 0
    R = h.rng
    while h.more() and k < (300 if not h.strong else 3000):
        k += 1
        n0, n1 = R.randint(2, 5), R.randint(2, 5)
        n = n0 * n1
        big = R.random() < 0.3
        val = lambda: float(R.randint(-40, 40)) / 4 if not (big and R.random() < 0.2) else float(R.randint(-60, 60))
        dx, dy = [val() for _ in range(n)], [val() for _ in range(n)]
        co = [R.choice([0.05, 0.1, 0.15, 0.3, 0.5, 0.8]) for _ in range(n)]
        err = {i: f"error {i}" for i in range(n) if R.random() < 0.15}
        for i in list(err):
            if R.random() < 0.5:
                dx[i] = dy[i] = co[i] = nan
        npk = R.choice([1, 1, 2, 3])
        peaks = [None if npk < 2 or R.random() < 0.3 or i in err else
                 [(R.randint(-6, 6), R.randint(-6, 6), R.choice([0.1, 0.25, 0.45])) for _ in range(R.randint(0, npk - 1))]
                 for i in range(n)]
        inp = dict(n0=n0, n1=n1, dx=dx, dy=dy, co=co, err=err, cmin=R.choice([0.1, 0.2, 0.4]),
                   dmax=R.choice([None, None, 3.0, 8.0, 0.5]), thr=R.choice([None, 1.5, 4.0, 10.0]), npk=npk, peaks=peaks,
                   second=R.random() < 0.4, fails={i for i in range(n) if R.random() < 0.1})
        h.run("WorkFIX.calcul", lambda: one(**inp), **inp)
