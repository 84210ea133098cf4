"""Calibrations: random parameters (Tsai parameters through a file), positions there and back"""
import tempfile
from pathlib import Path


def run(h):
    import numpy as np
    from fluidimage.calibration import Calibration, Calibration2DSimple
    from fluidimage.calibration.util import get_base_from_normal_vector, get_plane_equation

    rng = h.rng
    close = lambda a, b, what, tol=1e-7: h.check(np.allclose(a, b, rtol=tol, atol=tol), f"{what}: {np.asarray(a)} instead of {np.asarray(b)}")

    def simple(p0, p1, distance, ratio, origin, phys):
        c = Calibration2DSimple(p0, p1, distance, aspect_ratio_pixel=ratio, shape_image=(100, 90), point_origin=origin, orig_phys=phys)
        close(c.pix2phys(origin[1], origin[0]), (phys[1], phys[0]), "position of the origin")
        a, b = (np.array(c.pix2phys(p[1], p[0])) for p in (p0, p1))
        close(np.hypot(*(b - a)), distance, "distance of the two points")
        ix, iy, dx, dy = (np.array([rng.uniform(0, 90) for _ in range(4)]) for _ in range(4))
        keep = [v.copy() for v in (ix, iy, dx, dy)]
        X, Y, DX, DY = c.displ2phys(ix, iy, dx, dy)
        close((X, Y), c.pix2phys(ix, iy), "positions")
        X2, Y2 = c.pix2phys(ix + dx, iy + dy)
        close((DX, DY), (X2 - X, Y2 - Y), "displacements")
        X3, Y3 = c.pix2phys(ix + 1, iy + 1)
        close(Y3 - Y, ratio * (X3 - X), "aspect ratio")
        for a, b in zip(keep, (ix, iy, dx, dy)):
            h.check(np.array_equal(a, b), "an argument is modified")

    def base(n):
        A, B = get_base_from_normal_vector(*n)
        close(A.T @ A, np.eye(3), "orthonormal base")
        close(np.linalg.det(A), 1, "direct base")
        close(A[:, 2], np.array(n) / np.linalg.norm(n), "last vector")
        close(A @ B, np.eye(3), "inverse")

    def plane(z0, alpha, beta):
        try:
            a, b, c, d = get_plane_equation(z0, alpha, beta)
        except ValueError:
            h.check(alpha != 0 and beta != 0, "a plane with one angle is refused")
            return
        h.check(alpha == 0 or beta == 0, "two angles are accepted")
        Rx = np.array([[1, 0, 0], [0, np.cos(alpha), -np.sin(alpha)], [0, np.sin(alpha), np.cos(alpha)]])
        Ry = np.array([[np.cos(beta), 0, np.sin(beta)], [0, 1, 0], [-np.sin(beta), 0, np.cos(beta)]])
        close((a, b, c), Ry @ Rx @ np.array([0, 0, 1.]), "normal of the plane")
        close(c * z0 + d, 0, "point of the plane")

    def rotation(w):
        w = np.radians(w)
        t = np.linalg.norm(w)
        if t == 0:
            return np.eye(3)
        k = w / t
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K

    def tsai(focal, C, T, w, zs, angles, refraction, level, angle, arrays, seed):
        R = rotation(w)
        num = lambda v: "\t".join(repr(float(x)) for x in v)
        t = lambda k, v, a="": f"<{k}{a}>{v}</{k}>"
        xml = t("CalibrationType", "3D_extrinsic") + t("fx_fy", num(focal)) + t("Cx_Cy", num(C)) + t("kc", "0.0") + t("CoordUnit", "cm") + t("Tx_Ty_Tz", num(T))
        for i in range(3):
            xml += t("R", num(R[i]), f' i="{i + 1}"')
        xml += t("omc", num(w)) + t("NbSlice", len(zs))
        one = len(zs) == 1
        for i, z in enumerate(zs):
            xml += t("SliceCoord", num(z), "" if one else f' i="{i + 1}"')
        if angles:
            for i, a in enumerate(angles):
                xml += t("SliceAngle", num(a), "" if one else f' i="{i + 1}"')
        if refraction:
            xml += t("InterfaceCoord", num((0, 0, refraction[0]))) + t("RefractionIndex", repr(refraction[1]))
        with tempfile.TemporaryDirectory() as d:
            p = Path(d) / "calib.xml"
            p.write_text("<?xml version='1.0' ?><ImaDoc>" + t("GeometryCalib", xml) + "</ImaDoc>")
            c = Calibration(p)
        inclined = angle and angles
        n = rotation(angles[level])[:, 2] if inclined else np.array([0., 0, 1])
        p0 = np.array(zs[level])
        r = np.random.RandomState(seed)
        x, y = r.uniform(-.05, .05, 5), r.uniform(-.05, .05, 5)
        z = (p0[2] - (n[0] * (100 * x - p0[0]) + n[1] * (100 * y - p0[1])) / n[2]) / 100
        if not arrays:
            x, y, z = float(x[0]), float(y[0]), float(z[0])
        keep = [np.array(v) for v in (x, y, z)]
        X, Y = c.phys2pix(x, y, z)
        for v, w_ in zip(keep, (x, y, z)):
            h.check(np.array_equal(v, w_), "phys2pix modifies its arguments")
        xyz = np.array([100 * keep[0], 100 * keep[1], 100 * keep[2]])
        if refraction:
            H, ind = refraction
            xyz[2] = np.where(H > xyz[2], H - (H - xyz[2]) / ind, xyz[2])
        cam = np.tensordot(R, xyz, 1) + (np.array(T)[:, None] if arrays else np.array(T))
        close((X, Y), (focal[0] * cam[0] / cam[2] + C[0], focal[1] * cam[1] / cam[2] + C[1]), "pixels")
        nb = 2160
        keepp = [np.array(X), np.array(Y)]
        for a, b, k in zip(c.pix2phys(X, nb - Y, level, nb, angle=angle), keep, "xyz"):
            close(a, b, f"{k} after a return trip", 1e-6)
        h.check(np.array_equal(keepp[0], X) and np.array_equal(keepp[1], Y), "pix2phys modifies its arguments")
        if arrays:
            dx, dy = r.uniform(-3, 3, 5), r.uniform(-3, 3, 5)
            out = c.pix2phys_UV(X, nb - Y, dx, dy, level, nb, angle=angle)
            a = c.pix2phys(X - dx / 2, nb - Y - dy / 2, level, nb, angle=angle)
            b = c.pix2phys(X + dx / 2, nb - Y + dy / 2, level, nb, angle=angle)
            for i in range(3):
                close(out[i], keep[i], "positions of the vectors", 1e-6)
            for i in range(3):
                close(out[3 + i], b[i] - a[i], "displacements")

    def u(a, b):
        return round(rng.uniform(a, b), 3)

    for nb, with_angle in ((12, False), (1, True)):
        zs = [[0, 0, 20 + 3 * i] for i in range(nb)]
        args = dict(focal=(3000., 3100.), C=(1000., 900.), T=(-4., 6., 400.), w=(170., 3., 2.), zs=zs, angles=[[10, 5, 0]] * nb if with_angle else None,
                    refraction=None, level=nb - 1, angle=True, arrays=True, seed=0)
        h.run(f"Tsai, {nb} slices, angle {with_angle}", lambda: tsai(**args), **args)
    while h.more():
        args = dict(p0=(rng.randrange(50), rng.randrange(50)), p1=(rng.randrange(50, 90), rng.randrange(90)), distance=u(.1, 3), ratio=u(.5, 2),
                    origin=(rng.randrange(90), rng.randrange(90)), phys=(u(-1, 1), u(-1, 1)))
        h.run("simple calibration", lambda: simple(**args), **args)
        n = (u(-.5, .5), u(-.5, .5), u(.3, 1))
        h.run("base", lambda: base(n), n=n)
        al, be = rng.choice([0, u(-1, 1)]), rng.choice([0, u(-1, 1)])
        z0 = u(-3, 3)
        h.run("plane", lambda: plane(z0, al, be), z0=z0, alpha=al, beta=be)
        nb = rng.choice([1, 2, 5])
        zs = [[u(-5, 5), u(-5, 5), u(10, 40)] for _ in range(nb)]
        angles = [[u(-20, 20) if rng.random() < 0.7 else 0. for _ in range(3)] for _ in range(nb)] if rng.random() < 0.6 else None
        refraction = rng.choice([None, (u(60, 80), u(1, 1.5)), (u(-80, -60), u(1, 1.5))])
        args = dict(focal=(u(2500, 3500), u(2500, 3500)), C=(u(500, 1500), u(500, 1500)), T=(u(-9, 9), u(-9, 9), u(380, 450)), w=(u(140, 200), u(-9, 9), u(-9, 9)),
                    zs=zs, angles=angles, refraction=refraction, level=rng.randrange(nb), angle=rng.random() < 0.8, arrays=rng.random() < 0.7, seed=rng.randrange(10 ** 6))
        h.run("Tsai", lambda: tsai(**args), **args)
