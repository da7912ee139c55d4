"""C39 parametrised clear-sky/cloud radiation, C40 terrain shading and sky view (Moelg 2009)."""
import warnings

import numpy as np

from vt import sym
from vt.api import harness
from vt.sym import is_sym
from harness._common import *
from harness.runio import osym
from harness.timeloop import Patch, isnan, val

K = np.pi / 180
S = lambda x: sym.fun("sin", x)
Co = lambda x: sym.fun("cos", x)


def solar(lat, dec, omega):
    """unit vector to the sun (east, north, up) for hour angle omega [deg, morning positive]."""
    sl, cl = float(np.sin(lat * K)), float(np.cos(lat * K))
    so, co = S(omega * K), Co(omega * K)
    return Co(dec) * so, S(dec) * cl - Co(dec) * sl * co, S(dec) * sl + Co(dec) * cl * co


def hour_angle(hour, step, tcorr, tc):
    """hour angle at the middle of the interval, morning positive."""
    return 180.0 + 15.0 * step / 3600 / 2 - 15.0 * hour - tcorr + tc


def grid(rows, cols, v):
    return np.full((rows, cols), float(v))


def run(cx, M, lat, dec, hour, step, tc, cld, elv, mask, slope, aspect, illu, svf, doy=100, tcorr=1.25, met=(278.0, 550.0, 60.0), ecc=1.01):
    rc = M.radcor
    sp, tcs = np.zeros((366, 7), dtype=object), np.zeros((366, 4), dtype=object)
    if not cx.symbolic:
        sp, tcs = sp.astype(float), tcs.astype(float)
    sp[:, 2], sp[:, 3] = 0.5, 0.3          # other days: visibly different
    sp[doy - 1, 2], sp[doy - 1, 3] = ecc, dec
    tcs[:, 3] = 9.0
    tcs[doy - 1, 3] = tcorr
    n = int(366 * 86400 / step)
    row = int((doy - 1) * (86400 / step)) + int(hour // (step / 3600))
    shad = np.zeros((n,) + elv.shape)
    shad[row - 1] = 1 - illu
    shad[row + 1] = 1 - illu
    shad[row] = illu
    full = lambda v: np.full(elv.shape, v)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = rc.calcRad(sp, tcs, doy, hour, lat, full(met[0]), full(met[1]), full(met[2]), cld, elv, mask, slope, aspect, shad, svf, step, tc)
    return r[::-1, :]


DAY = [dict(lat=-3.1, hour=12, step=3600), dict(lat=30.5, hour=9, step=10800), dict(lat=47.0, hour=16, step=3600), dict(lat=79.0, hour=3, step=10800)]


def obj(cx, shape, items, fill):
    a = np.full(shape, float(fill))
    if cx.symbolic:
        a = a.astype(object)
    for i, v in items.items():
        a[i] = v
    return a


@harness("C39", params=DAY, thorough=[dict(lat=l, hour=h, step=s) for l in (-35.0, 11.0, 61.0) for h in (6, 10, 15) for s in (3600, 10800)],
         bounds="one cell of any slope (0-89 degrees), aspect, cloud cover and sky-view factor next to flat reference cells; five solar "
                "declinations, four latitude/hour/step combinations (more when thorough), cell lit, shaded or unlisted by the look-up table",
         stubs=["metpy vapour pressure on concrete air values"],
         expect=["direct-follows-incidence", "shaded-cell-diffuse-only", "rows-flipped", "never-negative", "night-is-dark"])
def slopes(cx, M, lat, hour, step):
    sym.ANGLES = True
    sym.ROUND = True
    dec = cx.choice("dec", [-0.4, -0.15, 0.0, 0.2, 0.4])
    tc, tcorr = 3.0, 1.25
    east, north, up = solar(lat, dec, hour_angle(hour, step, tcorr, tc))
    s, a = cx.real("slope", 0.0, 89.0), cx.real("aspect", 0.0, 360.0)
    cl, v = cx.real("cloud", 0.0, 1.0), cx.real("svf", 0.0, 1.0)
    lit = cx.choice("illumination", [1.0, 0.0])
    shape = (2, 3)
    c = (1, 2)
    ref_dir, ref_all = (0, 0), (1, 0)
    slope, aspect = obj(cx, shape, {c: s}, 0.0), obj(cx, shape, {c: a}, 0.0)
    cloud = obj(cx, shape, {c: cl}, 0.0)
    svf = obj(cx, shape, {c: v, ref_all: 1.0}, 0.0)
    illu = np.ones(shape)
    illu[c] = lit
    mask = np.ones(shape)
    mask[0, 2] = np.nan
    g = run(cx, M, lat, dec, hour, step, tc, cloud, grid(2, 3, 5200.0), mask, slope, aspect, illu, svf, tcorr=tcorr)
    r = val(g[c])
    if not up > 0.01:
        cx.check("night-is-dark", (r == 0) & (val(g[ref_dir]) == 0))
        cx.check("night-is-dark", isnan(val(g[0, 2])))
        return
    direct, total_ = val(g[ref_dir]), val(g[ref_all])
    diff = total_ - direct
    inc = Co(s * K) * up + S(s * K) * (S(a * K) * east + Co(a * K) * north)
    d = (total_ * (0.304 * cl + 0.046) if cl > 0 else diff) * v
    if lit == 0.0:
        cx.close("shaded-cell-diffuse-only", r, d, tol=1e-6)
    else:
        beam = inc if inc > 0 else 0.0
        cx.close("direct-follows-incidence", r, d + direct / up * beam * (1.0 - cl), tol=1e-6)
    cx.close("rows-flipped", val(g[0, 1]), direct, tol=1e-9)
    cx.check("never-negative", (d >= 0) & (direct >= 0))


@harness("C39", params=[dict(lat=l, hour=h, tc=t) for l, h, t in ((-3.1, 12, 0.0), (30.5, 7, 20.0), (47.0, 16, -10.0))],
         bounds="any elevation 0-6500 m and eccentricity factor, three states of the air at matching elevations, five declinations, three latitude/hour combinations",
         expect=["clear-sky-range"])
def clear_sky(cx, M, lat, hour, tc):
    sym.ANGLES = True
    met = cx.choice("air", [(278.0, 550.0, 60.0, 3000.0, 6500.0), (255.0, 450.0, 20.0, 4000.0, 6500.0), (290.0, 1000.0, 100.0, 0.0, 1000.0)])
    dec = cx.choice("dec", [-0.4, -0.2, 0.0, 0.2, 0.4])
    z = cx.real("elevation", 0.0, 6500.0)
    cx.assume((z >= met[3]) & (z <= met[4]))
    ecc = cx.real("ecc", 0.96, 1.04)
    elv = obj(cx, (1, 2), {(0, 0): z, (0, 1): z}, 0.0)
    svf = np.array([[0.0, 1.0]])
    g = run(cx, M, lat, dec, hour, 3600, tc, grid(1, 2, 0.0), elv, np.ones((1, 2)), grid(1, 2, 0.0), grid(1, 2, 0.0), np.ones((1, 2)), svf, met=met, ecc=ecc)
    _, _, up = solar(lat, dec, hour_angle(hour, 3600, 1.25, tc))
    direct, tot = val(g[0, 0]), val(g[0, 1])
    toa = 1367.0 * ecc * max(up, 0.0)
    cx.check("clear-sky-range", (direct >= 0) & (direct <= toa) & (tot >= direct) & (tot <= 1.15 * toa))
    if up > 0.3:
        cx.check("clear-sky-range", (direct >= 0.3 * toa) & (tot <= toa))


@harness("C39", params=[dict(day=d) for d in (0, 79, 265, 320, 364)], opts=dict(t_prove=(1000, 3000, 3000), budget=300), bounds="any latitude between -89.9 and 89.9 degrees, day length on five days of the year",
         stubs=["sunrise angle of the other days of the year"],
         expect=["day-length"])
def daylength(cx, M, day):
    sym.ANGLES = True
    sym.DOMAIN, sym.PAIRS, sym.ROUND = True, False, True
    lat = cx.real("lat", -89.9, 89.9)
    n = [-1]

    class Math:
        def __getattr__(self, k):
            return getattr(math_, k)

        def acos(self, x):      # one day decides
            n[0] += 1
            return math_.acos(x) if n[0] == day or not cx.symbolic else 1.0

    math_ = M.radcor.math
    with Patch(M.radcor, math=Math()):
        sp, tc = M.radcor.solpars(lat)
    dec = float(sp[day, 3])
    ws = val(sp[day, 5])
    sl, cl = S(lat * K) * float(np.sin(dec)), Co(lat * K) * float(np.cos(dec))
    cx.assume(cl > 1e-6)
    cx.close("day-length", val(sp[day, 6]), ws * 2 / 15, tol=1e-9)
    if sl >= cl * 1.0001:
        cx.close("day-length", val(sp[day, 6]), 24.0, tol=0.03)
    elif sl <= -cl * 1.0001:
        cx.close("day-length", val(sp[day, 6]), 0.0, tol=0.03)
    else:      # the 0.01 per cent around the polar circle within tolerance
        cx.close("day-length", Co(ws * K) * cl, -sl, tol=2e-4)


@harness("C39", params=[dict(lat=30.5, step=86400), dict(lat=-20.0, step=86400), dict(lat=79.0, step=86400), dict(lat=30.5, step=43200),
                        dict(lat=30.5, step=86400, azimuth=True), dict(lat=79.0, step=43200, azimuth=True), dict(lat=-35.0, step=10800, azimuth=True)],
         thorough=[dict(lat=l, step=86400) for l in (-61.0, 47.0, 0.5)],
         bounds="one day of the year, other days as computed by the code; sun elevation, slot and night: two declinations and any time correction "
                "(whole circle of hour angles), three latitudes, daily and 12-hourly tables; sun azimuth: four declinations and six time corrections, "
                "daily, 12-hourly and 3-hourly tables", stubs=["relief shading: recorded"], opts=dict(t_prove=(1000, 3000, 3000), budget=200),
         expect=["table-sun-elevation", "table-sun-azimuth", "table-slot", "table-night"])
def table(cx, M, lat, step, azimuth=False):
    sym.ANGLES = True
    rc = M.radcor
    D = 99
    sym.FORK = sym.ROUND = True
    sp, tcs = rc.solpars(lat)
    if cx.symbolic:
        sp, tcs = sp.astype(object), tcs.astype(object)
    n = 86400 // step
    dec = cx.choice("dec", [-0.4, -0.1, 0.2, 0.4] if azimuth else [-0.4, 0.2])
    tcorr = cx.choice("tcorr", [-3.5, 1.2, 4.0, 40.0, 91.0, -120.0]) if azimuth else cx.real("tcorr", -170.0, 170.0)
    sp[D, 3], tcs[D, 3] = dec, tcorr
    mask = np.array([[1.0, np.nan], [0.0, 1.0]])
    cur = []

    def relief(dem, m, lats, lons, solh, sdir):
        k = len(cur)
        cur.append((solh, sdir, k))
        return np.array([[float(k), 5.0], [6.0, k + 0.5]])

    tc = 3.0
    with Patch(rc, relshad=relief):
        out = rc.LUTshad(sp, tcs, lat, np.zeros((2, 2)), mask, np.array([1.0, 0.0]), np.array([0.0, 1.0]), step, tc)
    cx.check("table-slot", out.shape == (366 * n, 2, 2))
    for k in range(n):
        o = out[D * n + k]
        east, north, up = solar(lat, dec, hour_angle(k * step / 3600, step, tcorr, tc))
        cx.check("table-slot", isnan(val(o[0, 1])) and isnan(val(o[1, 0])))
        q = float(val(o[0, 0]))
        if not up > 0.01:
            cx.check("table-night", q == -1.0 and float(val(o[1, 1])) == -1.0)
            continue
        cx.check("table-slot", q >= 0 and float(val(o[1, 1])) == q + 0.5)
        h, A, _ = cur[int(q)]
        cx.assume(up <= 0.995)
        if not isinstance(up, float):
            c = sym.power(1.0 - up * up, 0.5)          # unit vector: the horizontal part bounds its components
            cx.assume((north <= c) & (north >= -c))
        cx.close("table-sun-elevation", S(h * K), up, tol=1e-6)
        if azimuth:
            cx.close("table-sun-azimuth", Co(A * K) * Co(h * K), north, tol=1e-5)
        if azimuth and east > 1e-3:
            cx.check("table-sun-azimuth", S(A * K) >= -1e-6)
        elif azimuth and east < -1e-3:
            cx.check("table-sun-azimuth", S(A * K) <= 1e-6)


# --- C40 -------------------------------------------------------------------
DIRS = {0: (-1, 0), 45: (-1, 1), 90: (0, 1), 135: (1, 1), 180: (1, 0), 225: (1, -1), 270: (0, -1), 315: (-1, -1)}


def metres(la0, lo0, la1, lo1):
    p = np.radians([la0, lo0, la1, lo1])
    u = lambda a, b: np.array([np.cos(a) * np.cos(b), np.cos(a) * np.sin(b), np.sin(a)])
    return 6371000.0 * np.arccos(np.clip(u(p[0], p[1]) @ u(p[2], p[3]), -1, 1))


def shade(cx, M, n, heights, mask, solh, azi, lat0=0.02, d=0.01):
    lats = lat0 - d * np.arange(n)
    lons = 37.0 + d * np.arange(n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return M.radcor.relshad(heights, mask, lats, lons, solh, azi), lats, lons


@harness("C40", params=[dict(azi=a) for a in DIRS], thorough=[dict(azi=a, n=9) for a in DIRS],
         bounds="7x7 terrain (thorough 9x9; its outermost ring may be ignored) near the equator, 1.1 km spacing, any heights 0-6500 m along and beside the line to the sun, any solar "
                "elevation, eight sun directions, one glacier cell in the middle",
         expect=["shaded-iff-terrain-above-sun", "terrain-elsewhere-ignored", "outside-mask-missing"])
def relief(cx, M, azi, n=7):
    sym.ANGLES = True
    c = n // 2
    dy, dx = DIRS[azi]
    sl = cx.real("tan_sun", 0.005, 3.0)
    solh = sym.fun("arctan", sl) / K
    H = np.full((n, n), 4000.0)
    if cx.symbolic:
        H = H.astype(object)
    z0 = cx.real("z", 1000.0, 5000.0)
    H[c, c] = z0
    line = [(c + k * dy, c + k * dx) for k in range(1, c + 1)]
    for k, i in enumerate(line):
        H[i] = cx.real(f"ridge{k}", 0.0, 6500.0)
    other = cx.real("other", 0.0, 9000.0)      # everything not ahead of the cell
    for i in np.ndindex(n, n):
        v = (i[0] - c, i[1] - c)
        ahead = v[0] * dy + v[1] * dx > 0
        if i != (c, c) and i not in line and not ahead:
            H[i] = other
        elif i != (c, c) and i not in line:
            H[i] = 0.0
    mask = np.full((n, n), np.nan)
    mask[c, c] = 1.0
    illu, lats, lons = shade(cx, M, n, H, mask, solh, azi)
    r = float(val(illu[c, c]))
    cx.check("terrain-elsewhere-ignored", r in (0.0, 1.0))
    D = [metres(lats[c], lons[c], lats[i[0]], lons[i[1]]) for i in line]
    half = D[0] / 2
    if r == 0.0:      # something on the line must rise above the sun (positions known to half a cell)
        up = False
        for i, q in zip(line, D):
            up = (H[i] - z0 > sl * (q - half * 1.001)) | up
        cx.check("shaded-iff-terrain-above-sun", up)
    else:
        for i, q in list(zip(line, D))[:-1]:
            cx.check("shaded-iff-terrain-above-sun", H[i] - z0 <= sl * (q + half * 1.001))
    for i in np.ndindex(n, n):
        if i != (c, c):
            cx.check("outside-mask-missing", isnan(val(illu[i])))


@harness("C40", params=[dict(), dict(lat0=65.0), dict(lat0=-44.0)], bounds="flat 5x5 terrain at any height, sun at any positive elevation, any whole-degree direction in steps of 30; "
         "nine glacier cells", expect=["flat-never-shaded"])
def flat(cx, M, lat0=0.02):
    sym.ANGLES = True
    z = cx.real("z", 0.0, 8000.0)
    h = cx.real("solh", 0.001, 90.0)
    H = obj(cx, (5, 5), {i: z for i in np.ndindex(5, 5)}, 0.0)
    for azi in range(0, 360, 30):
        illu, *_ = shade(cx, M, 5, H, np.ones((5, 5)), h, float(azi), lat0=lat0)
        cx.check("flat-never-shaded", all(float(val(illu[i])) == 1.0 for i in np.ndindex(5, 5) if 0 < i[0] < 4 and 0 < i[1] < 4))


@harness("C40", params=[dict(tilt=0.0), dict(tilt=25.0), dict(tilt=60.0)], bounds="any horizon elevation 0-90 degrees, the same all round or in a sector of 150 degrees only, slopes 0, 25 and 60 degrees, aspects 0 and 250",
         stubs=["relief shading: shaded below the horizon elevation"], expect=["sky-view-range", "sky-view-horizon", "outside-mask-missing"])
def skyview(cx, M, tilt):
    sym.ANGLES = True
    rc = M.radcor
    h0 = cx.real("horizon", 0.0, 90.0)
    asp = cx.choice("aspect", [0.0, 250.0])
    sector = cx.choice("sector", [(0, 360), (35, 185)])
    mask = np.array([[1.0, np.nan]])
    shapes = []

    def relief(dem, m, lats, lons, el, azi):
        shapes.append((el, azi))
        a = np.full((1, 2), np.nan)
        a[0, 0] = 0.0 if sector[0] <= azi <= sector[1] and el < h0 else 1.0
        return a

    with Patch(rc, relshad=relief):
        v = rc.LUTsvf(np.zeros((1, 2)), mask, np.full((1, 2), tilt), np.full((1, 2), asp), np.array([0.0]), np.array([0.0, 1.0]))
    s = float(val(v[0, 0]))
    cx.check("sky-view-range", 0.0 <= s <= 1.0)
    cx.check("outside-mask-missing", isnan(val(v[0, 1])))
    seen = 0
    for el in range(2, 90, 2):
        for azi in range(10, 370, 10):
            up = np.cos(el * K) * np.sin(tilt * K) * np.cos((asp - azi) * K) + np.sin(el * K) * np.cos(tilt * K)
            seen += 1 if up > 1e-12 and not (sector[0] <= azi <= sector[1] and el < h0) else 0
    cx.close("sky-view-horizon", s, seen / (36 * 44.0), tol=2e-3)
