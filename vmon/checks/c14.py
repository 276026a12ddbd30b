"""C14: the log-log integrator."""
import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random arrays: power laws (indices through the -1 singularity, up to
+-60), broken and curved functions, zeros, repeated abscissae, decreasing
abscissae, one to three dimensions integrated along each axis with common or full
abscissae, with and without units. Oracles: the closed form of power laws; an
expm1-based evaluation of each interval; sums and splits of the range; scaling of
both arguments. Non-trivial: some interval contributes."""
REQUIRED = ["power-law", "reference", "split", "intervals", "axis", "unit", "zeros",
            "scaling", "inputs"]


def gen(rng, tier):
    n = 1500 if tier == "quick" else 150000
    out = []
    for i in range(n):
        out.append({"kind": ["pl", "random", "zeros", "near", "nd", "data"][i % 6],
                    "n": rng.choice([2, 3, 5, 10, 40, 300]),
                    "x0": sig(logu(rng, 1e-12, 1e12)), "span": sig(logu(rng, 1e-4, 12)),
                    "b": rng.choice([-1.0, -1.0 + rng.choice([1e-12, 1e-9, -1e-7, 1e-4]),
                                     round(rng.uniform(-5, 5), 3), rng.uniform(-60, 60)]),
                    "amp": sig(logu(rng, 1e-30, 1e30)),
                    "nd": rng.choice([2, 2, 3]), "ux": rng.choice([None, "eV", "TeV", "s", "cm"]),
                    "uy": rng.choice([None, "1/(s eV)", "erg/(cm2 s)", "1/TeV"]),
                    "rs": rng.randrange(1 << 30)})
    return out


def run(case, mon):
    from naima.utils import trapz_loglog

    rng = np.random.RandomState(case["rs"])
    n, kind = case["n"], case["kind"]
    mon.cls("kind", kind)
    mon.cls("points", n)
    lx = np.sort(rng.uniform(0, case["span"], n))
    lx = lx - lx[0]
    if kind == "pl":
        lx = np.linspace(0, case["span"], n)
    x = case["x0"] * 10**lx
    if np.any(np.diff(x) <= 0) and kind != "zeros":
        return mon.mark_trivial()
    ux, uy = case["ux"], case["uy"]
    un = u.Unit(ux or "") * u.Unit(uy or "")

    def T(y, x, **k):
        return trapz_loglog(y if uy is None else y * u.Unit(uy),
                            x if ux is None else x * u.Unit(ux), **k)

    def read(r, shape=()):
        if ux or uy:
            mon.check("unit", isinstance(r, u.Quantity) and r.unit.is_equivalent(un),
                      "unit %s instead of %s" % (getattr(r, "unit", None), un))
            return val(r, un, shape)
        mon.check("unit", not isinstance(r, u.Quantity) or r.unit.is_equivalent(""), "unit")
        return val(r, None, shape)

    sl = np.full(n, case["b"])
    if kind == "pl":
        with np.errstate(all="ignore"):
            y = case["amp"] * (x / x[0]) ** case["b"]
            if not (np.isfinite(y).all() and np.all(y * x > 1e-290) and np.all(y * x < 1e290)):
                return mon.mark_trivial()
            k = case["b"] + 1
            L = np.log(x[-1] / x[0])
            want = case["amp"] * x[0] * (np.expm1(k * L) / k if abs(k) > 1e-13 else L)
        # nearly singular index: the power of the published rule is relative to b+1
        mon.close("power-law", read(T(y, x)), want, rtol=2e-5, msg="index %r" % case["b"])
    else:
        y = case["amp"] * 10 ** (rng.uniform(-2, 2, n))
        if kind == "near":
            y = case["amp"] * (x / x[0]) ** (-1 + rng.choice([0, 1e-11, 1e-8, 1e-5]))
        elif kind == "zeros":
            y[rng.rand(n) < 0.4] = 0
            j = rng.randint(n)
            x[j:] = x[j:] * 1.0
            if n > 3:
                x[j] = x[max(0, j - 1)]
            x = np.sort(x)
        elif kind == "data":
            y = case["amp"] * (x / x[0]) ** rng.uniform(-3, 1) * np.exp(-x / x[-1] * 5)
    xin, yin = x.copy(), y.copy()
    got = read(T(y, x))
    # the rule of the code divides by b + 1: cancellation for tiny intervals
    with np.errstate(all="ignore"):
        bb = np.abs(np.log(y[1:] / y[:-1]) / np.log(x[1:] / x[:-1]) + 1)
        bb = np.where(np.isfinite(bb), bb, 1)
        ll = np.abs(np.log(x[1:] / x[:-1]))
        ll = np.where(ll > 0, ll, 1)
        can = 1e-14 / np.minimum(1, bb * ll + 1e-300)
        can = np.where(bb < 1.1e-10, 1e-9, can)
        can = np.minimum(can, 1) + 1e-14 / np.minimum(1, ll) ** 2
    iv = P.loglog_intervals(y, x)
    slack = np.sum(np.abs(iv) * can) * 50
    mon.close("reference", got, iv.sum(), rtol=1e-9, atol=slack, msg=kind)
    if not iv.any():
        mon.mark_trivial()
    g = read(T(y, x, intervals=True), (n - 1,))
    mon.close("intervals", g, iv, rtol=1e-9, atol=np.abs(iv) * can * 50, msg="intervals")
    mon.close("intervals", g.sum(), got, rtol=1e-12, atol=1e-15 * np.abs(g).sum(), msg="sum of intervals")
    if kind == "zeros":
        z = (y[1:] == 0) | (y[:-1] == 0) | (x[1:] == x[:-1])
        mon.close("zeros", g[z], np.zeros(z.sum()), msg="intervals with zeros", n=max(1, z.sum()))
        mon.close("zeros", read(T(0 * y, x)), 0.0, msg="all zeros")
    if n >= 3:
        j = rng.randint(1, n - 1)
        p = read(T(y[: j + 1], x[: j + 1])) + read(T(y[j:], x[j:]))
        mon.close("split", p, got, rtol=1e-10, atol=1e-14 * np.abs(g).sum(), msg="split")
    r = read(T(y[::-1], x[::-1]))
    mon.close("scaling", r, -got, rtol=1e-9, atol=2 * slack, msg="decreasing abscissae")
    gr = read(T(y[::-1], x[::-1], intervals=True), (n - 1,))
    mon.close("intervals", gr[::-1], -g, rtol=1e-9, atol=np.abs(iv) * can * 100, msg="intervals, decreasing abscissae")
    lst = val(trapz_loglog(list(map(float, y)), list(map(float, x))), None, ())
    mon.close("scaling", lst, got, rtol=1e-12, atol=1e-15 * np.abs(g).sum(), msg="lists")
    if kind in ("random", "zeros"):
        # whole numbers, which are counted in another type
        xi = np.cumsum(rng.randint(1, 12, n))
        yi = rng.randint(0 if kind == "zeros" else 1, 13, n)
        big = rng.rand() < 0.3
        dt = np.int64 if big or xi[-1] > 120 else rng.choice([np.int8, np.int32, np.int64, np.uint8])
        if big:
            xi, yi = xi * 10**11, yi * 10**9
        want = P.loglog_intervals(yi.astype(float), xi.astype(float))
        for a, c in ((yi.astype(dt), xi.astype(dt)), (yi.astype(dt), xi.astype(float)), (yi.astype(float), xi.astype(dt))):
            mon.close("scaling", val(trapz_loglog(a, c), None, ()), want.sum(), rtol=1e-9, msg="whole numbers %s" % np.dtype(dt))
    ky, kx = 10 ** rng.uniform(-5, 5, 2)
    mon.close("scaling", read(T(y * ky, x * kx)), got * ky * kx, rtol=1e-8,
              atol=4 * slack * ky * kx, msg="scaled arguments")
    mon.close("scaling", read(T(-y, x)), -got, rtol=1e-9, atol=slack, msg="negative function")
    if ux == "eV":
        t = trapz_loglog(y, (x * u.eV).to("TeV"))
        mon.close("unit", val(t, "eV", ()), got if uy is None else float(read(T(y, x))),
                  rtol=1e-8, atol=4 * slack, msg="abscissae in TeV")
    if kind == "nd":
        shp = (3, 4, n)[-case["nd"]:]
        Y = y * 10 ** rng.uniform(-1, 1, shp)
        want = P.loglog_intervals(Y, x).sum(-1)
        sk = slack * 100 + 1e-9 * np.abs(want)
        for ax in range(case["nd"]):
            Ya = np.moveaxis(Y, -1, ax)
            mon.close("axis", read(T(Ya, x, axis=ax), want.shape), want, rtol=1e-8, atol=sk,
                      msg="axis %d" % ax)
            mon.close("axis", read(T(Ya, x, axis=ax - case["nd"]), want.shape), want, rtol=1e-8,
                      atol=sk, msg="axis %d" % (ax - case["nd"]))
            X = np.broadcast_to(np.moveaxis(np.broadcast_to(x, shp), -1, ax), Ya.shape)
            mon.close("axis", read(T(Ya, X, axis=ax), want.shape), want, rtol=1e-8, atol=sk,
                      msg="full abscissae")
            gi = val(T(Ya, x, axis=ax, intervals=True), un if (ux or uy) else None)
            mon.close("axis", gi.sum(ax), want, rtol=1e-8, atol=sk, msg="intervals along axis")
        mon.close("axis", read(T(Y, x), want.shape), want, rtol=1e-8, atol=sk, msg="default axis")
    mon.check("inputs", np.array_equal(x, xin) and np.array_equal(y, yin), "input arrays changed")
    mon.sample(kind=kind, n=n, result=float(got), reference=float(iv.sum()))
