"""C18: prior distributions."""
import math

import numpy as np

from ..core import logu, sig

RULE = """Random parameters and arguments of the three prior functions, with values
inside, outside, next to and exactly on the limits, as int, float and numpy
numbers, and reversed or degenerate ranges. Oracles: the definition of each
distribution; the integral of the normal density; exact boundaries; differences
of the logarithmic prior. Non-trivial: every case."""
REQUIRED = ["uniform", "normal", "log-uniform", "edge", "normalisation", "type"]


def gen(rng, tier):
    n = 1500 if tier == "quick" else 200000
    out = []
    for _ in range(n):
        a = rng.choice([rng.uniform(-50, 50), sig(logu(rng, 1e-30, 1e30)), rng.randint(-5, 5)])
        w = rng.choice([logu(rng, 1e-8, 1e8), 1, 0.0])
        out.append({"a": a, "b": a + w, "v": rng.uniform(-2, 3), "mu": rng.uniform(-1e3, 1e3),
                    "s": sig(logu(rng, 1e-6, 1e6)), "z": rng.gauss(0, 4),
                    "lo": sig(logu(rng, 1e-20, 1e20)), "f": sig(logu(rng, 1, 1e10)),
                    "lv": sig(logu(rng, 1e-25, 1e25))})
    return out


def run(case, mon):
    import naima as n

    a, c = case["a"], case["b"]
    inf = float("inf")

    def num(x):
        mon.check("type", np.ndim(x) == 0 and not np.isnan(float(x)), "not a number: %r" % (x,))
        return float(x)

    # uniform
    v = a + case["v"] * (c - a)
    want = 0.0 if a <= v <= c else -inf
    mon.check("uniform", num(n.uniform_prior(v, a, c)) == want, "uniform", case=[v, a, c])
    for x in (a, c):
        mon.check("edge", num(n.uniform_prior(x, a, c)) == 0.0, "limit included", case=[x, a, c])
    for x in (np.nextafter(float(a), -inf), np.nextafter(float(c), inf)):
        if x < a or x > c:
            mon.check("edge", num(n.uniform_prior(x, a, c)) == -inf, "outside", case=[x, a, c])
    mon.check("uniform", num(n.uniform_prior(np.float64(v), a, inf)) == (0.0 if v >= a else -inf),
              "half open", case=[v, a])
    mon.check("uniform", num(n.uniform_prior(v, -inf, c)) == (0.0 if v <= c else -inf), "half open")
    if c > a:
        mon.check("uniform", num(n.uniform_prior((a + c) / 2, c, a)) == -inf, "reversed limits")
    # normal
    mu, s, z = case["mu"], case["s"], case["z"]
    x = mu + z * s
    want = -0.5 * ((x - mu) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi)
    mon.close("normal", num(n.normal_prior(x, mu, s)), want, rtol=1e-9, atol=1e-9, msg="normal")
    mon.check("normal", num(n.normal_prior(mu, mu, s)) >= num(n.normal_prior(x, mu, s)), "maximum at the mean")
    mon.close("normal", num(n.normal_prior(mu + (mu - x), mu, s)), want, rtol=1e-7, atol=1e-7 + 1e-9 * abs(mu / s),
              msg="symmetric")
    g = np.linspace(-9, 9, 181)
    d = sum(math.exp(num(n.normal_prior(mu + t * s, mu, s))) for t in g) * 0.1 * s
    mon.close("normalisation", d, 1.0, rtol=1e-6 + 1e-8 * abs(mu / s), msg="integral of the normal density")
    # log uniform
    lo, hi, lv = case["lo"], case["lo"] * case["f"], case["lv"]
    want = -math.log(lv) if lo <= lv <= hi else -inf
    mon.close("log-uniform", num(n.log_uniform_prior(lv, lo, hi)), want, rtol=1e-12, msg="log-uniform")
    mon.close("log-uniform", num(n.log_uniform_prior(lv)), -math.log(lv), rtol=1e-12, msg="without limits")
    mon.close("log-uniform", num(n.log_uniform_prior(lv, umin=lo)), -math.log(lv) if lv >= lo else -inf,
              rtol=1e-12, msg="lower limit")
    mon.close("log-uniform", num(n.log_uniform_prior(lv, umax=hi)), -math.log(lv) if lv <= hi else -inf,
              rtol=1e-12, msg="upper limit")
    for x in (lo, hi):
        mon.close("edge", num(n.log_uniform_prior(x, lo, hi)), -math.log(x), rtol=1e-12, msg="limit included")
    for x in (np.nextafter(lo, 0), np.nextafter(hi, inf)):
        mon.check("edge", num(n.log_uniform_prior(x, lo, hi)) == -inf, "outside", case=[x, lo, hi])
    for x in (0, 0.0, -lv, -1):
        mon.check("edge", num(n.log_uniform_prior(x)) == -inf, "not positive", x=x)
        mon.check("edge", num(n.log_uniform_prior(x, -10, 10)) == -inf, "not positive", x=x)
    for x in (0, 0.0, -lv, -1):
        mon.check("edge", num(n.log_uniform_prior(lv, umax=x)) == -inf, "upper limit not positive", x=x)
        mon.check("edge", num(n.log_uniform_prior(lv, -2 * lv - 2, x)) == -inf, "upper limit not positive", x=x)
        mon.close("edge", num(n.log_uniform_prior(lv, umin=x)), -math.log(lv), rtol=1e-12,
                  msg="lower limit not positive")
    mon.cls("range", "degenerate" if a == c else "regular")
    mon.sample(**case)
