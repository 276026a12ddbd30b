"""Independent reference implementations of the published formulae that the
models of naima document. Plain floats in cgs; energies in eV unless noted.
Nothing here imports naima."""
import math

import numpy as np
from astropy import units as u
from astropy import constants as ac

_e = ac.e.si.value
_mec2 = ac.m_e.si.value * ac.c.si.value**2
C = ac.c.si.value * 1e2
ME = ac.m_e.si.value * 1e3
MEC2_EV = _mec2 / _e
MEC2_ERG = _mec2 * 1e7
MPC2_GEV = ac.m_p.si.value * ac.c.si.value**2 / _e * 1e-9
HBAR = ac.hbar.si.value * 1e7
ESU = _e * ac.c.si.value * 10
ERG = 1e7 * _e  # erg per eV
ALPHA = ac.alpha.value
R0 = ESU**2 / MEC2_ERG
SIGT = 8 * math.pi / 3 * R0**2
KB_EV = ac.k_B.si.value / _e
AR = 4 * ac.sigma_sb.si.value / ac.c.si.value  # J m-3 K-4
KPC_CM = float(u.kpc.to("cm"))


def ev(q):
    return np.asarray(u.Quantity(q).to("eV").value, dtype=float)


# ---------------------------------------------------------------- integrals
def loglog_intervals(y, x):
    """Exact integral of the power law through each pair of points."""
    y = np.asarray(y, dtype=float)
    x = np.asarray(x, dtype=float)
    x1, x2 = x[:-1], x[1:]
    y1, y2 = y[..., :-1], y[..., 1:]
    with np.errstate(all="ignore"):
        L = np.log(x2) - np.log(x1)
        r = np.log(y2) - np.log(y1) + L
        f = np.where(np.abs(r) < 1e-9, 1 + r / 2, np.expm1(r) / np.where(r == 0, 1, r))
        out = x1 * y1 * L * f
    zero = (y1 == 0) | (y2 == 0) | (x1 == x2)
    return np.where(zero, 0.0, out)


def loglog(y, x):
    return loglog_intervals(y, x).sum(axis=-1)


def steep(y, x):
    """Upper limit of the integral in bins where the ratio of the values is near
    the range of doubles, so that an implementation may lose it (or this one:
    a tiny value may underflow to zero)."""
    a, c = np.abs(y[..., :-1] * x[:-1]), np.abs(y[..., 1:] * x[1:])
    big, small = np.maximum(a, c), np.minimum(a, c)
    with np.errstate(all="ignore"):
        lost = (big > 0) & ((small == 0) | (np.log(big) - np.log(small) > 600))
    return np.where(lost, big * np.diff(np.log(x)) / 550, 0.0).sum(axis=-1)


# ---------------------------------------------- particle distributions
def particle(spec, e):
    """Value, in the unit of the amplitude, of a distribution at `e` [eV]."""
    e = np.asarray(e, dtype=float)

    def E(k):
        return float(spec[k][0]) * u.Unit(spec[k][1]).to("eV")

    amp = spec["amplitude"]
    amp = float(amp[0]) if isinstance(amp, (list, tuple)) else float(amp)
    t = spec["type"]
    lx = np.log(e / E("e_0"))
    with np.errstate(all="ignore"):
        if t == "PowerLaw":
            ln = -spec["alpha"] * lx
        elif t == "ExponentialCutoffPowerLaw":
            ln = -spec["alpha"] * lx - (e / E("e_cutoff")) ** spec.get("beta", 1.0)
        elif t in ("BrokenPowerLaw", "ExponentialCutoffBrokenPowerLaw"):
            eb = E("e_break")
            lb = math.log(eb / E("e_0"))
            a1, a2 = spec["alpha_1"], spec["alpha_2"]
            ln = np.where(e < eb, -a1 * lx, -a1 * lb - a2 * (lx - lb))
            if t.startswith("Exp"):
                ln = ln - (e / E("e_cutoff")) ** spec.get("beta", 1.0)
        elif t == "LogParabola":
            ln = -(spec["alpha"] + spec["beta"] * lx) * lx
        else:
            raise KeyError(t)
        return amp * np.exp(ln)


def particle_per_ev(spec, e):
    unit = spec["amplitude"][1]
    return particle(spec, e) * u.Unit(unit).to("1/eV")


# ---------------------------------------------- electron grid
def ngrid(nper, decades, least=10):
    return max(least, int(nper * decades))


def grid_ambiguous(nper, decades):
    x = nper * decades
    return abs(x - round(x)) < 1e-7 and x > 9


def electron_grid(emin_ev, emax_ev, nper):
    l1, l2 = math.log10(emin_ev / MEC2_EV), math.log10(emax_ev / MEC2_EV)
    return np.logspace(l1, l2, ngrid(nper, l2 - l1))


EL_DEFAULT = {
    "Synchrotron": (1e9, 1e9 * MEC2_EV, 100),
    "InverseCompton": (1e9, 1e9 * MEC2_EV, 100),
    "Bremsstrahlung": (1e8, 1e9 * MEC2_EV, 300),
}


def el_limits(spec):
    d = EL_DEFAULT[spec["type"]]

    def g(k, i):
        if k not in spec:
            return d[i]
        return float(spec[k][0]) * u.Unit(spec[k][1]).to("eV")

    return g("Eemin", 0), g("Eemax", 1), spec.get("nEed", d[2])


def ambiguous(spec):
    """Is the number of grid points at the mercy of rounding?"""
    if spec["type"] == "PionDecay":
        lo, hi, n = p_limits(spec)
    else:
        lo, hi, n = el_limits(spec)
    return grid_ambiguous(n, math.log10(hi / lo))


def el_setup(spec):
    lo, hi, n = el_limits(spec)
    gam = electron_grid(lo, hi, n)
    ne = particle_per_ev(spec["particle"], gam * MEC2_EV) * MEC2_EV
    return gam, ne


# ---------------------------------------------- synchrotron (AKP10)
def synchrotron(spec, e, B_gauss):
    """1/(s eV) at photon energies e [eV]"""
    gam, ne = el_setup(spec)
    w = np.asarray(e, float) * ERG
    out = np.empty(len(w))
    fuzz = np.empty(len(w))
    ec = 1.5 * ESU * HBAR * B_gauss * gam**2 / (ME * C)
    for i, E in enumerate(w):
        x = E / ec
        x13 = np.exp(np.log(x) / 3)
        g = (
            1.808 * x13 / np.sqrt(1 + 3.4 * x13**2)
            * (1 + 2.210 * x13**2 + 0.347 * x13**4)
            / (1 + 1.353 * x13**2 + 0.217 * x13**4)
            * np.exp(-x)
        )
        rate = math.sqrt(3) * ESU**3 * B_gauss / (2 * math.pi * MEC2_ERG * HBAR * E) * g
        out[i], fuzz[i] = loglog(rate * ne, gam), steep(rate * ne, gam)
    return out * ERG, fuzz * ERG


def synchrotron_exact_kernel(x, nmu=48):
    """Exact pitch-angle averaged synchrotron function G(x) = AKP10 D5:
    average over an isotropic field of (B_perp/B) F(x / sin)"""
    from scipy.integrate import quad
    from scipy.special import kv

    def F(y):
        if y > 200:
            return 0.0
        # split for the integrable cusp at low y
        a = quad(lambda z: kv(5.0 / 3, z), y, y + 1, limit=200)[0]
        b = quad(lambda z: kv(5.0 / 3, z), y + 1, np.inf, limit=200)[0]
        return y * (a + b)

    mu, wgt = np.polynomial.legendre.leggauss(nmu)
    th = (mu + 1) * math.pi / 4  # 0..pi/2
    s = np.sin(th)
    val = np.array([F(x / si) for si in s])
    # average over solid angle of sin(theta) F(x/sin(theta))
    return float(np.sum(wgt * math.pi / 4 * s * s * val))


# ---------------------------------------------- inverse Compton (KAK14, AA81)
def _g(x, p):
    a, al, b, be = p
    return 1 / (1 + al * x**a / (1 + b * x**be))


def ic_planck_iso(gam, t, eg):
    """Eq. 14 of KAK14: dN/dE dt [mec2^-1 s^-1] at photon energy eg, full black
    body at kT = t, all in units of mec2"""
    z = eg / gam
    x = z / ((1 - z) * 4 * gam * t)
    k = math.pi**2 / 6

    def G(x, c, p):
        return k * (1 + c * x) / (1 + k * c * x) * np.exp(-x) * _g(x, p)

    g3 = G(x, 0.319, (0.606, 0.443, 0.540, 1.481))
    g4 = G(x, 6.620, (0.461, 0.726, 0.382, 1.457))
    pref = 2 * R0**2 * ME**3 * C**4 / (math.pi * HBAR**3) * t**2 / gam**2
    return pref * (z**2 / (2 * (1 - z)) * g3 + g4)


def ic_planck_ani(gam, t, eg, theta):
    z = eg / gam
    x = z / ((1 - z) * 2 * gam * t * (1 - math.cos(theta)))
    k = math.pi**2 / 6

    def G(x, p):
        return (k + x) * np.exp(-x) * _g(x, p)

    g1 = G(x, (0.857, 0.153, 0.254, 1.840))
    g2 = G(x, (0.691, 1.330, 0.534, 1.668))
    pref = 2 * R0**2 * ME**3 * C**4 / (math.pi * HBAR**3) * t**2 / gam**2
    return pref * (z**2 / (2 * (1 - z)) * g1 + g2)


def ic_mono(gam, e0, eg):
    """Scattering rate per target photon, per unit photon energy [s^-1 mec2^-1]
    for isotropic photons of energy e0 (Jones 1968, Aharonian & Atoyan 1981)."""
    z = eg / gam
    b = 4 * e0 * gam
    with np.errstate(all="ignore"):
        q = z / (b * (1 - z))
        f = (
            1 + z**2 / (2 * (1 - z)) + z / (b * (1 - z))
            - 2 * z**2 / (b * (1 - z)) ** 2
            - z**3 / (2 * b * (1 - z) ** 2)
            - 2 * z / (b * (1 - z)) * np.log(b * (1 - z) / z)
        )
    ok = (z < 1) & (q < 1) & (q > 1 / (4 * gam**2))
    return np.where(ok, 0.75 * SIGT * C / (e0 * gam**2) * f, 0.0)


def ic_mono_ani(gam, e0, eg, theta):
    """The same for a photon beam at an angle theta (AA81 Eq. 20)"""
    z = eg / gam
    b = 2 * (1 - math.cos(theta)) * e0 * gam
    with np.errstate(all="ignore"):
        r = z / (b * (1 - z))
        f = 1 + z**2 / (2 * (1 - z)) - 2 * r + 2 * r**2
    ok = (z < 1) & (r < 1)
    return np.where(ok, 0.75 * SIGT * C / (e0 * gam**2) * f, 0.0)


STD_SEEDS = {
    "CMB": (2.72548, None),
    "FIR": (30.0, 0.5),
    "NIR": (3000.0, 1.0),
}


def bb_density(T):
    """Energy density of a black body [eV/cm3]"""
    return AR * T**4 / _e * 1e-6


def dens_ev(q):
    return np.asarray(u.Quantity(np.array(q[0], float), q[1]).to("eV/cm3").value)


def seed_info(s):
    """seed spec -> dict(kind, T[K], u[eV/cm3], theta, e[eV], n[1/(eV cm3)])"""
    if isinstance(s, str):
        T, ue = STD_SEEDS[s]
        return dict(kind="bb", T=T, u=bb_density(T) if ue is None else ue)
    q = u.Quantity(np.array(s[1][0], float), s[1][1])
    if q.unit.physical_type == "temperature":
        T = float(q.to("K").value)
        ue = bb_density(T) if s[2] == 0 or s[2][0] == 0 else float(dens_ev(s[2]))
        if len(s) == 4:
            th = float(u.Quantity(float(s[3][0]), s[3][1]).to("rad").value)
            return dict(kind="ani", T=T, u=ue, theta=th)
        return dict(kind="bb", T=T, u=ue)
    e = np.atleast_1d(q.to("eV").value)
    if e.size == 1:
        return dict(kind="mono", e=float(e[0]), u=float(dens_ev(s[2])))
    d = u.Quantity(np.array(s[2][0], float), s[2][1])
    if d.unit.physical_type == "pressure":
        n = d.to("eV/cm3").value / e**2
    else:
        n = d.to("1/(eV cm3)").value
    return dict(kind="array", e=e, n=n)


def ic_kernel(info, gam, eg):
    """Photon production rate of an electron, 1/(s mec2)"""
    if info["kind"] in ("bb", "ani"):
        t = KB_EV * info["T"] / MEC2_EV
        dil = info["u"] / bb_density(info["T"])
        ok = (eg < gam) & (gam > 1)
        with np.errstate(all="ignore"):
            if info["kind"] == "bb":
                k = ic_planck_iso(gam, t, eg)
            else:
                k = ic_planck_ani(gam, t, eg, info["theta"])
        return dil * np.where(ok, k, 0.0)
    if info["kind"] == "mono":
        e0 = info["e"] / MEC2_EV
        return ic_mono(gam, e0, eg) * info["u"] / info["e"]
    e0 = info["e"] / MEC2_EV
    n = info["n"] * MEC2_EV  # per mec2
    k = np.array([ic_mono(gam, x, eg) * nn for x, nn in zip(e0, n)])
    return loglog(k.T, e0)


def inverse_compton(spec, e, seed):
    """Contribution of one seed, 1/(s eV)"""
    gam, ne = el_setup(spec)
    info = seed_info(seed)
    out, fuzz = np.empty(len(e)), np.empty(len(e))
    for i, E in enumerate(np.asarray(e, float) / MEC2_EV):
        y = ne * ic_kernel(info, gam, E)
        out[i], fuzz[i] = loglog(y, gam), steep(y, gam)
    return out / MEC2_EV, fuzz / MEC2_EV


def planck_n(eps, t):
    """Black body photon density per unit energy, all in mec2 units [cm^-3]"""
    lam = HBAR / (ME * C)
    with np.errstate(all="ignore"):
        return eps**2 / (math.pi**2 * lam**3) / np.expm1(eps / t)


def ic_bb_exact(gam, T, eg, theta=None, n=600):
    """Photon production rate on a black body by direct integration of the
    Klein-Nishina rates over the Planck spectrum, 1/(s mec2)"""
    t = KB_EV * T / MEC2_EV
    z = eg / gam
    if z >= 1:
        return 0.0
    cth = 4.0 if theta is None else 2 * (1 - math.cos(theta))
    emin = z / (1 - z) / (cth * gam)
    lo = max(emin * (1 + 1e-9), 1e-7 * t)
    hi = max(60 * t, lo * 2) if lo < 60 * t else lo * 2
    x = np.linspace(math.log(lo), math.log(hi), n)
    eps = np.exp(x)
    if theta is None:
        k = np.array([float(ic_mono(gam, ep, eg)) for ep in eps])
    else:
        k = np.array([float(ic_mono_ani(gam, ep, eg, theta)) for ep in eps])
    f = k * planck_n(eps, t) * eps
    return float(np.trapezoid(f, x))


# ---------------------------------------------- bremsstrahlung (Baring+99)
def _brems_s1(g, k):
    with np.errstate(all="ignore"):
        br = np.log(2 * g * (g - k) / k) - 0.5
        s = 4 * R0**2 * ALPHA / k * (1 + (1 / 3 - k / g) * (1 - k / g)) * br
    return np.where(g > k, s, 0.0)


def _brems_s2_rest(k):
    if k == 0.5:
        k = 0.5 * (1 - 1e-15)
    if k > 0.05:
        l2 = math.log1p(-2 * k)
        poly = 1 / (4 * k**3) - 1 / (2 * k**2) + 3 / k - 2 + 4 * k
        return (
            -1 / k**2 + 3 / k - 4 - 4 * k - 8 * k * k - 2 * (1 - 2 * k) * l2 * poly
        )
    # -2 (1-2k) ln(1-2k) = sum_j c_j k^j, multiplied by poly term by term
    c = [0.0, 4.0] + [0.0] * 40
    for j in range(2, 42):
        c[j] = 2 * (2.0**j / j - 2 * 2.0 ** (j - 1) / (j - 1))
    p = {-3: 0.25, -2: -0.5, -1: 3.0, 0: -2.0, 1: 4.0}
    tot = {}
    for j in range(1, 42):
        for i, pi in p.items():
            tot[i + j] = tot.get(i + j, 0.0) + c[j] * pi
    for i, q in ((-2, -1.0), (-1, 3.0), (0, -4.0), (1, -4.0), (2, -8.0)):
        tot[i] = tot.get(i, 0.0) + q
    return sum(v * k**i for i, v in tot.items() if i >= 0)


def _brems_s2(g, k):
    p = R0**2 * ALPHA / (3 * k)
    if k <= 0.5:
        # the sum of the other terms is O(1): evaluate it without cancellation
        t = 16 * (1 - k + k * k) * np.log(g / k) + _brems_s2_rest(k)
    else:
        t = 2 / k * (
            (4 - 1 / k + 1 / (4 * k * k)) * np.log(2 * g) - 2 + 2 / k - 5 / (8 * k * k)
        )
    return np.where(g > k, p * t, np.where(g == k, 0.5 * p * t, 0.0))


def _brems_ee_rel(g, k):
    A = 1 - 8 / 3 * (g - 1) ** 0.2 / (g + 1) * (k / g) ** (1 / 3)
    return (_brems_s1(g, k) + _brems_s2(g, k)) * A


def _brems_ee_nr(g, k):
    with np.errstate(all="ignore"):
        x = 4 * k / (g * g - 1)
        b = np.sqrt(1 - 1 / g**2)
        B = 1 + (g * g - 1) / 2
        CC = 10 * x * g * b * (2 + g * b) / (1 + x * x * (g * g - 1))
        s = np.sqrt(1 - x)
        F = B * (17 - 3 * x * x / (2 - x) ** 2 - CC) * s + (
            12 * (2 - x) - 7 * x * x / (2 - x) - 3 * x**4 / (2 - x) ** 3
        ) * np.log((1 + s) / np.sqrt(x))
        sg = 4 * R0**2 * ALPHA / (15 * k) * F
    return np.where((x < 1) & (g >= 1), sg, 0.0)


def bremsstrahlung(spec, e, n0, wee, wep, parts=False):
    """1/(s eV); also the magnitude of what intervals with a change of sign of
    the cross section contribute (where the log-log rule is undefined)."""
    gam, ne = el_setup(spec)
    gt = 2e6 / MEC2_EV
    out = np.zeros(len(e))
    fuzz = np.zeros(len(e))
    for i, k in enumerate(np.asarray(e, float) / MEC2_EV):
        ee = np.where(gam <= gt, _brems_ee_nr(gam, k), _brems_ee_rel(gam, k)) * ne
        ep = _brems_s1(gam, k) * ne
        for w, y in ((wee, ee), (wep, ep)):
            sgn = y[:-1] * y[1:] < 0
            iv = loglog_intervals(y, gam)
            bad = sgn | ~np.isfinite(iv)
            size = np.abs(gam[:-1] * np.nan_to_num(np.abs(y[:-1]) + np.abs(y[1:]))
                          * np.diff(np.log(gam)))
            out[i] += w * np.sum(np.where(bad, 0.0, iv))
            # negative arms: same sign, the rule is fine; sign changes are not
            fuzz[i] += abs(w) * (np.sum(np.where(bad, size, 0.0)) + steep(y, gam))
    f = n0 * C / MEC2_EV
    return np.maximum(out, 0.0) * f, fuzz * f


# ---------------------------------------------- pion decay (Kafexhiu+14)
MPI = 0.1349766
TTH = 0.27966184
P_TH = MPC2_GEV + TTH

A_TAB = {
    "Geant4": (0.728, 0.596, 0.491, 0.2503, 0.117),
    "Pythia8": (0.652, 0.0016, 0.488, 0.1928, 0.483),
    "SIBYLL": (5.436, 0.254, 0.072, 0.075, 0.166),
    "QGSJET": (0.908, 0.0009, 6.089, 0.176, 0.448),
}
B_TAB = {
    "Geant4_lo": (9.53, 0.52, 0.054),
    "Geant4": (9.13, 0.35, 9.7e-3),
    "Pythia8": (9.06, 0.3795, 0.01105),
    "SIBYLL": (10.77, 0.412, 0.01264),
    "QGSJET": (13.16, 0.4419, 0.01439),
}
F_TAB = {
    "Geant4": (3.0, 0.5, 4.9, 1.0),
    "Pythia8": (3.5, 0.5, 4.0, 1.0),
    "SIBYLL": (3.55, 0.5, 3.6, 1.0),
    "QGSJET": (3.55, 0.5, 4.5, 1.0),
}
TTR = {"Pythia8": 50.0, "SIBYLL": 100.0, "QGSJET": 100.0, "Geant4": 100.0}


def p_limits(spec):
    """Proton limits [GeV] and points per decade of a PionDecay spec"""

    def g(k, d):
        if k not in spec:
            return d
        return float(spec[k][0]) * u.Unit(spec[k][1]).to("GeV")

    return g("Epmin", P_TH + 1e-4), g("Epmax", 1e7), spec.get("nEpd", 100)


def sigma_inel(T):
    """mb"""
    L = math.log(T / TTH)
    return (30.7 - 0.96 * L + 0.18 * L * L) * (1 - (TTH / T) ** 1.9) ** 3


def sigma_pi(T, model):
    """Inclusive neutral pion cross section [mb]"""
    mp, mpi = MPC2_GEV, MPI
    if T < 2.0:
        M, G = 1.1883, 0.2264
        s = 2 * mp * (T + 2 * mp)
        g = math.sqrt(M**2 * (M**2 + G**2))
        K = math.sqrt(8) * M * G * g / (math.pi * math.sqrt(M**2 + g))
        bw = mp * K / (((math.sqrt(s) - mp) ** 2 - M**2) ** 2 + M**2 * G**2)
        eta = math.sqrt(
            max(0.0, (s - mpi**2 - 4 * mp**2) ** 2 - 16 * mpi**2 * mp**2)
        ) / (2 * mpi * math.sqrt(s))
        one = 7.66e-3 * eta**1.95 * (1 + eta + eta**5) * bw**1.86
        two = 0.0 if T < 0.56 else 5.7 / (1 + math.exp(-9.3 * (T - 1.4)))
        return one + two
    if T < 5.0:
        Q = (T - TTH) / mp
        return sigma_inel(T) * (-6e-3 + 0.237 * Q - 0.023 * Q * Q)
    a = A_TAB["Geant4"] if T < TTR[model] else A_TAB[model]
    x = (T - 3.0) / mp
    mult = a[0] * x ** a[3] * (1 + math.exp(-a[1] * x ** a[4])) * (
        1 - math.exp(-a[2] * x**0.25)
    )
    return sigma_inel(T) * mult


def pion_max(T):
    """Largest pion and photon lab energies for a proton of kinetic energy T"""
    mp, mpi = MPC2_GEV, MPI
    s = 2 * mp * (T + 2 * mp)
    ecm = (s - 4 * mp**2 + mpi**2) / (2 * math.sqrt(s))
    pcm = math.sqrt(max(0.0, ecm**2 - mpi**2))
    gcm = (T + 2 * mp) / math.sqrt(s)
    bcm = math.sqrt(1 - gcm**-2)
    epi = gcm * (ecm + pcm * bcm)
    gl = epi / mpi
    return epi, mpi / 2 * gl * (1 + math.sqrt(max(0.0, 1 - gl**-2)))


def diff_sigma(Ep, Eg, model, nuc):
    """Differential photon production cross section [cm2/GeV]"""
    mp, mpi = MPC2_GEV, MPI
    T = Ep - mp
    if T <= TTH:
        return 0.0
    epi, egmax = pion_max(T)
    sp = sigma_pi(T, model)
    if T < 1.0:
        amax = 5.9 * sp / epi
    else:
        if T >= TTR[model]:
            b = B_TAB[model]
        elif T >= 5.0:
            b = B_TAB["Geant4"]
        else:
            b = B_TAB["Geant4_lo"]
        th = T / mp
        amax = b[0] * th ** -b[1] * math.exp(b[2] * math.log(th) ** 2) * sp / mp
    q = (T - 1.0) / mp
    mu = 1.25 * q**1.25 * math.exp(-1.25 * q) if q > 0 else 0.0
    if T > TTR[model]:
        lam, al, be, ga = F_TAB[model]
    elif T <= 1.0:
        lam, al, be, ga = 1.0, 1.0, 3.29 - 0.2 * (T / mp) ** -1.5, 0.0
    elif T <= 4.0:
        lam, al, be, ga = 3.0, 1.0, mu + 2.45, mu + 1.45
    elif T <= 20.0:
        lam, al, be, ga = 3.0, 1.0, 1.5 * mu + 4.95, mu + 1.50
    else:
        lam, al, be, ga = 3.0, 0.5, 4.2, 1.0
    Y = Eg + mpi**2 / (4 * Eg)
    Ym = egmax + mpi**2 / (4 * egmax)
    X = min(1.0, (Y - mpi) / (Ym - mpi))
    Cc = lam * mpi / Ym
    F = (1 - X**al) ** be / (1 + X / Cc) ** ga
    out = amax * F * 1e-27
    if nuc:
        if T < 1.0:
            eps = 1.9141
        else:
            f = sigma_inel(T) / sigma_inel(1e3)
            G = 1 + math.log(max(1.0, f))
            eps = 1.37 + 0.39 * (10 * math.pi) * G / sigma_inel(T)
        out *= eps
    return out


def proton_grid(spec):
    lo, hi, n = p_limits(spec)
    return np.logspace(math.log10(lo), math.log10(hi), ngrid(n, math.log10(hi / lo)))


def pion_decay(spec, e, nh, model="Pythia8", nuc=True):
    """1/(s eV), without look-up table; e in eV"""
    Ep = proton_grid(spec)
    J = particle_per_ev(spec["particle"], Ep * 1e9) * 1e9  # per GeV
    out, fuzz = np.empty(len(e)), np.empty(len(e))
    for i, Eg in enumerate(np.asarray(e, float) / 1e9):
        ds = np.array([diff_sigma(p, Eg, model, nuc) for p in Ep])
        out[i], fuzz[i] = loglog(ds * J, Ep), steep(ds * J, Ep)
    k = nh * C * 1e-9
    return out * k, fuzz * k


# ---------------------------------------------- pion decay (Kelner+06)
def k06_sigma(E):
    """cm2, E in TeV"""
    L = math.log(E)
    s = 34.3 + 1.88 * L + 0.25 * L * L
    if E <= 0.1:
        th = 1.22e-3
        s = s * (1 - (th / E) ** 4) ** 2 if E > th else 0.0
    return s * 1e-27


def k06_F(x, E):
    L = math.log(E)
    B = 1.30 + 0.14 * L + 0.011 * L * L
    be = 1 / (1.79 + 0.11 * L + 0.008 * L * L)
    k = 1 / (0.801 + 0.049 * L + 0.014 * L * L)
    xb = x**be
    d = 1 + k * xb * (1 - xb)
    lx = math.log(x)
    return (
        B * lx / x * ((1 - xb) / d) ** 4
        * (1 / lx - 4 * be * xb / (1 - xb) - 4 * k * be * xb * (1 - 2 * xb) / d)
    )


def k06_full(J, Eg):
    """1/(s TeV) for 1 proton/cm3: Eq. 72; J(E[TeV]) in 1/TeV"""
    # substitution x = exp(-y), then Gauss-Legendre panels in y
    tot = 0.0
    edges = np.concatenate([[1e-9, 1e-4, 1e-2], np.linspace(0.1, 40, 81)])
    t, w = np.polynomial.legendre.leggauss(12)
    for a, b in zip(edges[:-1], edges[1:]):
        y = 0.5 * (b - a) * t + 0.5 * (a + b)
        part = 0.0
        for yi, wi in zip(y, w):
            x = math.exp(-yi)
            Ep = Eg / x
            part += wi * k06_sigma(Ep) * J(Ep) * k06_F(x, Ep)
        part *= 0.5 * (b - a)
        tot += part
        if a > 3 and abs(part) < 1e-9 * abs(tot):
            break
    return C * tot


def k06_quad_error(J, Eg):
    """Relative error that adaptive quadrature (epsrel of 1e-3) makes on Eq. 72: it
    overlooks sharp cutoffs now and then"""
    from scipy.integrate import quad

    exact = k06_full(J, Eg) / C

    def f(x):
        Ep = Eg / x
        return k06_sigma(Ep) * J(Ep) * k06_F(x, Ep) / x

    return abs(quad(f, 0.0, 1.0, epsrel=1e-3, epsabs=0)[0] / exact - 1) if exact > 0 else 0.0


def k06_delta(J, Eg):
    """Delta approximation with one pion per interaction: Eq. 78"""
    mpi, mp, Kpi = 1.349766e-4, MPC2_GEV * 1e-3, 0.17
    lo = Eg + mpi**2 / (4 * Eg)
    # E = mpi*cosh(v): dE/sqrt(E^2-mpi^2) = dv
    v0 = math.acosh(max(1.0, lo / mpi))
    t, w = np.polynomial.legendre.leggauss(12)
    tot = 0.0
    a = v0
    # kinematic edge of the cross section, where it starts from zero
    eth = (1.22e-3 - mp) * Kpi
    vth = math.acosh(eth / mpi) if eth > mpi else 0.0
    kink = math.acosh((0.1 - mp) * Kpi / mpi)
    cuts = sorted(x for x in (vth, kink) if x > v0)
    grid = [v0] + cuts
    pts = []
    for i, g in enumerate(grid):
        nxt = grid[i + 1] if i + 1 < len(grid) else g + 45
        n = max(4, int((nxt - g) / 0.25))
        pts.append(np.linspace(g, nxt, n + 1))
    for p in pts:
        for a, b in zip(p[:-1], p[1:]):
            v = 0.5 * (b - a) * t + 0.5 * (a + b)
            for vi, wi in zip(v, w):
                Ep = mp + mpi * math.cosh(vi) / Kpi
                tot += 0.5 * (b - a) * wi * k06_sigma(Ep) * J(Ep)
    return 2 * C / Kpi * tot


def kelner06(J, e, nh, Etrans=0.1):
    """1/(s eV); e in eV, J(E[TeV]) in 1/TeV"""
    out = []
    ratio = None
    for Eg in np.asarray(e, float) / 1e12:
        if Eg >= Etrans:
            out.append(k06_full(J, Eg))
        else:
            if ratio is None:
                ratio = k06_full(J, Etrans) / k06_delta(J, Etrans)
            out.append(ratio * k06_delta(J, Eg))
    return np.array(out) * nh * 1e-12
