"""Independent description of what a data table means, in eV, and generation of
tables that say the same in many different ways. Nothing here imports naima."""
import numpy as np
from astropy import units as u
from astropy.table import Column, MaskedColumn, QTable, Table

from ..core import logu, sig

UNITS = {  # kind -> units
    "differential flux": ["1/(cm2 s TeV)", "1/(cm2 s erg)", "1/(m2 s eV)", "1/(cm2 s keV)"],
    "flux": ["erg/(cm2 s)", "eV/(cm2 s)", "TeV/(m2 s)", "W/m2"],
    "differential power": ["1/(s TeV)", "1/(s eV)", "1/(s erg)"],
    "power": ["erg/s", "eV/s", "TeV/s", "W"],
}
# reference unit of each kind
REF = {"differential flux": "1/(cm2 s eV)", "flux": "eV/(cm2 s)",
       "differential power": "1/(s eV)", "power": "eV/s"}
EUN = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]


def gen_table(rng, group=0, kinds=None, npt=None, erange=(1e3, 1e14), uls=None):
    """A spec: everything in eV (and the reference unit of the kind)"""
    kind = rng.choice(kinds or sorted(UNITS))
    n = npt or rng.choice([2, 3, 5, 8, 15])
    e0 = logu(rng, erange[0], erange[1] / 1e2)
    e = sorted({sig(e0 * 10 ** rng.uniform(0, 2), 7) for _ in range(n)})
    while len(e) < 2 and npt != 1:
        e.append(e[-1] * 2)
    n = len(e)
    norm = logu(rng, 1e-14, 1e-6)
    flux = [sig(norm * (x / e[0]) ** rng.uniform(-0.6, 0.3), 6) for x in e]
    if kind.startswith("diff"):
        flux = [sig(f / x**2, 7) for f, x in zip(flux, e)]
    sym = rng.random() < 0.5
    lo = [sig(f * rng.uniform(0.05, 0.6), 6) for f in flux]
    hi = lo if sym else [sig(f * rng.uniform(0.05, 0.6), 6) for f in flux]
    em = rng.choice(["width", "error", "errors", "edges", "none", "none"])
    if n == 1 and em == "none":
        em = "edges"
    elo = [sig(x * rng.uniform(0.01, 0.5), 6) for x in e]
    ehi = elo if em in ("width", "error") else [sig(x * rng.uniform(0.01, 0.8), 6) for x in e]
    if uls is None:
        uls = rng.choice(["none", "none", "some", "all0"])
    ul = [uls == "some" and rng.random() < 0.35 for _ in e]
    cl = rng.choice([None, 0.95, 0.99, 0.68, round(rng.uniform(0.6, 0.999), 3)])
    order = list(range(n))
    if rng.random() < 0.4:
        rng.shuffle(order)
    return {
        "kind": kind, "unit": rng.choice(UNITS[kind]), "eunit": rng.choice(EUN),
        "e": e, "flux": flux, "lo": lo, "hi": hi, "sym": sym, "em": em, "elo": elo,
        "ehi": ehi, "ul": ul,
        "ulf": "none" if uls == "none" else rng.choice(["bool", "int", "str", "int32", "uint8"]),
        "flux_ul": uls == "some" and rng.random() < 0.4,
        "cl": cl, "group": rng.choice([None, None, None, 7, "rows"]), "order": order,
        "mixed": rng.random() < 0.4, "q": rng.random() < 0.5, "grp": group,
    }


def subtract(rng, s):
    """Some of the measured fluxes become negative, as after subtracting a background"""
    s["flux"] = [f if ul or rng.random() < 0.6 else -sig(f * rng.uniform(0.1, 2), 6)
                 for f, ul in zip(s["flux"], s["ul"])]


def to_table(s, rs=0):
    """Write the spec as an astropy table."""
    rng = np.random.RandomState(rs)
    o = s["order"]

    def E(x, un=None):
        a = (np.array(x)[o] * u.eV).to(un or s["eunit"])
        return a

    def F(x, un=None):
        return (np.array(x)[o] * u.Unit(REF[s["kind"]])).to(un or s["unit"])

    def eun():
        return EUN[rng.randint(len(EUN))] if s["mixed"] else s["eunit"]

    def fun():
        return UNITS[s["kind"]][rng.randint(len(UNITS[s["kind"]]))] if s["mixed"] else s["unit"]

    cols = {}
    flux = np.array(s["flux"])
    if s["flux_ul"]:
        # the value in the flux column is irrelevant for upper limits
        f = np.where(s["ul"], flux * 0.123, flux)
        cols["flux_ul"] = F(np.where(s["ul"], flux, flux * 5), fun())
    else:
        f = flux
    cols["energy"] = E(s["e"])
    cols["flux"] = F(f)
    if s["sym"]:
        cols["flux_error"] = F(s["lo"], fun())
    else:
        cols["flux_error_lo"] = F(s["lo"], fun())
        cols["flux_error_hi"] = F(s["hi"], fun())
    e, el, eh = (np.array(s[k]) for k in ("e", "elo", "ehi"))
    if s["em"] == "width":
        cols["energy_width"] = E(2 * el, eun())
    elif s["em"] == "error":
        cols["energy_error"] = E(el, eun())
    elif s["em"] == "errors":
        cols["energy_error_lo"] = E(el, eun())
        cols["energy_error_hi"] = E(eh, eun())
    elif s["em"] == "edges":
        cols["energy_lo"] = E(e - el, eun())
        cols["energy_hi"] = E(e + eh, eun())
    ul = np.array(s["ul"])[o]
    if s["ulf"] != "none":
        cols["ul"] = {"bool": ul, "int": ul.astype(int), "int32": ul.astype(np.int32),
                      "uint8": ul.astype(np.uint8),
                      "str": np.array([str(bool(x)) for x in ul])}[s["ulf"]]
    if s["group"] is not None:
        g = np.full(len(e), 7) if s["group"] == 7 else np.arange(len(e)) % 3
        cols["group"] = g[o]
    names = list(cols)
    rng.shuffle(names)
    t = (QTable if s["q"] else Table)([cols[k] for k in names], names=names)
    if s["cl"] is not None:
        t.meta["keywords"] = {"cl": {"value": s["cl"]}}
    return t


FILES = ["ecsv", "ipac", "sextractor", "fits", "votable"]


def through_file(t, s, fmt, path, plain=False):
    """The table as it is read from a file. SExtractor, FITS and VO tables lose the keyword
    of the confidence level, which is then added as documented (as a dictionary or as a number)."""
    from astropy.io import ascii

    t = Table(t)
    for c in t.colnames:
        if t[c].dtype.kind in "b" and fmt != "ecsv" or t[c].dtype.kind == "U" and fmt in ("fits", "votable"):
            t[c] = np.array([str(x) == "True" for x in t[c]]).astype(int)
    if fmt in ("ecsv", "ipac"):
        t.write(path, format="ascii." + fmt, overwrite=True)
        return ascii.read(path)
    if fmt == "sextractor":
        with open(path, "w") as f:
            f.write("# a comment\n#\n")
            for i, c in enumerate(t.colnames):
                un = "" if t[c].unit is None else " [%s]" % t[c].unit.to_string()
                f.write("# %d %s%s\n" % (i + 1, c, un))
            for r in t:
                f.write(" ".join(str(r[c]) for c in t.colnames) + "\n")
        out = ascii.read(path)
    else:
        t.write(path, format=fmt, overwrite=True)
        out = Table.read(path, format=fmt)
    if s["cl"] is not None:
        out.meta["keywords"] = {"cl": s["cl"] if plain else {"value": s["cl"]}}
    return out


def blanks(t, s, rng):
    """The table without the values that are disregarded: errors of upper limits, and upper
    limits of the other points; masked or NaN. Also the points with errors."""
    t = Table(t)
    ul = np.array(s["ul"])[s["order"]]
    nan = rng.randint(2)
    for c in t.colnames:
        if c.startswith("flux_"):
            bad = ~ul if c == "flux_ul" else ul
            x = np.array(t[c], float)
            if nan:
                t[c] = Column(np.where(bad, np.nan, x), unit=t[c].unit)
            else:
                t[c] = MaskedColumn(x, mask=bad, unit=t[c].unit)
    return t


def groups(s, index):
    n = len(s["e"])
    if s["group"] is None:
        return [index] * n
    return [7] * n if s["group"] == 7 else [i % 3 for i in range(n)]


def edges(e, g):
    """Bin half widths for points without: half way, in the geometric sense, to
    the neighbours of the same group"""
    e, g = np.asarray(e, float), np.asarray(g)
    lo, hi = np.zeros(len(e)), np.zeros(len(e))
    for k in set(g.tolist()):
        i = np.where(g == k)[0]
        i = i[np.argsort(e[i])]
        x = e[i]
        mid = np.sqrt(x[1:] * x[:-1])
        lo[i[1:]] = x[1:] - mid
        hi[i[:-1]] = mid - x[:-1]
        lo[i[0]] = x[0] * (1 - x[0] / (x[0] + hi[i[0]]))
        hi[i[-1]] = lo[i[-1]]
    return lo, hi


def rows(specs, sed=None, index=None):
    """Expected content: dict of arrays sorted by energy, energies in eV and
    fluxes in the reference unit of the output kind."""
    out = []
    first = specs[0]["kind"]
    if sed is None:
        sed = not first.startswith("diff")
    for i, s in enumerate(specs):
        e = np.array(s["e"])
        g = groups(s, i if index is None else index[i])
        if s["em"] == "none":
            el, eh = edges(e, g)
        else:
            el, eh = np.array(s["elo"]), np.array(s["ehi"])
        diff = s["kind"].startswith("diff")
        k = e**2 if sed and diff else (e**-2 if not sed and not diff else np.ones(len(e)))
        for j in range(len(e)):
            out.append((e[j], s["flux"][j] * k[j], s["lo"][j] * k[j], s["hi"][j] * k[j],
                        g[j], el[j], eh[j], bool(s["ul"][j]),
                        0.9 if s["cl"] is None else s["cl"]))
    names = ["energy", "flux", "flux_error_lo", "flux_error_hi", "group", "energy_error_lo",
             "energy_error_hi", "ul", "cl"]
    lum = "power" in first
    base = ("power" if lum else "flux")
    kind = base if sed else "differential " + base
    out.sort(key=lambda r: r[0])
    return {n: np.array([r[k] for r in out]) for k, n in enumerate(names)}, kind
