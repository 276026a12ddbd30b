"""C15: data tables are read to the same normal form however they are written."""
import copy
import os
import tempfile

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from .. import build as b
from ..core import sig, val
from ..refs import data as D

RULE = """Random spectra (one to fifteen points; differential or integral, flux or
luminosity) written as Table or QTable in random units, row and column order, with
every documented form of flux and energy uncertainties, upper limit flags,
upper limit values, confidence levels and groups. Oracle: the physical content of
the spectrum, known by construction, also after writing the table to a file of a documented format
and reading it again, with values that are disregarded (errors of upper limits) missing, and including the bin edges derived for points
that have none. Also build_data_table, and rejection of incomplete or
inconsistent tables. Non-trivial: every case."""
REQUIRED = ["content", "flags", "groups", "unit", "build", "incomplete", "input-unchanged",
            "again", "equal-energies", "file", "level", "blank"]


def gen(rng, tier):
    n = 450 if tier == "quick" else 20000
    out = [{"t": D.gen_table(rng, npt=1 if i % 9 == 4 else None), "sed": rng.choice([None, True, False]),
            "rs": rng.randrange(1 << 30)} for i in range(n)]
    for c in out:
        t = c["t"]
        if rng.random() < 0.1:
            D.subtract(rng, t)
        if len(t["e"]) > 1 and t["em"] != "none" and rng.random() < 0.15:
            # several measurements at one energy
            j = rng.randrange(1, len(t["e"]))
            t["e"][j] = t["e"][j - 1]
        c["file"] = rng.choice(D.FILES) if rng.random() < 0.5 else None
        c["plain"] = rng.random() < 0.5
    return out


def snapshot(t):
    return (type(t), list(t.colnames), repr(t.meta),
            [(str(getattr(t[c], "unit", None)), np.array(t[c]).tolist(), np.array(t[c]).dtype.str)
             for c in t.colnames])


def _compare(mon, got, want, kind, rule="content"):
    n = len(want["energy"])
    mon.check("content", len(got) == n, "%d rows instead of %d" % (len(got), n))
    order = np.argsort(want["energy"], kind="stable")
    mon.check("content", np.all(np.diff(got["energy"].to("eV").value) >= 0),
              "rows are not sorted by energy")
    for c in ("energy", "energy_error_lo", "energy_error_hi"):
        mon.close(rule, val(got[c], "eV", (n,)), want[c][order], rtol=1e-9,
                  atol=1e-9 * np.abs(want["energy"][order]), msg=c)
    ref = D.REF[kind]
    for c in ("flux", "flux_error_lo", "flux_error_hi"):
        mon.close(rule, val(got[c], ref, (n,)), want[c][order], rtol=1e-9, msg=c)
    mon.check("flags", np.asarray(got["ul"]).dtype == bool
              and np.array_equal(np.asarray(got["ul"]), want["ul"][order]), "upper limits",
              got=np.asarray(got["ul"]), want=want["ul"][order])
    mon.close("flags", np.asarray(got["cl"], float), want["cl"][order], rtol=1e-12,
              msg="confidence levels")
    mon.check("groups", np.array_equal(np.asarray(got["group"]), want["group"][order]),
              "groups", got=np.asarray(got["group"]), want=want["group"][order])
    std = {"differential flux": "1/(s cm2 TeV)", "flux": "erg/(s cm2)",
           "differential power": "1/(s TeV)", "power": "erg/s"}[kind]
    mon.check("unit", all(got[c].unit == u.Unit(std) for c in
                          ("flux", "flux_error_lo", "flux_error_hi")),
              "fluxes in %s instead of %s" % (got["flux"].unit, std))


def canon(e, *keys):
    """Order by energy, and by the keys where energies are equal"""
    o = list(np.argsort(e, kind="stable"))
    out, i = [], 0
    while i < len(o):
        j = i + 1
        while j < len(o) and e[o[j]] - e[o[i]] <= 1e-9 * e[o[i]]:
            j += 1
        out += sorted(o[i:j], key=lambda r: tuple(float("%.6e" % k[r]) for k in keys))
        i = j
    return out


def compare(mon, got, want, kind, rule="content"):
    """Rows of equal energies can be in any order"""
    e = want["energy"]
    n = len(e)
    if len(got) == n and np.any(np.diff(np.sort(e)) <= 1e-9 * np.sort(e)[1:]):
        mon.cls("equal energies", True)
        mon.check("content", np.all(np.diff(got["energy"].to("eV").value) >= 0), "rows are not sorted by energy")
        g = got[canon(got["energy"].to("eV").value, got["flux"].to(D.REF[kind]).value,
                      np.asarray(got["group"], float), got["flux_error_lo"].to(D.REF[kind]).value)]
        o = canon(e, want["flux"], want["group"].astype(float), want["flux_error_lo"])
        # as if they were different, below the tolerance of the comparison
        g["energy"] = want["energy"][o] * (1 + 1e-12 * np.arange(n)) * u.eV
        mon.close("content", np.sort(got["energy"].to("eV").value), np.sort(e), rtol=1e-9, msg="energies")
        want = {k: v[o] for k, v in want.items()}
        want["energy"] = g["energy"].to("eV").value
        mon.seen("equal-energies")
        return _compare(mon, g, want, kind, rule)
    return _compare(mon, got, want, kind, rule)


def run(case, mon):
    from naima.utils import build_data_table, validate_data_table

    s = case["t"]
    rng = np.random.RandomState(case["rs"])
    for k in ("kind", "em", "ulf", "sym", "q"):
        mon.cls(k, s[k])
    t = D.to_table(s, case["rs"])
    before = snapshot(t)
    want, kind = D.rows([s], case["sed"])
    got = validate_data_table(t, sed=case["sed"])
    compare(mon, got, want, kind)
    mon.check("input-unchanged", snapshot(t) == before, "the input table was changed")
    got2 = validate_data_table([t], sed=case["sed"])
    compare(mon, got2, want, kind)
    compare(mon, validate_data_table(D.to_table(s, case["rs"] + 1), sed=case["sed"]), want, kind)
    # a normalised table is itself a valid table with the same content, with or without
    # the confidence level in its metadata
    tt = got.copy()
    compare(mon, validate_data_table(tt, sed=case["sed"]), want, kind, rule="again")
    compare(mon, validate_data_table(Table(tt), sed=case["sed"]), want, kind, rule="again")
    tt.meta["keywords"] = {"cl": {"value": 0.9 if s["cl"] is None else s["cl"]}}
    again = validate_data_table(tt, sed=case["sed"])
    compare(mon, again, want, kind, rule="again")
    # the confidence level as a number
    if s["cl"] is not None:
        tt = D.to_table(s, case["rs"])
        tt.meta["keywords"] = {"cl": s["cl"]}
        compare(mon, validate_data_table(tt, sed=case["sed"]), want, kind, rule="level")
    # read from a file
    if case.get("file"):
        mon.cls("file", case["file"])
        with tempfile.TemporaryDirectory() as d:
            tt = D.through_file(t, s, case["file"], os.path.join(d, "table"), case["plain"])
            compare(mon, validate_data_table(tt, sed=case["sed"]), want, kind, rule="file")
    # values that are disregarded can be missing
    if np.any(s["ul"]) and (s["flux_ul"] or not np.all(s["ul"])):
        x = D.blanks(D.to_table(s, case["rs"]), s, rng)
        g = validate_data_table(x, sed=case["sed"])
        w = {k: np.array(v) for k, v in want.items()}
        o = np.argsort(w["energy"], kind="stable")
        if len(np.unique(w["energy"])) == len(w["energy"]) and len(g) == len(o):
            for c in ("flux_error_lo", "flux_error_hi"):
                y = np.array(g[c].value)
                y[w["ul"][o]] = w[c][o][w["ul"][o]] * u.Unit(D.REF[kind]).to(g[c].unit)
                g[c] = y * g[c].unit
            compare(mon, g, want, kind, rule="blank")
    # the result is independent of the input
    got["flux"][:] = 0 * got["flux"]
    mon.check("input-unchanged", snapshot(t) == before, "editing the result changes the input")
    # build_data_table
    o = s["order"]
    q = lambda x: (np.array(x)[o] * u.Unit(D.REF[s["kind"]])).to(s["unit"])  # noqa: E731
    en = lambda x: (np.array(x)[o] * u.eV).to(s["eunit"])  # noqa: E731
    kw = {}
    sb = dict(s, group=None, flux_ul=False)
    if s["sym"]:
        kw["flux_error"] = q(s["lo"])
    else:
        kw["flux_error_lo"], kw["flux_error_hi"] = q(s["lo"]), q(s["hi"])
    if s["em"] in ("width", "error"):
        kw["energy_width"] = en(2 * np.array(s["elo"]))
    elif s["em"] in ("edges", "errors"):
        kw["energy_lo"] = en(np.array(s["e"]) - s["elo"])
        kw["energy_hi"] = en(np.array(s["e"]) + s["ehi"])
    if s["ulf"] != "none":
        kw["ul"] = [bool(x) for x in np.array(s["ul"])[o]]
        if rng.rand() < 0.5:
            kw["ul"] = np.array(kw["ul"], dtype=int)
    if s["cl"] is not None:
        kw["cl"] = s["cl"]
    bt = build_data_table(en(s["e"]), q(s["flux"]), **kw)
    w2, k2 = D.rows([sb], case["sed"])
    compare(mon, validate_data_table(bt, sed=case["sed"]), w2, k2, rule="build")
    kw = {k: v for k, v in kw.items() if "flux_error" not in k}
    mon.raises("build", (TypeError,), lambda: build_data_table(en(s["e"]), q(s["flux"]), **kw),
               "no uncertainties")
    # incomplete and inconsistent tables
    T = Table(t, copy=True)
    bad = []
    for c in ("energy", "flux"):
        x = T.copy()
        x.remove_column(c)
        bad.append(("without " + c, x))
    x = T.copy()
    x.remove_column("flux_error" if s["sym"] else ["flux_error_lo", "flux_error_hi"][rng.randint(2)])
    bad.append(("without flux error", x))
    for c, un in (("energy", "s"), ("energy", "cm2"), ("flux", "eV"), ("flux", "1/s")):
        x = T.copy()
        x[c] = np.array(t[c]) * u.Unit(un)
        bad.append(("%s in %s" % (c, un), x))
    for c in T.colnames:
        if c.startswith(("flux_error", "energy_")):
            x = T.copy()
            x[c] = np.array(t[c]) * u.Unit("K")
            bad.append(("%s in K" % c, x))
    x = T.copy()
    x["ul"] = np.linspace(0.5, 1, len(x))
    bad.append(("ul as float", x))
    x = T.copy()
    x["ul"] = np.array(["Yes"] + ["True"] * (len(x) - 1))
    bad.append(("ul as text", x))
    for what, x in bad:
        mon.raises("incomplete", (TypeError,), lambda: validate_data_table(x), what)
    for x in (3, "table", [t, 3], {"energy": en(s["e"])}):
        mon.raises("incomplete", (TypeError,), lambda: validate_data_table(x), "not a table")
    mon.sample(kind=s["kind"], unit=s["unit"], form=[s["em"], s["ulf"], s["sym"]])
