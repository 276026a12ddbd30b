"""C16: several data tables are merged without altering what each says."""
import numpy as np
from astropy import units as u

from ..core import sig, val
from ..refs import data as D
from .c15 import compare, snapshot

RULE = """Two to five random data tables of compatible kinds, in random units,
forms and energy ranges (overlapping, interleaved or disjoint, some with points at equal energies), merged in both
directions of the SED conversion and in permuted order; also tables of
incompatible kinds, and direct conversions of random spectra. Oracles: the
physical content of each table, known by construction; a common order by energy;
conversion and back is the identity. Non-trivial: every case."""
REQUIRED = ["content", "flags", "groups", "unit", "incompatible", "input-unchanged",
            "conversion", "round-trip", "permutation", "merged-again", "equal-energies"]


def gen(rng, tier):
    n = 350 if tier == "quick" else 15000
    out = []
    for _ in range(n):
        fam = rng.choice([["flux", "differential flux"], ["power", "differential power"]])
        k = rng.randint(2, 5)
        ts = [D.gen_table(rng, i, fam, erange=rng.choice([(1e3, 1e14), (1e11, 1e14)]))
              for i in range(k)]
        if rng.random() < 0.15:
            D.subtract(rng, rng.choice(ts))
        if rng.random() < 0.3:
            tie(rng, ts)
        out.append({"t": ts,
                    "bad": D.gen_table(rng, 0, ["power", "differential power"]
                                       if "flux" in fam else ["flux", "differential flux"]),
                    "sed": rng.choice([None, None, True, False]), "rs": rng.randrange(1 << 30)})
    return out


def tie(rng, ts):
    """Tables with points at the same energies"""
    a, b = rng.sample(ts, 2)
    if rng.random() < 0.3:
        # the same table twice, maybe with other fluxes
        keep = {"grp": b["grp"], "group": b["group"]}
        b.update({k: v for k, v in a.items() if k not in keep})
        if rng.random() < 0.5:
            b.update(eunit=rng.choice(D.EUN), flux=[sig(1.3 * f, 6) for f in b["flux"]])
        if b["group"] == "rows" or a["group"] == "rows":
            a["group"] = b["group"] = None
        return
    for _ in range(rng.randint(1, 3)):
        x = rng.choice(a["e"])
        if x not in b["e"]:
            i = rng.randrange(len(b["e"]))
            e = list(b["e"])
            e[i] = x
            if e == sorted(e):
                b["e"] = e
            elif b["em"] != "none":
                b["e"] = e
                o = sorted(range(len(e)), key=lambda j: e[j])
                for k in ("e", "flux", "lo", "hi", "elo", "ehi", "ul"):
                    b[k] = [b[k][j] for j in o]


def run(case, mon):
    from naima.utils import sed_conversion, validate_data_table

    ss = case["t"]
    rng = np.random.RandomState(case["rs"])
    e = np.concatenate([s["e"] for s in ss])
    mon.cls("tables", len(ss))
    mon.cls("kinds", "+".join(sorted({s["kind"] for s in ss})))
    ts = [D.to_table(s, case["rs"] + i) for i, s in enumerate(ss)]
    before = [snapshot(t) for t in ts]
    want, kind = D.rows(ss, case["sed"])
    got = validate_data_table(ts, sed=case["sed"])
    compare(mon, got, want, kind)
    mon.check("input-unchanged", [snapshot(t) for t in ts] == before, "input tables changed")
    compare(mon, validate_data_table(tuple(ts), sed=case["sed"]), want, kind)
    # any order of the tables: same rows, renumbered groups
    p = [int(i) for i in rng.permutation(len(ss))]
    w2, k2 = D.rows([ss[i] for i in p], case["sed"])
    g2 = validate_data_table([ts[i] for i in p], sed=case["sed"])
    compare(mon, g2, w2, k2)
    mon.seen("permutation")
    # merging what was merged before, with more
    k = int(rng.randint(1, len(ss)))
    w3, k3 = D.rows(ss, case["sed"], index=list(range(k)) + list(range(1, len(ss) - k + 1)))
    part = validate_data_table(ts[:k], sed=rng.choice([True, False]) if case["sed"] is not None else None)
    compare(mon, validate_data_table([part] + ts[k:], sed=case["sed"]), w3, k3)
    mon.seen("merged-again")
    # flux and luminosity cannot be merged, whatever their format and position
    bad = D.to_table(case["bad"], case["rs"])
    for x in (ts + [bad], [bad] + ts):
        mon.raises("incompatible", (TypeError,), lambda: validate_data_table(x, sed=case["sed"]),
                   "flux and luminosity")
    # conversions
    for kd, units in sorted(D.UNITS.items()):
        un = u.Unit(units[rng.randint(len(units))])
        E = (10 ** rng.uniform(3, 14, 5) * u.eV).to(D.EUN[rng.randint(7)])
        ev = E.to("eV").value
        F = 10 ** rng.uniform(-14, -8, 5) * un
        fr = F.to(D.REF[kd]).value
        diff = kd.startswith("diff")
        base = kd.replace("differential ", "")
        for sed in (True, False):
            k3 = base if sed else "differential " + base
            f = ev**2 if sed and diff else (ev**-2 if not sed and not diff else 1.0)
            fu, sf = sed_conversion(E, un, sed)
            r = (F * sf).to(fu)
            mon.close("conversion", val(r, D.REF[k3], 5), fr * f, rtol=1e-9, msg="%s, sed=%s" % (kd, sed))
            fu2, sf2 = sed_conversion(E, fu, not sed)
            fu3, sf3 = sed_conversion(E, fu2, sed)
            r3 = (((r * sf2).to(fu2)) * sf3).to(fu3)
            mon.close("round-trip", val(r3, D.REF[k3], 5), fr * f, rtol=1e-9, msg="round trip")
            mon.check("round-trip", fu3 == fu, "units of the round trip: %s, %s" % (fu, fu3))
    for un in ("K", "s", "eV2", "1/s", "cm"):
        mon.raises("incompatible", (u.UnitsError,),
                   lambda: sed_conversion(E, u.Unit(un), bool(rng.randint(2))), un)
    # particle distributions: differential and integrated energies
    for un, ref, sed in (("1/eV", "erg", True), ("erg", "1/TeV", False), ("1/TeV", "1/TeV", False)):
        fu, sf = sed_conversion(E, u.Unit(un), sed)
        mon.check("conversion", fu.is_equivalent(ref), "unit of particle distributions: %s" % fu)
    mon.sample(kinds=[s["kind"] for s in ss], rows=len(e))
