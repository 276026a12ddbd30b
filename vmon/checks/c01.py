"""C01: results do not depend on the history of the model objects."""
import copy
import pickle

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from .. import build as b
from ..core import logu, sig, val

RULE = """Each case is a random history over two or three live radiative models
(some sharing one particle distribution object) and particle functions with
caching enabled, some for up to 1500 energies that differ at few: evaluations through every argument form, changes of any
parameter (also by 1e-9 relative), swapped particle distributions, in-place
edits of returned arrays, of input arrays and of seed photon fields,
re-normalisations, copies by copy, deepcopy and pickle, and bursts longer than the memory of the cache. The
memory that is in use is traced over hundreds of evaluations of one object, and over as many
objects that are discarded. After every
evaluation the result is compared with that of a freshly built model with the
current parameters. Non-trivial: at least one evaluation followed a change or a
previous evaluation of the same model."""
REQUIRED = ["history-flux", "history-particle", "param-stable", "memory"]

NE = 4


def _mutable(kind):
    return {
        "Synchrotron": ["B", "Eemin", "Eemax", "nEed"],
        "InverseCompton": ["seed", "seed", "Eemin", "Eemax", "nEed"],
        "Bremsstrahlung": ["n0", "weight_ee", "weight_ep", "Eemin", "nEed"],
        "PionDecay": ["nh", "useLUT", "hiEmodel", "nuclear_enhancement", "Epmin",
                      "Epmax", "nEpd"],
        "PionDecayKelner06": ["nh", "Etrans"],
    }[kind]


def gen_case(rng, tier, kelner=False):
    nm = rng.randint(1, 3)
    models, parts = [], []
    for i in range(nm):
        kind = (
            "PionDecayKelner06" if kelner
            else rng.choice(["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"])
        )
        m = b.gen_radiative(rng, kind)
        if kind == "PionDecay":
            m["nEpd"] = rng.choice([10, 20])
            if rng.random() < 0.4:
                # the configuration that has a lookup table
                m.update(useLUT=True, hiEmodel="Pythia8", nuclear_enhancement=True)
        elif kind != "PionDecayKelner06":
            m["nEed"] = rng.choice([10, 20])
        if not kelner and rng.random() < 0.12:
            m["particle"] = dict(m["particle"], wrap=rng.choice(["func", "table"]))
        share = rng.randrange(i) if i and rng.random() < 0.4 else None
        if share is None:
            parts.append(m.pop("particle"))
            m["p"] = len(parts) - 1
        else:
            m.pop("particle")
            m["p"] = models[share]["p"]
        # twins: same class, almost the same parameters
        if i and rng.random() < 0.4:
            m = dict(models[-1])
        models.append(m)
    pools = []
    for m in models:
        n = 2 if kelner else NE
        pool = [b.gen_energies(rng, m["type"], n=n) for _ in range(3)]
        # a near-duplicate of the first array
        e, un = pool[0]
        k = rng.randrange(len(e))
        e2 = list(e)
        e2[k] = e2[k] * (1 + rng.choice([1e-9, 1e-6, 1e-3]))
        pool.append([e2, un])
        # same numbers, other unit
        pool.append([list(e), rng.choice([x for x in ("keV", "MeV", "GeV") if x != un])])
        pools.append(pool)
    ops = []
    nops = rng.randint(5, 9) if kelner else rng.randint(18, 40)
    for _ in range(nops):
        i = rng.randrange(nm)
        m = models[i]
        r = rng.random()
        if r < 0.55:
            ops.append(_eval_op(rng, i, m))
        elif r < 0.72:
            ops.append(_set_op(rng, i, m))
        elif r < 0.84:
            p = parts[m["p"]]
            names = [k for k in p if k not in ("type", "wrap")]
            ops.append(
                {"op": "pset", "p": m["p"], "name": rng.choice(names),
                 "f": rng.choice([1 + 1e-9, 1 + 1e-6, 1.01, 0.5, 2.0, -1.0]),
                 "unit": rng.random() < 0.3}
            )
        elif r < 0.88:
            ops.append({"op": "swap", "m": i, "new": b.gen_particle(rng)})
        elif r < 0.92:
            ops.append({"op": "edit_result", "how": rng.choice(["zero", "scale", "nan"])})
        elif r < 0.95:
            ops.append({"op": "edit_input", "m": i, "e": rng.randrange(5), "f": 1.7})
        elif r < 0.965:
            ops.append({"op": "copy", "m": i, "how": rng.choice(["copy", "deepcopy", "pickle"]), "keep": rng.random() < 0.5,
                        "e": rng.randrange(5)})
        elif r < 0.985:
            ops.append({"op": "setW", "m": i, "W": [sig(logu(rng, 1e40, 1e50)), "erg"]})
        else:
            ops.append({"op": "burst", "m": i, "n": 0 if kelner else 20})
        if not kelner and rng.random() < 0.1:
            # evaluate, change, evaluate, change another, evaluate
            for k in range(3):
                e = _eval_op(rng, i, m)
                ops += [e, _set_op(rng, i, m), dict(e)]
        if m["type"] == "PionDecay" and rng.random() < 0.06:
            e = _eval_op(rng, i, m)
            for v in (True, False, True):
                ops += [{"op": "set", "m": i, "name": "useLUT", "v": True},
                        {"op": "set", "m": i, "name": "hiEmodel", "v": "Pythia8"},
                        {"op": "set", "m": i, "name": "nuclear_enhancement", "v": v}, dict(e)]
        if rng.random() < 0.35:
            # toggle back and forth: A, B, A
            e = _eval_op(rng, i, m)
            ops += [e, dict(e), ]
    ops.append(_eval_op(rng, 0, models[0]))
    return {"kind": "model", "models": models, "parts": parts, "pools": pools, "ops": ops}


def _eval_op(rng, i, m):
    o = {"op": "eval", "m": i, "e": rng.choice([0, 0, 0, 1, 2, 3, 4]),
         "meth": rng.choice(["flux", "flux", "sed"]),
         "form": rng.choice(["q", "q", "q", "dict", "table", "qtable", "scalar"]),
         "d": rng.choice([None, None, [0, "kpc"], [1, "kpc"], [2.5, "kpc"],
                          [1000, "pc"], [sig(logu(rng, 0.1, 1e4)), "kpc"], 0]),
         "kw": rng.random() < 0.6}
    if m["type"] == "InverseCompton" and rng.random() < 0.5:
        o["seed"] = [rng.randrange(4), rng.random() < 0.5]
    return o


def _set_op(rng, i, m):
    name = rng.choice(_mutable(m["type"]))
    o = {"op": "set", "m": i, "name": name}
    if name == "seed":
        o["k"] = rng.randrange(4)
        o["f"] = rng.choice([1 + 1e-9, 1.01, 0.5, 3.0])
        o["what"] = rng.choice(["dens", "ene", "theta"])
    elif name in ("useLUT", "nuclear_enhancement"):
        o["v"] = rng.random() < 0.5
    elif name == "hiEmodel":
        o["v"] = rng.choice(["Geant4", "Pythia8", "SIBYLL", "QGSJET"])
    elif name in ("nEed", "nEpd"):
        o["v"] = rng.choice([10, 11, 12, 20, 25])
    elif name in ("weight_ee", "weight_ep"):
        o["v"] = rng.choice([0.0, 1.0, round(rng.uniform(0.1, 3), 4)])
    else:
        o["f"] = rng.choice([1 + 1e-9, 1 + 1e-6, 1.01, 1.5, 0.7])
        if rng.random() < 0.3:
            # the same number in another unit
            o["unit"] = rng.choice(RELABEL[name])
    return o


def gen_pcase(rng, tier):
    """Histories of particle functions with their own cache switched on."""
    parts = [b.gen_particle(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        parts.append(dict(parts[0]))
    pool = []
    for _ in range(3):
        pool.append(b.gen_energies(rng, "InverseCompton", n=NE))
    pool.append([pool[0][0], rng.choice([x for x in ("keV", "MeV", "GeV") if x != pool[0][1]])])
    ops = []
    for _ in range(rng.randint(20, 45)):
        p = rng.randrange(len(parts))
        r = rng.random()
        if r < 0.65:
            ops.append({"op": "peval", "p": p, "e": rng.randrange(4),
                        "form": rng.choice(["q", "q", "dict", "table", "scalar"])})
        elif r < 0.9:
            names = [k for k in parts[p] if k != "type"]
            ops.append({"op": "pset", "p": p, "name": rng.choice(names),
                        "f": rng.choice([1 + 1e-9, 1.01, 0.5, 2.0]), "unit": False})
        elif r < 0.95:
            ops.append({"op": "edit_result", "how": rng.choice(["zero", "scale", "nan"])})
        else:
            ops.append({"op": "pburst", "p": p, "n": 20})
    return {"kind": "particle", "parts": parts, "pool": pool, "ops": ops}


def gen(rng, tier):
    n, k, p = (150, 6, 60) if tier == "quick" else (3000, 150, 1200)
    cases = [gen_case(rng, tier) for _ in range(n)]
    cases += [gen_pcase(rng, tier) for _ in range(p)]
    cases += [gen_case(rng, tier, kelner=True) for _ in range(k)]
    cases += [gen_long(rng, i) for i in range(12 if tier == "quick" else 240)]
    cases += [gen_memory(rng, i) for i in range(8 if tier == "quick" else 100)]
    rng.shuffle(cases)
    return cases


def gen_long(rng, i):
    """Arrays of many energies, or a photon field tabulated at many, that differ somewhere"""
    what = ["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay", "particle", "field"][i % 6]
    c = {"kind": "long", "what": what, "n": rng.choice([257, 600, 1001, 1500]), "at": rng.random(), "width": rng.choice([1, 1, 7, 200]),
         "f": rng.choice([1.5, 1.001, 1 + 1e-9]), "meth": rng.choice(["flux", "sed"])}
    if what == "particle":
        c["spec"] = b.gen_particle(rng)
    else:
        s = c["spec"] = b.gen_radiative(rng, "InverseCompton" if what == "field" else what)
        s.update({"nEpd": 10} if what == "PionDecay" else {"nEed": 10})
        if s["type"] == "InverseCompton":
            s["seed_photon_fields"] = ["CMB"]
        c["e"] = b.gen_energies(rng, s["type"], n=2)
    return c


def run_long(case, mon):
    import naima.models as nm

    mon.cls("long", case["what"])
    n, k = case["n"], int(case["at"] * case["n"])

    def change(x):
        y = x.copy()
        y[k:k + case["width"]] *= case["f"]
        return y

    if case["what"] == "particle":
        m, fresh = b.particle(case["spec"]), b.particle(case["spec"])
        m._memoize = True
        E = np.geomspace(1e9, 1e15, n) * u.eV
        for x in (E, change(E), E):
            _compare(mon, "history-particle", m(x.copy()), fresh(x.copy()), "distribution at %d energies" % n)
        return
    m = b.radiative(case["spec"])
    if case["what"] == "field":
        E, x = b.Q(case["e"]), np.geomspace(1e-4, 1, n) * u.eV
        d = change(np.geomspace(1, 1e-8, n)) * u.Unit("1/(eV cm3)")
        for dd in (d, change(d), d):
            f = nm.InverseCompton(m.particle_distribution, seed_photon_fields=[["t", x.copy(), dd.copy()]], nEed=10)
            m.seed_photon_fields = copy.deepcopy(f.seed_photon_fields)
            m.Eemin, m.Eemax, m.nEed = f.Eemin, f.Eemax, f.nEed
            _compare(mon, "history-flux", getattr(m, case["meth"])(E), getattr(f, case["meth"])(E), "field of %d energies" % n)
        return
    e = b.Q(case["e"])
    E = np.geomspace(1e-3, 1, n) * e.max()
    for x in (E, change(E), E):
        f = b.radiative(case["spec"])
        _compare(mon, "history-flux", getattr(m, case["meth"])(x.copy()), getattr(f, case["meth"])(x.copy()),
                 "%s at %d energies" % (case["meth"], n))


def gen_memory(rng, i):
    """Hundreds of evaluations of one object or of as many objects"""
    what = ["Synchrotron", "InverseCompton", "Bremsstrahlung", "particle"][i % 4]
    c = {"kind": "memory", "what": what, "discard": i % 8 >= 4, "rs": rng.randrange(1 << 30),
         "meth": rng.choice(["flux", "sed"])}
    if what == "particle":
        c["spec"] = b.gen_particle(rng)
    else:
        s = b.gen_radiative(rng, what)
        s["nEed"] = 10
        if what == "InverseCompton":
            s["seed_photon_fields"] = rng.choice([["CMB"], ["CMB", "FIR"]])
        c["spec"] = s
    return c


class _Func:
    """A particle distribution given as a plain callable with mutable state"""

    def __init__(self, spec):
        self.spec = spec

    def build(self):
        inner = b.particle({k: v for k, v in self.spec.items() if k != "wrap"})
        inner._memoize = False
        return inner


def _wrapped(spec):
    """Callable without parameter names reading the (mutable) spec"""
    if spec["wrap"] == "func":
        def dist(e):
            return _Func(spec).build()(e)

        return dist
    # TableModel: only its amplitude can be changed afterwards
    import naima.models as nm

    e = np.geomspace(1e6, 1e18, 60) * u.eV
    v = _Func(spec).build()(e)
    v = np.maximum(v.value, 1e-250) * v.unit
    return nm.TableModel(e, v)


def _build_particle(spec):
    if "wrap" in spec:
        return _wrapped(spec)
    p = b.particle(spec)
    return p


def _mk_table_amp(spec):
    return spec.get("tamp", 1)


class State:
    def __init__(self, case):
        self.case = case
        self.pspecs = copy.deepcopy(case["parts"])
        self.pobjs = []
        for s in self.pspecs:
            self.pobjs.append(_build_particle(s))
        self.mspecs = copy.deepcopy(case.get("models", []))
        self.live = [self.make(s, self.pobjs[s["p"]]) for s in self.mspecs]
        self.pools = [[b.Q(e) for e in pool] for pool in case.get("pools", [])]
        self.last = None
        self.nbefore = {}

    def make(self, mspec, pobj):
        d = {k: v for k, v in mspec.items() if k != "p"}
        d["particle"] = pobj
        return b.radiative(d)

    def fresh(self, i):
        ms = self.mspecs[i]
        return self.make(ms, _build_particle_now(self.pspecs[ms["p"]]))


def _build_particle_now(spec):
    s = copy.deepcopy(spec)
    amp = s.pop("tamp", None)
    p = _build_particle(s)
    if amp is not None:
        p.amplitude = amp
    return p


def _args(op, E, names):
    form = op["form"]
    if form == "scalar":
        E = E[0]
    elif form == "dict":
        E = {"energy": E}
    elif form == "table":
        E = Table({"energy": E})
    elif form == "qtable":
        E = QTable({"energy": E})
    args, kw = [E], {}
    if op.get("d") is not None:
        d = b.Q(op["d"])
        if op["kw"]:
            kw["distance"] = d
        else:
            args.append(d)
    if op.get("seed") and names:
        k = op["seed"][0] % len(names)
        kw["seed"] = names[k] if op["seed"][1] else k
    return args, kw


def _names(ms):
    sf = ms.get("seed_photon_fields")
    if sf is None:
        return []
    return sf.split("-") if isinstance(sf, str) else [b.seed_name(s) for s in sf]


def run(case, mon):
    if case["kind"] == "particle":
        return run_particle(case, mon)
    if case["kind"] == "long":
        return run_long(case, mon)
    if case["kind"] == "memory":
        return run_memory(case, mon)
    st = State(case)
    for m in case["models"]:
        mon.cls("model", m["type"])
    mon.cls("n_models", len(case["models"]))
    evals = 0
    for op in case["ops"]:
        mon.cls("op", op["op"])
        if op["op"] == "eval":
            i = op["m"]
            ms = st.mspecs[i]
            live = st.live[i]
            names = _names(ms)
            pool = st.pools[i]
            E = pool[op["e"] % len(pool)]
            args, kw = _args(op, E.copy(), names)
            got = getattr(live, op["meth"])(*args, **kw)
            fr = st.fresh(i)
            args2, kw2 = _args(op, E.copy(), names)
            want = getattr(fr, op["meth"])(*args2, **kw2)
            _compare(mon, "history-flux", got, want, "%s of %s" % (op["meth"], ms["type"]))
            mon.cls("form", "%s/%s" % (op["meth"], op["form"]))
            if ms["type"] == "PionDecay":
                _sync(mon, ms, live, fr)
            _params(mon, st, i)
            st.last = got
            evals += 1
        elif op["op"] == "burst":
            i = op["m"]
            E = st.pools[i][0]
            for k in range(op["n"]):
                Ek = E[:2] * (1 + 1e-3 * k)
                st.live[i].flux(Ek)
            if op["n"]:
                for k in (0, op["n"] - 1, op["n"] // 2):
                    Ek = E[:2] * (1 + 1e-3 * k)
                    _compare(mon, "history-flux", st.live[i].flux(Ek), st.fresh(i).flux(Ek),
                             "flux after a burst of evaluations")
                if st.mspecs[i]["type"] == "PionDecay":
                    st.mspecs[i]["useLUT"] = bool(st.live[i].useLUT)
        elif op["op"] == "set":
            _set(st, op)
        elif op["op"] == "pset":
            _pset(st, op)
        elif op["op"] == "swap":
            st.pspecs.append(copy.deepcopy(op["new"]))
            st.pobjs.append(b.particle(op["new"]))
            st.mspecs[op["m"]]["p"] = len(st.pspecs) - 1
            st.live[op["m"]].particle_distribution = st.pobjs[-1]
        elif op["op"] == "edit_result":
            _edit(st.last, op["how"])
        elif op["op"] == "edit_input":
            pool = st.pools[op["m"]]
            E = pool[op["e"] % len(pool)]
            st.live[op["m"]].flux(E)
            E *= op["f"]
            got = st.live[op["m"]].flux(E)
            fr = st.fresh(op["m"])
            want = fr.flux(E.copy())
            _compare(mon, "history-flux", got, want, "flux after an in-place change of the energies")
            if st.mspecs[op["m"]]["type"] == "PionDecay":
                _sync(mon, st.mspecs[op["m"]], st.live[op["m"]], fr)
            st.last = got
        elif op["op"] == "setW":
            _setW(st, op, mon)
        elif op["op"] == "copy":
            _copy(st, op, mon)
    for i in range(len(case["models"]), len(st.live)):
        # the other ones of pairs of copies
        E = st.pools[i][0]
        fr = st.fresh(i)
        _compare(mon, "history-flux", st.live[i].flux(E.copy()), fr.flux(E.copy()), "flux of a copy or copied model")
        mon.cls("copies", True)
    mon.sample(case=case["models"][0]["type"], ops=len(case["ops"]), evaluations=evals)


def _compare(mon, rule, got, want, msg):
    w = val(want, want.unit if isinstance(want, u.Quantity) else None)
    g = val(got, want.unit if isinstance(want, u.Quantity) else None)
    mon.close(rule, g, w, rtol=1e-12, msg=msg)
    if isinstance(want, u.Quantity):
        mon.check("history-unit", got.unit == want.unit,
                  "%s: unit %s instead of %s" % (msg, got.unit, want.unit))


def _params(mon, st, i):
    """An evaluation leaves the parameters of the model as they were set"""
    ms, live = st.mspecs[i], st.live[i]
    for k, v in ms.items():
        if k in ("type", "p", "seed_photon_fields"):
            continue
        cur = getattr(live, k)
        want = b.Q(v)
        mon.check("param-stable", np.all(cur == want),
                  "%s.%s is %s, was set to %s" % (ms["type"], k, cur, want))
    ps = st.pspecs[ms["p"]]
    if "wrap" not in ps:
        for k, v in ps.items():
            if k != "type":
                cur = getattr(st.pobjs[ms["p"]], k)
                mon.check("param-stable", np.all(cur == b.Q(v)),
                          "particle %s is %s, was set to %s" % (k, cur, b.Q(v)))


def _sync(mon, ms, live, fr):
    """useLUT may be switched off by an evaluation, but not by a cached one"""
    mon.check("param-stable", live.useLUT in (ms.get("useLUT", True), fr.useLUT), "useLUT is %s" % live.useLUT)
    ms["useLUT"] = bool(live.useLUT)


def _copy(st, op, mon):
    """A copied model continues in place of the original, or next to it"""
    i, how = op["m"], op["how"]
    ms, live = st.mspecs[i], st.live[i]
    if how == "copy" and ms["type"] == "InverseCompton":
        how = "deepcopy"  # shallow copies share the photon fields
    if how == "pickle" and "wrap" in st.pspecs[ms["p"]]:
        how = "deepcopy"
    other = pickle.loads(pickle.dumps(live)) if how == "pickle" else getattr(copy, how)(live)
    ms2 = copy.deepcopy(ms)
    # a plain function is not copied by deepcopy
    if how != "copy" and st.pspecs[ms["p"]].get("wrap") != "func":
        st.pspecs.append(copy.deepcopy(st.pspecs[ms["p"]]))
        st.pobjs.append(other.particle_distribution)
        ms2["p"] = len(st.pspecs) - 1
    if op["keep"]:
        live, other, ms, ms2 = other, live, ms2, ms
    st.live[i], st.mspecs[i] = live, ms
    st.live.append(other)
    st.mspecs.append(ms2)
    st.pools.append(st.pools[i])
    E = st.pools[i][op["e"] % len(st.pools[i])]
    for k in (i, len(st.live) - 1):
        fr = st.fresh(k)
        _compare(mon, "history-flux", st.live[k].flux(E.copy()), fr.flux(E.copy()), "flux after " + how)
        if st.mspecs[k]["type"] == "PionDecay":
            _sync(mon, st.mspecs[k], st.live[k], fr)


def _edit(arr, how):
    if arr is None or not isinstance(arr, np.ndarray) or arr.shape == ():
        return
    if how == "zero":
        arr[...] = 0 * arr.unit if isinstance(arr, u.Quantity) else 0
    elif how == "scale":
        arr *= 3.7
    else:
        arr[...] = np.nan * arr.unit if isinstance(arr, u.Quantity) else np.nan


RELABEL = {
    "B": ["uG", "nG", "G", "nT", "mG"], "n0": ["1/cm3", "1/m3", "1/l"], "nh": ["1/cm3", "1/m3", "1/l"],
    "Eemin": ["MeV", "GeV", "erg", "TeV"], "Eemax": ["MeV", "GeV", "erg", "TeV", "PeV"],
    "Epmin": ["GeV", "erg", "TeV"], "Epmax": ["TeV", "PeV", "erg"], "Etrans": ["TeV", "erg", "GeV"],
}


def _sensible(ms, name, new):
    """Limits remain in order, and not too far apart, after a change of unit"""
    x = u.Quantity(*new)
    if name in ("B", "n0", "nh"):
        return True
    if name == "Etrans":
        return 10 * u.GeV < x < 10 * u.TeV
    lo, hi = {"E": (1 * u.MeV, 10 * u.EeV), "p": (1.2182 * u.GeV, 10 * u.EeV)}["p" if "p" in name else "E"]
    e = name[:2]
    cur = {e + "min": 1 * u.GeV, e + "max": 1 * u.PeV if e == "Ee" else 10 * u.PeV}
    cur.update({k: b.Q(ms[k]) for k in cur if k in ms})
    cur[name] = x
    return lo < x < hi and cur[e + "max"] > 3 * cur[e + "min"]


def _set(st, op):
    ms, live, name = st.mspecs[op["m"]], st.live[op["m"]], op["name"]
    if name == "seed":
        sf = ms["seed_photon_fields"]
        if isinstance(sf, str):
            sf = ms["seed_photon_fields"] = sf.split("-")
        k = op["k"] % len(sf)
        s = sf[k]
        if isinstance(s, str):
            return
        d = live.seed_photon_fields[s[0]]
        if op["what"] == "theta" and len(s) == 4:
            s[3] = [s[3][0] * 0.9, s[3][1]]
            d["theta"] = b.Q(s[3])
        elif d["type"] == "thermal" and op["what"] == "ene" and not b.blackbody(s):
            s[1] = [s[1][0] * op["f"], s[1][1]]
            d["T"] = b.Q(s[1])
        elif d["type"] == "thermal" and not b.blackbody(s):
            s[2] = [s[2][0] * op["f"], s[2][1]]
            d["u"] = b.Q(s[2])
        elif d["type"] == "array":
            arr = s[2][0]
            if isinstance(arr, list):
                # in place, in one element only
                s[2] = [list(arr), s[2][1]]
                s[2][0][-1] *= op["f"]
                d["photon_density"][-1] = d["photon_density"][-1] * op["f"]
                # numbers may differ by rounding: rebuild the mirror value
                ref = b.radiative({"type": "InverseCompton", "particle": st.pspecs[0]
                                   if "wrap" not in st.pspecs[0] else
                                   {"type": "PowerLaw", "amplitude": [1, "1/eV"],
                                    "e_0": [1, "TeV"], "alpha": 2.0},
                                   "seed_photon_fields": [s]})
                d["photon_density"] = ref.seed_photon_fields[s[0]]["photon_density"]
            else:
                s[2] = [arr * op["f"], s[2][1]]
                d["photon_density"] = np.atleast_1d(b.Q(s[2]))
        return
    if "v" in op:
        ms[name] = op["v"]
        setattr(live, name, op["v"])
        return
    cur = getattr(live, name)
    if "unit" in op:
        new = [float(cur.value), op["unit"]]
        if not _sensible(ms, name, new):
            return
    else:
        new = [float((cur.value) * op["f"]), cur.unit.to_string()]
    if name == "Epmin" and new[0] * u.Unit(new[1]).to("GeV") < 1.2182:
        return
    q = b.Q(new)
    ms[name] = new
    setattr(live, name, q)


def _pset(st, op):
    ps, obj = st.pspecs[op["p"]], st.pobjs[op["p"]]
    name = op["name"]
    if ps.get("wrap") == "table":
        ps["tamp"] = ps.get("tamp", 1) * abs(op["f"])
        obj.amplitude = ps["tamp"]
        return
    f = op["f"]
    if name in ("amplitude", "e_0", "e_break", "e_cutoff"):
        f = abs(f)
        v = ps[name]
        if isinstance(v, (list, tuple)):
            new = [v[0] * f, v[1]]
            if op["unit"] and name != "amplitude":
                q = b.Q(new).to("GeV")
                new = [float(q.value), "GeV"]
        else:
            new = v * f
    else:
        if name == "beta" and f < 0:
            f = 0.9
        new = ps[name] * (abs(f) if f in (0.5, 2.0) else f)
        if name.startswith("alpha"):
            new = float(np.clip(new, -1, 4.5))
    ps[name] = new
    if "wrap" not in ps:
        setattr(obj, name, b.Q(new))


def _setW(st, op, mon):
    i = op["m"]
    ms = st.mspecs[i]
    ps = st.pspecs[ms["p"]]
    if "wrap" in ps or ms["type"] == "PionDecayKelner06":
        return
    fr = st.fresh(i)
    W = b.Q(op["W"])
    meth = "set_Wp" if ms["type"] == "PionDecay" else "set_We"
    getattr(fr, meth)(W)
    getattr(st.live[i], meth)(W)
    a, want = st.pobjs[ms["p"]].amplitude, fr.particle_distribution.amplitude
    mon.close("history-renorm", val(a, want.unit), want.value, rtol=1e-12,
              msg="amplitude after %s" % meth)
    ps["amplitude"] = [float(a.value), a.unit.to_string()]
    # keep the exact object value
    st.pobjs[ms["p"]].amplitude = b.Q(ps["amplitude"])


def run_particle(case, mon):
    specs = copy.deepcopy(case["parts"])
    objs = []
    for s in specs:
        o = b.particle(s)
        # the documented per-instance switch of the function classes
        o._memoize = True
        o._cache, o._queue = {}, []
        objs.append(o)
        mon.cls("particle", s["type"])
    pool = [b.Q(e) for e in case["pool"]]
    last = None
    for op in case["ops"]:
        mon.cls("op", op["op"])
        if op["op"] == "peval":
            E = pool[op["e"]]
            form = {"form": op["form"]}
            args, kw = _args(form, E.copy(), None)
            got = objs[op["p"]](*args)
            args, kw = _args(form, E.copy(), None)
            want = b.particle(specs[op["p"]])(*args)
            _compare(mon, "history-particle", got, want, specs[op["p"]]["type"])
            last = got
        elif op["op"] == "pset":
            class S:
                pass

            st = S()
            st.pspecs, st.pobjs = specs, objs
            _pset(st, op)
        elif op["op"] == "edit_result":
            _edit(last, op["how"])
        elif op["op"] == "pburst":
            E = pool[0]
            for k in range(op["n"]):
                objs[op["p"]](E * (1 + 1e-3 * k))
            for k in (0, op["n"] - 1):
                Ek = E * (1 + 1e-3 * k)
                _compare(mon, "history-particle", objs[op["p"]](Ek),
                         b.particle(specs[op["p"]])(Ek), "after a burst")


def run_memory(case, mon):
    """What is remembered of past evaluations is bounded"""
    import gc
    import tracemalloc

    rng = np.random.RandomState(case["rs"] % 2**31)
    n = 1500
    k = 1 if case["what"] == "particle" else 0

    def build():
        if not k:
            return b.radiative(case["spec"])
        o = b.particle(case["spec"])
        o._memoize = True
        o._cache, o._queue = {}, []
        return o

    def evaluate(o):
        E = np.geomspace(1, 1e3, n) * rng.uniform(1, 2) * u.GeV
        r = o(E) if k else getattr(o, case["meth"])(E)
        mon.check("memory", r.shape == (n,), "shape of the result")

    def use(count):
        o = build()
        for _ in range(count):
            if case["discard"]:
                o = build()
            evaluate(o)
            if not case["discard"]:
                # bounded however often parameters change
                p = o if k else o.particle_distribution
                p.amplitude = p.amplitude * 1.01
        gc.collect()
        used = tracemalloc.get_traced_memory()[0]
        del o
        gc.collect()
        return used

    steps = 120
    use(2)
    tracemalloc.start()
    try:
        first = use(40)
        second = use(40 + steps)
    finally:
        tracemalloc.stop()
    size = 8 * n
    mon.cls("memory", "%s, %s" % (case["what"], "discarded" if case["discard"] else "one object"))
    mon.check("memory", second - first < 0.25 * steps * size,
              "%d evaluations more keep %.0f kB more, a result has %.0f kB" % (steps, (second - first) / 1e3, size / 1e3))
    mon.sample(kind="memory", what=case["what"], growth_kB=(second - first) / 1e3)
