"""The single source of properties.jsonl, MANIFEST.json and the per-property part
of DESIGN.md (see gen_meta.py)."""

R = "src/naima/radiative.py"
M = "src/naima/models.py"
U = "src/naima/utils.py"
MU = "src/naima/model_utils.py"
C = "src/naima/core.py"
A = "src/naima/analysis.py"
PL = "src/naima/plot.py"
MF = "src/naima/model_fitter.py"
SH = "src/naima/sherpa_models.py"
V = "src/naima/extern/validator.py"

PROPS = [
    dict(
        id="C01",
        title="Results of models do not depend on the history of the objects",
        statement="The spectrum, SED or energy content that a radiative model or particle "
        "distribution returns is a function of its current parameters and of the arguments only: it "
        "equals that of a freshly built object, whatever was evaluated, changed, re-normalised or "
        "edited before, on it or on any other object, with caching on. Setting any parameter to "
        "any new value, however close to the former one, takes effect at the next evaluation. "
        "Evaluating never changes the parameters, and editing a returned array, an array that was passed in, or "
        "an input dictionary never changes a later result; the memory kept for past evaluations is bounded.",
        over=["histories", "inputs"],
        qtext="all sequences of evaluations, parameter changes, swaps of particle distributions and "
        "in-place edits over several live objects, any number of evaluations longer than the cache",
        why="The tests evaluate each model once or twice with one parameter change; a stale cache "
        "entry, a colliding key or an aliased array needs a particular sequence over particular values.",
        files=[MU, R, M],
        mech=[("memoization of results on hashed arguments and parameters", MU + ":memoize"),
              ("parameters that make the cache key", R + ":BaseRadiative, param_names of each class"),
              ("seed photon weights applied to live results", R + ":InverseCompton._spectrum")],
        observe=["return values of flux, sed, We, Wp and of particle distributions"],
        technique="differential history monitor: live objects against freshly built ones after every step",
        note="Random histories only; oracles are fresh objects in the same process, so an error "
        "common to both is left to C02-C13.",
        design="A trace of operations over 2-3 live radiative models (shared particle distributions, "
        "memoization on) is executed; after each evaluation the monitor builds a fresh model from "
        "its own shadow copy of the parameters and compares (1e-9). Bursts exceed the memory of 17 entries; "
        "parameters also change by 1e-9 relative; returned/input arrays are overwritten.",
    ),
    dict(
        id="C02",
        title="Inverse Compton contributions add up and match single-field models",
        statement="For an inverse Compton model with any number of seed photon fields, the "
        "contributions requested by field name or by position are those of models that have only "
        "that field, their sum is the total, as flux and as SED at any distance, and in whatever "
        "order and at whatever energies contributions and totals were requested before. Unknown field names "
        "and positions past the end are rejected. A standard field given by name is the documented "
        "grey body, and a field given by its name alone or in a list is the same.",
        over=["inputs", "histories", "configurations"],
        qtext="all lists of standard, thermal, anisotropic, mono-energetic and tabulated seed fields, "
        "all request orders",
        why="The tests look at one configuration of the fields; stale contributions or swapped names "
        "depend on the order of the requests and on the mixture of the fields.",
        files=[R],
        mech=[("seed photon field parsing", R + ":InverseCompton._process_input_seed"),
              ("sum over fields", R + ":InverseCompton._spectrum"),
              ("contribution of one field", R + ":InverseCompton.flux, InverseCompton.sed")],
        observe=["flux(energies, seed=...), sed(energies, seed=...)"],
        technique="conservation monitor over recorded contributions, differential against single-field models",
        note="Random field lists (1-5 fields) and request orders.",
        design="Contributions are read in random order, interleaved with evaluations at other "
        "energies; sum and single-field oracles at 1e-9; standard fields against documented T and u.",
    ),
    dict(
        id="C03",
        title="Spectra do not depend on how energies, distances and parameters are expressed",
        statement="The spectrum of every radiative model at a photon energy is the same whether the "
        "energy is given in eV, TeV, erg or J, as a scalar, in an array of any length and order, or "
        "as an energy column of a dictionary or table, and in the same order as the input, and whatever "
        "the units of the parameters of the model. The SED is the energy squared times the flux; both fall with the square of the distance in any unit of length, and a "
        "distance of zero returns the luminosity.",
        over=["inputs"],
        qtext="all photon energies, array shapes, containers, units and distances, for the five radiative classes",
        why="The tests pass one array in one unit; an index, unit or ordering slip shows for other "
        "lengths, orders or containers.",
        files=[R, M],
        mech=[("energy validation", R + ":_validate_ene"),
              ("flux and SED", R + ":BaseRadiative.flux, BaseRadiative.sed, InverseCompton.flux, InverseCompton.sed")],
        observe=["return values of flux and sed"],
        technique="metamorphic monitors on executions in different expressions of the same input",
        note="Relative agreement of 1e-9 except where floating point conversion of the energies is amplified.",
        design="One reference evaluation per case and at least eight re-expressions, compared "
        "pointwise; float32 energies are only used from keV to TeV.",
    ),
    dict(
        id="C04",
        title="Spectra are linear in particles and targets, finite and non-negative",
        statement="Every radiative spectrum is proportional to the amplitude of the particle "
        "distribution and to the density of the targets or photons, and that of a sum of two "
        "populations is the sum of both spectra within the accuracy of the integration. It is finite and not negative at every photon "
        "energy, and exactly zero for a population with zero amplitude and beyond the "
        "kinematic limits.",
        over=["inputs", "configurations"],
        qtext="all particle distributions, densities, bremsstrahlung weights and photon energies from "
        "radio to PeV, including exact grid energies",
        why="Tests sample a few smooth energies; NaN, negative or non-linear values appear at grid "
        "coincidences, edges and extreme parameters.",
        files=[R, U],
        mech=[("integration over particles", U + ":trapz_loglog"),
              ("emission processes", R + ":_spectrum of each class")],
        observe=["return values of flux and sed"],
        technique="value sanitizer (NaN/negative/forbidden) and linearity monitors under hostile energies",
        note="Superposition to 3% of the total, as the integration rule is not linear between grid points.",
        design="Amplitude, density, weights scaled on live and fresh models; wide scans including "
        "energies equal to grid points and kinematic limits.",
    ),
    dict(
        id="C05",
        title="Synchrotron spectra follow the published emissivity",
        statement="The synchrotron spectrum of any electron distribution is the integral over the "
        "electron energies, between the configured limits, of the published angle-averaged emissivity "
        "in a random magnetic field of the configured strength, whatever its unit. The power radiated over all energies "
        "is that of the classical formula, and spectra of power-law populations scale with the field as expected.",
        over=["inputs", "configurations"],
        qtext="all electron distributions, energy limits, grid densities and magnetic fields",
        why="The tests pin the luminosity of one model at one field strength to four digits.",
        files=[R, U],
        mech=[("approximation of the kernel", R + ":Synchrotron._spectrum"),
              ("electron grid", R + ":BaseElectron._gam, BaseElectron._nelec")],
        observe=["Synchrotron.flux"],
        technique="reference-model oracle over random executions",
        note="Independent implementation on the documented grid (2e-5) plus grid-free oracles (exact Bessel kernel, radiated power).",
        design="refs/physics.py implements Eq. D7 of AKP10 on the documented log grid; narrow populations are "
        "compared with the exact Bessel kernel; total power with 4/3 sigma_T c gamma^2 U_B.",
    ),
    dict(
        id="C06",
        title="Inverse Compton spectra follow the published kernels",
        statement="The inverse Compton spectrum of any electron distribution on isotropic or beamed "
        "thermal photons, on mono-energetic photons and on tabulated photon spectra is the integral of the published "
        "Klein-Nishina emissivity over the electrons between the configured limits and over the photons, with the requested energy "
        "density, temperature and angle in any units. No photon is emitted above the kinematic limit, "
        "the Thomson regime loses the classical power, and a tabulated black body gives the thermal result.",
        over=["inputs", "configurations"],
        qtext="all electron distributions, temperatures, dilutions, angles, photon energies and tables",
        why="The tests pin a few luminosities; kernel coefficients, angle or unit handling can be wrong "
        "where none of them looks.",
        files=[R],
        mech=[("isotropic thermal", R + ":InverseCompton._iso_ic_on_planck"),
              ("beamed thermal", R + ":InverseCompton._ani_ic_on_planck"),
              ("mono-energetic and tabulated", R + ":InverseCompton._iso_ic_on_monochromatic, _calc_specic")],
        observe=["InverseCompton.flux"],
        technique="reference-model oracle over random executions",
        note="Independent implementation (2e-5), exact Planck integration (a few per cent, the published "
        "accuracy of the approximations), exact kinematic limits.",
        design="refs/physics.py implements Eqs. 11, 14 of Khangulyan et al. and the Jones kernel; exact integration "
        "of the Klein-Nishina rate over Planck spectra; Thomson losses; averaging beams over angles.",
    ),
    dict(
        id="C07",
        title="Bremsstrahlung spectra follow Baring et al. (1999)",
        statement="The bremsstrahlung spectrum of any electron distribution is the integral over the "
        "electrons between the configured limits of the published electron-electron and electron-ion cross sections, each with "
        "its weight, times the ion density. The default weights are those of a fully ionised plasma "
        "of solar-like hydrogen and helium abundances.",
        over=["inputs", "configurations"],
        qtext="all electron distributions (sub-relativistic ones included), photon energies, weights and densities",
        why="The tests pin one luminosity; errors at other photon-to-electron energy ratios, at the transition between "
        "non-relativistic and relativistic formulae or in the weights stay invisible.",
        files=[R],
        mech=[("electron-electron", R + ":Bremsstrahlung._sigma_ee, _emiss_ee"),
              ("electron-ion", R + ":Bremsstrahlung._sigma_ep, _emiss_ep")],
        observe=["Bremsstrahlung.flux"],
        technique="reference-model oracle over random executions",
        note="Independent, cancellation-free implementation on the documented grid.",
        design="refs/physics.py implements A1-A7 with log1p; grid energies and photon energies down to 1e-9 eV.",
    ),
    dict(
        id="C08",
        title="Pion decay spectra follow Kafexhiu et al. (2014)",
        statement="The pion decay spectrum of any proton distribution is the integral over the protons "
        "between the configured limits of the published inclusive gamma-ray cross sections of the selected high-energy model, "
        "times the target density, with the documented enhancement for heavier nuclei when requested. "
        "The results with the precomputed table agree with the direct calculation, as do generated tables of other energies and models; protons below the production threshold "
        "contribute nothing, and no photon is emitted above the largest proton energy.",
        over=["inputs", "configurations"],
        qtext="all proton distributions and limits, four high-energy models, with and without table and nuclear enhancement",
        why="The tests pin luminosities of one population; per-regime coefficients and limits of the "
        "table are not observed.",
        files=[R],
        mech=[("cross sections", R + ":PionDecay._sigma_pi, _Amax, _F"),
              ("look-up table", R + ":PionDecay._diffsigma_LUT, LookupTable, generate_lut_pp"),
              ("integration", R + ":PionDecay._spectrum")],
        observe=["PionDecay.flux"],
        technique="reference-model oracle over random executions",
        note="Independent scalar implementation on the documented grid; table agreement 2% where the SED is above 1e-3 of its peak.",
        design="refs/physics.py; table only where documented valid (nEpd>=50 in comparisons).",
    ),
    dict(
        id="C09",
        title="The Kelner et al. (2006) pion decay model follows its equations",
        statement="The spectrum is the full calculation of the paper above the transition energy and the delta-functional "
        "approximation below it, normalised so that both agree at the transition, for any proton distribution "
        "and target density, and does not depend on which energies are evaluated together. The energy content is "
        "that of the protons.",
        over=["inputs", "histories"],
        qtext="all proton distributions, densities, transition energies, sets and orders of photon energies",
        why="The tests pin one luminosity for energies on both sides.",
        files=[R],
        mech=[("high-energy formula", R + ":PionDecayKelner06._calc_specpp_hiE"),
              ("delta approximation", R + ":PionDecayKelner06._calc_specpp_loE"),
              ("normalisation", R + ":PionDecayKelner06._spectrum")],
        observe=["PionDecayKelner06.flux, .Wp"],
        technique="reference-model oracle over random executions",
        note="Independent Gauss-Legendre integration; tolerance of the adaptive quadrature of the code (up to 1.2%).",
        design="Energies evaluated alone, together and permuted.",
    ),
    dict(
        id="C10",
        title="Particle distribution functions follow their documented formulae",
        statement="The five analytic distribution functions return the value of their documented formula for any "
        "parameters and any energies, in the unit of the amplitude, for scalars, arrays in any order, "
        "tables and dictionaries, and in any energy unit. Changing a "
        "parameter of a live function takes effect, and the special cases connect: without break, cutoff or "
        "curvature all reduce to a power law.",
        over=["inputs", "histories"],
        qtext="all parameters, amplitudes with any or no unit, energies including the break and reference energies",
        why="The tests compare a handful of values.",
        files=[M],
        mech=[("formulae", M + ":eval of each class"), ("break handling", M + ":BrokenPowerLaw.eval")],
        observe=["return values of the functions"],
        technique="reference-model oracle over random executions",
        note="Relative 1e-9 in logarithmic space.",
        design="Formulae evaluated in log space independently.",
    ),
    dict(
        id="C11",
        title="Tabulated models interpolate their table",
        statement="A tabulated model returns its values at its energies, interpolates smoothly in "
        "logarithmic space between them (exactly so for power laws and log-parabolas), and is zero outside and up to the next energies around a zero of the table, whatever the order "
        "and unit of the table and of the requested energies. It scales with its amplitude, is independent of later "
        "edits of the caller's arrays, and works as the particle distribution of a radiative model.",
        over=["inputs", "histories"],
        qtext="all tables of at least four points that are positive or zero in any order, unit and range",
        why="The tests use one regular table.",
        files=[M],
        mech=[("interpolation", M + ":TableModel.__init__, TableModel.__call__")],
        observe=["return values of the model"],
        technique="reference-model oracle over random executions",
        note="Values at nodes 1e-9; polynomials up to third degree in log space exactly.",
        design="Tables sampled from log-space polynomials; nodes, midpoints, outside points.",
    ),
    dict(
        id="C12",
        title="EBL absorption follows its opacity table",
        statement="The transmission is the exponential of minus the tabulated opacity at the tabulated "
        "energies of the nearest tabulated redshift, interpolates monotonically between energies, stays "
        "between 0 and 1, falls with redshift, is 1 at low energies and for redshifts below 0.01, and keeps "
        "the opacity of the end of the table above 100 TeV. Unsupported redshifts and models are rejected, "
        "and the result does not depend on the unit or order of the energies.",
        over=["inputs"],
        qtext="all redshifts from 0 to 4, and photon energies from radio to 10 PeV",
        why="The tests compare two redshifts at a few energies.",
        files=[M],
        mech=[("table and redshift selection", M + ":EblAbsorptionModel.__init__"),
              ("transmission", M + ":EblAbsorptionModel.transmission")],
        observe=["transmission values"],
        technique="reference-table oracle and range sanitizer over random executions",
        note="The table itself is monotonic in redshift only to 1.1e-3; tolerance 2e-3.",
        design="The FITS/npz table is read independently; interpolation tolerance 5e-3(1+tau), opacities above 150 are 150.",
    ),
    dict(
        id="C13",
        title="Energy contents are exact and normalising to them works",
        statement="The total energy of electrons or protons, as an attribute or between any limits in any units, equals the integral of "
        "the distribution of total particle energy over that range, adds up over adjacent ranges, and follows every change "
        "of the parameters. Normalising a population to an energy content over any limits makes "
        "the content over these limits the requested one, scales the emitted spectrum by the same factor, and changes no "
        "other model nor the values passed by the caller.",
        over=["inputs", "histories", "configurations"],
        qtext="all distributions, grids, limits and target energy contents",
        why="The tests normalise one model with one or two limits.",
        files=[R],
        mech=[("energy content", R + ":BaseElectron.compute_We, BaseProton.compute_Wp"),
              ("normalisation", R + ":BaseElectron.set_We, BaseProton.set_Wp")],
        observe=["We, Wp, compute_We, compute_Wp, amplitude and flux after set_We, set_Wp"],
        technique="conservation monitors against quadrature over random histories",
        note="Electrons and protons: energy per particle as documented by the grids; 2e-3 against quadrature, 1e-9 against the grid rule.",
        design="Closed form for power laws, dense quadrature otherwise, and the documented grid rule.",
    ),
    dict(
        id="C14",
        title="The log-log integrator is exact for piecewise power laws",
        statement="Integrating samples in logarithmic space returns the exact integral of "
        "the power laws between them, for any index including -1 and very steep ones, along any axis, for "
        "one-dimensional or full abscissae, with or without units. Intervals in which a sample is zero contribute nothing, the separate "
        "intervals add up to the total, and the inputs are not modified.",
        over=["inputs"],
        qtext="all positive arrays of one to three dimensions, all axes, all indices",
        why="The tests integrate three power laws in one dimension.",
        files=[U],
        mech=[("integration rule", U + ":trapz_loglog")],
        observe=["return values"],
        technique="reference-model oracle over random executions",
        note="1e-9 relative, relaxed next to the index -1 within the documented switch.",
        design="expm1-based reference for each interval; closed form for power laws.",
    ),
    dict(
        id="C15",
        title="A data table means the same however it is written",
        statement="A spectrum written with any supported units, row and column order, and form of flux errors, "
        "energy errors or bin edges, upper limit flags, upper limit confidence and group is read to the same energies, "
        "fluxes, asymmetric errors, bin edges, flags, confidence levels and groups. Tables with missing "
        "or inconsistent columns are rejected, reading again changes nothing, and the table of the "
        "caller is not modified.",
        over=["inputs"],
        qtext="all spectra and all combinations of the documented column forms",
        why="The tests read about ten fixed tables.",
        files=[U],
        mech=[("single table", U + ":_validate_single_data_table"),
              ("column validation", U + ":validate_column"),
              ("bin edges", U + ":generate_energy_edges"),
              ("table builder", U + ":build_data_table")],
        observe=["the validated data table"],
        technique="round-trip monitor with ground truth over generated tables",
        note="Ground truth by construction, 1e-9.",
        design="refs/data.py generates physical spectra and writes them in every documented form.",
    ),
    dict(
        id="C16",
        title="Merging data tables alters nothing that they say",
        statement="Several tables of flux, luminosity, differential or SED data, in any units, "
        "forms and order, merge into one table sorted by energy with every point present once, with its "
        "value, errors, bin edges, upper limit flag and confidence of its own table, and distinct groups. Conversion "
        "between differential spectrum and SED is energy squared, in both directions, and tables of incompatible "
        "kinds are rejected.",
        over=["inputs"],
        qtext="all lists of two to five tables, both directions of conversion",
        why="The tests merge two fixed tables.",
        files=[U],
        mech=[("merge", U + ":validate_data_table"), ("conversion", U + ":sed_conversion")],
        observe=["the merged table"],
        technique="conservation monitor with ground truth over generated tables",
        note="Ground truth by construction, 1e-9.",
        design="Each row of the merged table is matched with one generated point.",
    ),
    dict(
        id="C17",
        title="The sampled probability is the documented likelihood and prior",
        statement="The log-probability of any parameters is the log-prior minus half the sum over the points of the "
        "squared difference of model and data over the error (the upper error where the model is above the data, else the lower one), "
        "plus the logarithm of one minus its own confidence level for each upper limit below the model. It does not depend on the unit or SED form of data and model, on the order "
        "of data or tables, or on extra outputs of the model. Parameters with a forbidden prior have minus "
        "infinite probability.",
        over=["inputs", "configurations"],
        qtext="all data tables, model output forms, units, priors and parameters",
        why="The tests run one data set with one model; wrong sides, penalties or conversions only show up in other mixtures.",
        files=[C, U],
        mech=[("likelihood", C + ":lnprobmodel"), ("posterior", C + ":lnprob")],
        observe=["log-probabilities computed by the sampler"],
        technique="reference-model oracle on the log-probabilities computed by the sampler",
        note="Model values are known at the points by construction; 1e-9.",
        design="fit.py builds models whose values are tabulated per point; independent likelihood.",
    ),
    dict(
        id="C18",
        title="Prior functions are the logarithms of their distributions",
        statement="The uniform prior is 0 inside its limits and minus infinity outside; the "
        "normal prior is the logarithm of a normalised normal density up to one constant; the log-uniform prior "
        "is that of a density proportional to the inverse of the value inside its limits and minus infinity outside. This holds for "
        "int, float and numpy numbers, next to and on the limits.",
        over=["inputs"],
        qtext="all values and parameters, including limits",
        why="The tests check three values.",
        files=[C],
        mech=[("priors", C + ":uniform_prior, normal_prior, log_uniform_prior")],
        observe=["return values"],
        technique="reference-model oracle over random and boundary executions",
        note="1e-9.",
        design="Definitions, normalisation integral, adjacent floats around the limits.",
    ),
    dict(
        id="C19",
        title="The record of an MCMC run is coherent",
        statement="Every stored log-probability and every stored model output of every step and walker is "
        "that of the stored parameters, as the model and prior would give them, with units; a walker that did not "
        "move keeps its record, burn-in steps are discarded, and the returned state is the last step. The run "
        "has the requested walkers, steps and starting ball, the metadata and the printed progress describe it (labels left out are numbered by position), and a run continued or "
        "repeated with the same random state goes on from, or reproduces, the same record.",
        over=["histories", "inputs", "configurations"],
        qtext="all data, models with each form of output, priors, walkers, steps, single or split runs",
        why="The tests check shapes of one run.",
        files=[C],
        mech=[("sampler construction", C + ":get_sampler"), ("run", C + ":run_sampler, _run_mcmc"),
              ("outputs stored with each sample", C + ":lnprob")],
        observe=["chain, log-probabilities, blobs and run_info of the sampler; calls of the model; text printed during a run"],
        technique="online monitor in the model plus offline checker over the recorded run",
        note="Short runs (tens of steps).",
        design="The model records each call; the record is checked row by row against reference likelihood and outputs.",
    ),
    dict(
        id="C20",
        title="Parallel evaluation gives the serial results and leaves nothing behind",
        statement="A run with any number of processes evaluates the same parameters, each once, and stores the same chain, "
        "probabilities and outputs as the serial run with the same random state, whatever the speed of each evaluation. "
        "After the run, or after an error in the model or prior or a user's interrupt at any point, no child process is left, the error reaches the "
        "caller in time, and the sampler can run again. Confidence bands computed in parallel are those of the model at sampled parameters.",
        over=["schedules", "fault_sequences", "configurations"],
        qtext="all pool sizes, evaluation delays and points of failure or interrupt",
        why="The tests run one process or one pool without looking at the results; ordering depends on timing.",
        files=[C, PL],
        mech=[("process pool", C + ":get_sampler, run_sampler"), ("parallel samples", PL + ":_calc_CI")],
        observe=["event log of evaluations by process, sampler record, child processes"],
        technique="offline exactly-once checker over event logs, injected delays, faults and SIGINT, differential against serial",
        note="Pools of 2-5 workers.",
        design="Workers append begin/end events with pid and clock; multiset equality with the serial run; children counted via /proc of own descendants. Interrupts run in a forked session of their own; a call that hangs is repeated once, as CPython's pool can rarely block on a loaded machine.",
    ),
    dict(
        id="C21",
        title="Starting point of a fit: normalisation guess and pre-fit",
        statement="With exactly one normalisation label, wherever it is, linear or logarithmic, the guess rescales only that parameter so "
        "that the model has the integrated energy flux of the data; otherwise the parameters are those given. The pre-fit never "
        "lowers the likelihood, reaches the optimum nearby whatever the prior as long as it is allowed, and is dropped if the prior "
        "forbids it. The walkers start in a ball around the reported point, a tight one after a pre-fit, and arguments are unchanged.",
        over=["inputs", "configurations"],
        qtext="all data, labels, positions of the normalisation, starting points and priors",
        why="The tests start next to the optimum and do not look at where the walkers start.",
        files=[C],
        mech=[("guess and starting ball", C + ":get_sampler, _run_mcmc"), ("pre-fit", C + ":_prefit")],
        observe=["evaluations of the model, run_info, initial positions of the walkers"],
        technique="monitor in the model, differential against an independent integral, likelihood and minimiser",
        note="Optima within 50% of the guessed start, as the pre-fit is a loose Nelder-Mead by design.",
        design="Synthetic models with known values at any energy; the reference minimiser runs on the reference likelihood.",
    ),
    dict(
        id="C22",
        title="A saved run is the same run when it is read back",
        statement="Reading a saved run gives each sample, log-probability, model output with its unit, label, data point and item of "
        "run information of the original, for every form of model output that can be stored, and saving it again changes nothing. "
        "Analyses of both agree, and saving leaves the original as it was. An existing file is replaced only on request, and outputs that "
        "cannot be stored are reported without losing the rest.",
        over=["inputs", "configurations", "histories"],
        qtext="all runs, forms of model outputs, labels, units and run information",
        why="The tests save one run of one form of output.",
        files=[A],
        mech=[("HDF5 writer", A + ":save_run"), ("reader and stand-in for the sampler", A + ":read_run, _result")],
        observe=["all recorded arrays, metadata and files"],
        technique="round-trip monitor over two generations of files",
        note="Compression, path types and extensions included.",
        design="A real run is written, read, written and read again; deep comparison of all three.",
    ),
    dict(
        id="C23",
        title="Results tables hold the statistics of the recorded samples",
        statement="Each row of the results table is the median of the recorded samples of a parameter or scalar output, with the "
        "distances to its 16th and 84th percentiles, in the right unit, plus a converted row for each logarithmic parameter. The maximum "
        "likelihood values are those of the most probable sample, with its probability and the Bayesian information criterion. File and "
        "returned table agree, and an existing file is replaced only on request.",
        over=["inputs", "configurations"],
        qtext="all recorded runs, labels, outputs and options",
        why="The tests check that a file was written.",
        files=[A],
        mech=[("results table", A + ":save_results_table"), ("most probable sample", A + ":find_ML")],
        observe=["returned table, file, metadata"],
        technique="offline checker of tables against independently computed statistics of the record",
        note="",
        design="Real runs and synthetic records (skewed, constant, decades wide); formats ascii.ecsv, ipac, fixed width...",
    ),
    dict(
        id="C24",
        title="Figures show the data and the models they are given",
        statement="Data points, errors and upper limits are drawn at their values in the chosen units and spectrum type, each upper limit "
        "as a limit and nothing else as one, also for several groups or data added to a figure. Best fit curves, samples, confidence bands and residuals are those of "
        "the recorded run, or of the model evaluated over the requested energy range. Chain and distribution plots show the recorded samples and "
        "their quantiles, on the figure that is given, if any, and the diagnostic files cover each parameter and output.",
        over=["inputs", "configurations"],
        qtext="all data tables, runs, model outputs, units, ranges and options of the plotting functions",
        why="The tests only run the plotting functions.",
        files=[PL],
        mech=[("data", PL + ":_plot_data_to_ax, plot_data"), ("models", PL + ":plot_fit, _calc_CI, calc_CI, _calc_ML"),
              ("residuals", PL + ":_plot_residuals_to_ax"), ("chains", PL + ":plot_chain, plot_corner"),
              ("distributions", PL + ":plot_distribution, plot_blob")],
        observe=["artists on the axes: markers, segments, lines, bands, histograms, labels"],
        technique="monitor of drawn artists against independently converted data and recorded samples",
        note="Positions of artists, not their looks; outputs that are constant over the chain are not drawn.",
        design="Matplotlib axes are read back after each call; log-scaled lower errors may be clipped to stay positive, as documented in code.",
    ),
    dict(
        id="C25",
        title="Calls leave the arguments of the caller and the process as they were",
        statement="No public function changes an object that it is given: data tables, parameter vectors, labels, energies, nested lists of photon fields, "
        "dictionaries of options, runs to be analysed; nor default values or constants, the settings of matplotlib, warnings and numpy, the sequence of random numbers, "
        "signal handlers, the environment, or the figures and files of others; also when it fails at any point, after which samplers remain usable. "
        "Validated tables and runs do not follow later edits of what they were made from, or the other way round.",
        over=["inputs", "fault_sequences", "configurations"],
        qtext="all public functions, arguments and points of failure of the user's model",
        why="The tests look at what is returned; a shared list or a setting that stays changed shows up in a later, unrelated call.",
        files=[C, A, PL, U, MF, M, R],
        mech=[("fits", C + ":get_sampler, run_sampler"), ("analysis", A + ":save_run, save_results_table, save_diagnostic_plots"),
              ("plots", PL + ":plot_fit, plot_data, plot_corner"), ("interactive fitter", MF + ":InteractiveModelFitter"),
              ("data tables", U + ":validate_data_table")],
        observe=["deep images of arguments, defaults, constants and process state around each call"],
        technique="purity sanitizer around every public call, with injected failures",
        note="Open files are those of naima and of the scratch folder; the random state of numpy is meant to advance.",
        design="vmon/purity.py takes deep images before and after; read-only arrays are among the arguments. "
        "The random state after a call must be one that is reached by going on from the one before (random-numbers).",
    ),
    dict(
        id="C26",
        title="The interactive fitter shows, fits and returns the current parameters",
        statement="After any sequence of slider moves, automatic or manual updates and fits, the curve, the likelihood shown and the parameters "
        "of the fitter are those of the model at the current sliders, or at the last update if updates are manual. A fit never lowers the "
        "likelihood, its result reaches the sliders whatever their range, and it counts as finished only until the next change. "
        "The sampler goes on from the last parameters, with the data, limits and confidence levels it was given.",
        over=["histories", "inputs", "configurations"],
        qtext="all sequences of mouse events, data, models and labels",
        why="The tests build the widget once and call two of its methods without looking at the result.",
        files=[MF, C],
        mech=[("update and fit", MF + ":InteractiveModelFitter"), ("hand-over to the sampler", C + ":get_sampler")],
        observe=["curve, text and sliders of the figure, evaluations of the model, start of the sampler"],
        technique="mouse events sent to the canvas; shadow-state monitor after each event",
        note="Non-interactive canvas (Agg); matplotlib.pyplot.show is replaced by the session.",
        design="Press, motion and release events drive the real widgets; after each event the monitor compares with its shadow state.",
    ),
    dict(
        id="C27",
        title="The Sherpa models are the naima models",
        statement="Each of the four Sherpa models, evaluated at points in keV, is energy times the flux of the naima model with the same parameters, "
        "in the documented units, and, on bins, the integral of the flux over each bin, in photons per second and cm2, whatever was set or evaluated before, "
        "on this or another instance, called directly, with keywords or inside of a composite model. A cutoff of zero is no cutoff. "
        "The guess rescales only the amplitude to the data, and a Sherpa fit finds the parameters of the data.",
        over=["histories", "inputs", "configurations"],
        qtext="all sequences of parameter values, grids of points or bins and ways to evaluate the models",
        why="The tests evaluate each model once and compare nothing with the naima models.",
        files=[SH],
        mech=[("parameters to models", SH + ":SherpaModelECPL, InverseCompton, Synchrotron, Bremsstrahlung, PionDecay"), ("bins", SH + ":_mergex")],
        observe=["values of the models, parameters after guess and fit"],
        technique="differential monitor against freshly built naima models over sessions of parameter changes",
        note="Bins are consecutive, as the integration assumes.",
        design="Sherpa runs for real (calls, calc, composites, Levenberg-Marquardt fits of noise-free data).",
    ),
    dict(
        id="C28",
        title="Numbers written next to distributions are those of the samples",
        statement="The text of the figure of any distribution of samples gives its median, standard deviation and value with uncertainties "
        "as they are: the value is written at least as finely as a quarter of its smallest uncertainty, each uncertainty is rounded by at most 21 per cent, "
        "the upper one stands above and the lower one below, they are merged only if they differ by less than a quarter, and powers of ten, units "
        "and the parameter behind a logarithmic label are right, for any magnitude and sign, zero medians and sides without any spread included. "
        "That of a chain also gives its numbers of walkers and steps, mean acceptance fraction and autocorrelation time.",
        over=["inputs"],
        qtext="all samples of any magnitude, sign, spread and skewness, labels and units",
        why="The tests draw the figures and never read their texts; rounding goes wrong at particular magnitudes only.",
        files=[PL],
        mech=[("rounding", PL + ":_latex_value_error, _latex_float, round2"), ("texts", PL + ":plot_distribution, _plot_chain_func")],
        observe=["texts of the figures"],
        technique="monitor that parses the texts of rendered figures, against percentiles of the samples",
        note="Samples without any spread at all (a single value) are not part of the property.",
        design="The texts of plot_distribution and plot_chain are parsed back to numbers and compared with an independent percentile of the recorded samples.",
    ),
    dict(
        id="C30",
        title="Values in units of something else are rejected",
        statement="Every physical input of a model, data table or fit (constructor arguments, parameters that are changed later, photon energies, distances, "
        "energy limits, photon fields, table columns, the output of a user's model) that is of another physical type or is no quantity "
        "leads to an exception and never to a number, as do negative scale, break and cutoff energies, temperatures, redshifts and tabulated photon fields and energies, and the right value in "
        "any unit of the right type is accepted and gives the same result.",
        over=["inputs", "configurations"],
        qtext="all inputs of the public interface and all units and types",
        why="The tests try a few wrong inputs; a check that is missing for one of the many inputs yields silently wrong numbers.",
        files=[V, R, M, MU, U, C, A],
        mech=[("validation", V + ":validate_scalar, validate_array, validate_physical_type"), ("models", R + ":BaseRadiative"),
              ("tables", U + ":validate_column"), ("fits", C + ":lnprobmodel")],
        observe=["exception or result of each call"],
        technique="fault injection of wrong types and units into every input, with a monitor of what comes back",
        note="Plain dimensionless numbers are accepted by naima where they are documented to be.",
        design="One table of inputs and their right units; each case replaces one by a value of a random wrong type.",
    ),
    dict(
        id="C31",
        title="First estimates from data are those of the data",
        statement="The magnetic field estimated from X-ray and gamma-ray tables is sqrt(8 pi u L_X / L_gamma) with the integrals of the tables, "
        "the same for the same content in any documented form and unit, and recovers the field of synchrotron and inverse Compton spectra of one population. "
        "Bin edges generated for energies in any order, group and unit are half way between neighbours in logarithm, so that bins of a group touch.",
        over=["inputs", "configurations"],
        qtext="all pairs of tables, photon energy densities, orders and groups of energies",
        why="The tests call the estimate once for one pair of files and compare with a stored number.",
        files=[U],
        mech=[("field", U + ":estimate_B"), ("edges", U + ":generate_energy_edges")],
        observe=["estimate and edges returned"],
        technique="differential monitor against integrals known by construction and metamorphic relations",
        note="Edges of a group of a single point are taken from its own energy, as documented.",
        design="Tables are generated from known spectra (vmon/refs/data.py), integrated by an independent power-law rule.",
    ),
    dict(
        id="C32",
        title="Arguments that are left out have their documented values",
        statement="A call of any public class or function in which optional arguments are left out does exactly what it does with these arguments "
        "given with the values that the documentation states: the limits, grids, fields, densities, weights and cross sections of radiative models, "
        "their distance, the exponent of cutoffs, the EBL model, the confidence level of upper limits, the energy density of the estimate of the "
        "field, the numbers of walkers and steps, the guess, the contents and format of tables and files, and what is drawn in figures.",
        over=["inputs", "configurations"],
        qtext="all calls of the public interface, all choices of the arguments that are left out",
        why="The tests mostly give these arguments or compare with stored results of a single default configuration; a default that "
        "differs from the documentation changes the meaning of the scripts of all users that rely on it.",
        files=[R, M, U, C, A, PL],
        mech=[("models", R + ":InverseCompton, Synchrotron, Bremsstrahlung, PionDecay, PionDecayKelner06"),
              ("fits", C + ":get_sampler, run_sampler"), ("tables", U + ":build_data_table, validate_data_table, estimate_B"),
              ("results", A + ":save_results_table, save_run"), ("figures", "src/naima/plot.py:plot_fit, plot_blob, plot_data")],
        observe=["spectra, energy contents, evaluations of the model, files and artists of the figures"],
        technique="differential runtime monitor: calls without an argument against calls with its documented value",
        note="Values that are rounded in the documentation (510 TeV, 1.22 GeV, 1.088, 1.263) are compared within their rounding.",
        design="The documented values are transcribed in the check; the arguments left out are drawn at random and both calls are observed.",
    ),
]

NOT_APPLICABLE = [
    dict(
        id="C40",
        title="Long chains converge to the posterior",
        statement="As the number of steps grows, the distribution of the samples of a run converges to the "
        "posterior distribution given by the likelihood and the prior.",
        over=["histories"],
        qtext="all posteriors and all random states, in the limit of infinitely many steps",
        why="An asymptotic statement about the distribution of outcomes; no finite run settles it.",
        files=[C],
        mech=[("sampling (delegated to emcee)", C + ":run_sampler")],
        observe=["chain of the sampler"],
        reason="A limit over infinitely long runs of a stochastic algorithm that is implemented in emcee: no "
        "finite execution violates it, so no monitor can decide it. What naima contributes (each sample "
        "has its probability and outputs, priors exclude what they forbid, burn-in is dropped) is C17 to C20.",
    ),
]
