"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
U="src/legwork/utils.py"; E="src/legwork/evol.py"; ST="src/legwork/strain.py"; SN="src/legwork/snr.py"
P="src/legwork/psd.py"; S="src/legwork/source.py"; V="src/legwork/visualisation.py"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    props.append(d)
I=["inputs"]
p("C01","Orbital separation and frequency obey Kepler's third law and invert",
 "Converting an orbital frequency to a semi-major axis, or back, obeys Kepler's third law (G M = a^3 (2 pi f)^2 with M the total mass) for every pair of positive masses and every positive frequency or separation. The two conversions are inverses of each other in both directions, symmetric in the two masses, element-wise on arrays, and return AU and Hz.",
 I,"all positive masses, frequencies and separations, in any units, scalar or array",
 "The only test is a round trip over one random sample in fixed units: a wrong exponent or constant cancels in the round trip, and special input ranges are never sampled.",
 [U],[("get_a_from_f_orb",U),("get_f_orb_from_a",U)],["return values of the two conversions"])
p("C02","Chirp mass and the inspiral constant beta have their defining values",
 "For every pair of masses the chirp mass equals (m1 m2)^(3/5)/(m1+m2)^(1/5) and beta equals (64/5) G^3 m1 m2 (m1+m2)/c^5. Both are unchanged when the two masses are exchanged, act element-wise on arrays, and have the documented units (solar masses; m^4/s); the chirp mass also accepts plain numbers.",
 I,"all positive masses, in any mass units, scalar or array",
 "No test pins either value; they are only used on both sides of comparisons, where an error cancels.",
 [U],[("chirp_mass",U),("beta",U)],["return values"])
p("C03","Separation-eccentricity relation of Peters (1964) and its constant",
 "For every eccentricity in (0,1), the separation assigned to an eccentricity is c0 e^(12/19)/(1-e^2) (1+121/304 e^2)^(870/2299). The constant c0 computed from an initial (a, e) is the one for which this relation returns exactly that initial a, for any a and e.",
 I,"all positive separations and all eccentricities strictly between 0 and 1",
 "No test evaluates the relation; the evolution tests compare only lengths and limits.",
 [U],[("c_0",U),("get_a_from_ecc",U)],["return values"])
p("C04","Rates of change describe one and the same inspiral",
 "The eccentricity rate, the luminosity enhancement factor and the harmonic frequency rate take the values of Peters (1964) for every binary: de/dt = -(19/12)(beta/c0^4) e^(-29/19) (1-e^2)^(3/2)/(1+121/304 e^2)^(1181/2299), F(e) = (1+73/24 e^2+37/96 e^4)/(1-e^2)^(7/2), and dfn/dt = n (48/5pi) (G Mc)^(5/3)/c^5 (2 pi f)^(11/3) F(e), rejecting harmonics below 1. They agree with each other: along the separation-eccentricity relation the eccentricity rate moves the separation, and through Kepler's law the orbital frequency, at exactly the rate the frequency formula gives.",
 I,"all masses, frequencies, harmonics n >= 1 and eccentricities in [0,1) ((0,1) for the eccentricity rate)",
 "Tests only check one array of random binaries where the enhancement factor cancels, and that n=0 raises.",
 [U,E],[("peters_f",U),("fn_dot",U),("de_dt",E),("get_a_from_ecc",U)],["return values"])
p("C05","Each binary's merger time follows its own eccentricity regime",
 "For every binary the merger time is the circular formula a^4/(4 beta) when e = 0, Peters' small-e formula below the small-e tolerance, the large-e formula above the large-e tolerance, and otherwise the integral of Peters Eq. 5.14 (or, when the fit is requested, the circular time multiplied by the fit factor). The result for a binary depends only on that binary - not on the other members of an array, their order, or whether it is passed alone - and masses and frequency, or beta and separation, may be used interchangeably.",
 I,"all array sizes and mixtures of eccentricities in [0,1), all tolerances, exact or fit, all input combinations",
 "Tests compare array and scalar calls at four eccentricities with one tolerance; mixtures, boundaries and the values themselves are not covered.",
 [E,U],[("get_t_merge_ecc",E),("get_t_merge_circ",E),("check_mass_freq_input",E)],["return values"])
p("C06","Eccentric binaries never merge later than circular ones",
 "Merger times are never negative, and for the same masses and separation the time for an eccentric binary is never longer than for a circular one, in any of the eccentricity regimes with default tolerances. The fast fit stays within 1% of the exact integral at every eccentricity where it is used in its place.",
 I,"all masses and separations and every eccentricity in [0,1)",
 "Tests sample 10^4 random binaries with a 5% tolerance; narrow eccentricity ranges and the claimed accuracy are not settled by samples.",
 [E],[("get_t_merge_ecc",E),("t_merge_mandel_fit",E)],["return values"])
p("C07","Circular evolution follows the closed-form inspiral at every requested time",
 "For every circular binary and every requested time t, the evolved separation is (a_i^4 - 4 beta t)^(1/4) while that is positive and 0 once the binary has merged; the orbital frequency is Kepler's at that separation and exactly 100 Hz once merged, and the gravitational-wave frequency is twice it. Times are the ones requested (0 to t_evol or to the merger in n_step equal steps, or the supplied timesteps, per binary), and the outputs come back in the requested order and units, flattened for a single binary.",
 I,"all arrays of circular binaries, all times, all step counts and all choices and orders of output variables",
 "Tests check only output counts and creation of the time grid for random binaries.",
 [E,U],[("evol_circ",E),("create_timesteps_array",E)],["returned evolution arrays"])
p("C08","Stationarity follows the one-shot frequency drift over the observation",
 "The one-shot evolved frequency f satisfies f^(-8/3) = f_i^(-8/3) - (2^(32/3) pi^(8/3) / 5) (G Mc)^(5/3) F(e) t / c^5, and is the merged value when the right-hand side is negative. A source is stationary exactly when its fractional frequency drift over the observation is at most the tolerance, source by source, whether given the chirp mass or both component masses, and for circular sources the one-shot frequency agrees with the step-by-step evolution.",
 I,"all arrays of binaries, observation times and tolerances",
 "Only used indirectly by tests, on a few sources far from the threshold.",
 [E],[("evolve_f_orb_circ",E),("determine_stationarity",E)],["return values"])
p("C09","Eccentric evolution integrates each binary's own equation on its own times",
 "For every binary, eccentric evolution solves Peters' de/dt with that binary's own constants from its own initial eccentricity at exactly the requested times, and separations and frequencies follow from the separation-eccentricity relation and Kepler's law at each time, in the requested output order and units. Unless merger avoidance is turned off, times within t_before of that binary's merger are replaced by its last allowed time (never moved for other binaries, never the first time). Using several processes gives the same result as one.",
 I,"all arrays of eccentric binaries (0<e<1), times, merger-avoidance settings, process counts and output selections",
 "Tests only count outputs and check a final value is reached; they cannot cover clamping of mixed populations or process counts.",
 [E,U],[("evol_ecc",E),("integrate_de_dt",E),("create_timesteps_array",E)],["returned evolution arrays"])
p("C10","Strain amplitudes are the quadrupole formula for every source and harmonic",
 "For every source, time and harmonic n >= 1, the strain is h = sqrt(2^(28/3)/5) (G Mc)^(5/3)/(c^4 D) (pi f_orb)^(2/3) sqrt(g(n,e))/n and the characteristic strain is h_c = sqrt(2^(5/3)/(3 pi^(4/3))) (G Mc)^(5/6)/(c^(3/2) D) f_orb^(-1/6) sqrt(g(n,e)/(n F(e))), with g the Peters and Mathews relative power. Consequently h_c^2 = (f_n^2/(df_n/dt)) h^2 with the library's own frequency rate.",
 I,"all masses, distances, frequencies, eccentricities in [0,1) and harmonics n >= 1",
 "Tests check the ratio of the two strains at n=2 for circular binaries; a shared error or an error in another harmonic or eccentricity cancels.",
 [ST,U],[("h_0_n",ST),("h_c_n",ST),("peters_g",U)],["return values"])
p("C11","Strain arrays keep sources, times and harmonics apart and stay valid",
 "Strains are returned as (sources, times, harmonics) and each entry depends only on that source, time and harmonic, for one or many timesteps and one or many harmonics. When an interpolated g(n,e) is supplied it is used in place of the exact one with negative interpolated values treated as zero, the detector modulation multiplies h and h_c by the square root of the amplitude modulation of that source, and harmonics below 1 are rejected.",
 I,"all numbers of sources, timesteps and harmonics, all interpolants, with and without positions",
 "Tests use one shape, no position and no interpolant.",
 [ST],[("h_0_n",ST),("h_c_n",ST)],["shape and entries of the returned arrays"])
p("C12","Detector response has the Cornish and Larson form and its symmetries",
 "The averaged detector responses <F+^2>, <Fx^2> and the squared antenna factors equal the Cornish and Larson (2003) expressions at every sky angle and polarisation. They are therefore non-negative everywhere, unchanged when the polarisation angle changes by pi/2 or the longitude by pi, and the amplitude modulation equals 5/4 [((1+cos^2 i)/2)^2 <F+^2> + cos^2 i <Fx^2>] evaluated at the co-latitude of the source, non-negative and the same for inclination i and pi - i.",
 I,"all sky positions, polarisations and inclinations, in any angular unit",
 "The tests only check two sky averages (3/10 and 0.12), which many wrong angular dependences share.",
 [U,ST],[("D_plus_squared",U),("D_cross_squared",U),("D_plus_D_cross",U),("F_plus_squared",U),("F_cross_squared",U),("amplitude_modulation",ST)],["return values"])
p("C13","Instrument noise curves: right value in band, infinite outside, positive",
 "At every frequency the LISA, TianQin and DECIGO effective noise spectral densities equal their published formulas (Robson+19, Huang+20 with the 10/3 factor, Yagi and Seto) plus the chosen confusion noise, for any arm length and response option where these apply. LISA outside [1e-7, 2] Hz and DECIGO outside its [f_low, f_high] are infinite - never finite, NaN or negative - including frequencies mixed in one array, and each value depends only on its own frequency.",
 I,"all positive frequencies, arrays mixing in-band and out-of-band values, all arm lengths and observation times",
 "Tests compare exact and approximate response curves against each other and DECIGO's sign on one grid; formulas, band edges and mixtures are not covered.",
 [P],[("lisa_psd",P),("tianqin_psd",P),("decigo_psd",P),("approximate_response_function",P),("load_response_function",P)],["return values"])
p("C14","Galactic confusion noise follows the selected model and mission length",
 "Each confusion-noise model returns its published fit at every frequency: robson19 and huang20 with the coefficients of the tabulated mission length nearest to the requested one, karnesis21 with its mission-length scaling, thiele21 only for 4 years (any other length is a ValueError), and huang20 exactly zero outside [1e-4, 1] Hz. The result is never negative, model None gives exactly zero, unknown models are rejected, and an \"auto\" mission length means 5 years for huang20 and 4 years for the others.",
 I,"all frequencies, all mission lengths in any unit, all models",
 "Tests check non-negativity on one frequency grid and that the calls run for a few lengths.",
 [P],[("get_confusion_noise",P),("get_confusion_noise_robson19",P),("get_confusion_noise_huang20",P),("get_confusion_noise_thiele21",P),("get_confusion_noise_karnesis21",P)],["return values"])
p("C15","Sensitivity curve requests reach the right instrument with the right defaults",
 "Asking for a noise curve by instrument name gives exactly that instrument's curve with every option passed through, where \"auto\" means that instrument's own defaults (LISA: 2.5e9 m, 4 yr, karnesis21; TianQin: sqrt(3)e5 km, 5 yr, huang20; DECIGO: 4 yr, karnesis21). A custom curve function receives the frequencies, observation time, arm length, response option and confusion noise unchanged and its result is returned unchanged; an unknown instrument is a ValueError.",
 ["inputs","configurations"],"all instruments and every combination of explicit and automatic options",
 "Tests exercise a handful of option combinations and never check which defaults were used.",
 [P],[("power_spectral_density",P)],["return values; calls to the custom curve"])
p("C16","Stationary signal-to-noise ratios are the defining sums over harmonics",
 "A stationary circular source's SNR squared is h(n=2)^2 t_obs / S(2 f_orb), and a stationary eccentric source's is the sum over n = 1..harmonics of h(n)^2 t_obs / S(n f_orb), using the interpolated curve when one is given and otherwise the noise curve for the same observation time and options; the reported dominant harmonic is the one contributing most. Each source's value depends only on that source, and per-harmonic output, when requested, contains exactly the summed terms.",
 I,"all arrays of sources, harmonic counts, observation times, noise options, with or without interpolants and (circular) positions",
 "Tests compare the circular and eccentric functions with each other on one configuration; shared errors and options cancel or are unused.",
 [SN],[("snr_circ_stationary",SN),("snr_ecc_stationary",SN)],["return values"])
p("C17","Evolving signal-to-noise ratios integrate the track until merger or the end",
 "An evolving source's SNR squared is the trapezoidal integral over its gravitational-wave frequency track of h_c^2/(f^2 S(f)), summed over harmonics n = 1..harmonics for eccentric sources, with the track running for the observation time or until just before that source's own merger (1 s for circular, 0.1 yr for eccentric), whichever is shorter. Steps flagged as merged contribute nothing, the noise curve uses the same observation time and options, and each source's value depends only on that source.",
 I,"all arrays of sources mixing merging and non-merging ones, step counts, harmonic counts, noise options",
 "Tests compare evolving with stationary values for sources that barely evolve, at 10% level.",
 [SN,E],[("snr_circ_evolving",SN),("snr_ecc_evolving",SN)],["return values"])
p("C18","Calling the library never changes the caller's arrays",
 "No function that computes masses, separations, merger times, evolutions, strains, noise curves or SNRs modifies any array, quantity or dictionary passed to it. Repeating a call with the same arguments therefore gives the same answer.",
 ["inputs","histories"],"all public computational functions and all inputs, including 2-D timesteps and inputs that need clamping or masking",
 "Tests never inspect their inputs after a call.",
 [U,E,ST,SN,P],[("ensure_array",U),("create_timesteps_array",E),("evol_ecc",E),("snr_ecc_evolving",SN)],["caller's arrays after the call"])
p("C19","Physical results do not depend on the units of the inputs",
 "Expressing any dimensional input (masses, separations, frequencies, distances, times, angles) in a different compatible unit never changes the physical value returned by the conversion, merger-time, evolution, strain, noise-curve and SNR functions.",
 I,"every compatible choice of input units for every dimensional argument",
 "Every test uses one fixed unit per argument.",
 [U,E,ST,SN,P],[("unit conversion in each function",U),("evol_ecc unit stripping",E),("psd unit stripping",P)],["return values"])
p("C20","Every source gets its SNR from exactly one method, with its own parameters",
 "Computing SNRs for a collection evaluates each selected, unmerged source by exactly one of the four methods, chosen by its own eccentricity (above or up to the eccentric transition) and its own stationarity over the observation time, with its own parameters and enough harmonics for its eccentricity. Merged sources get zero, unselected sources keep their stored values when a single method is called, the stored SNR and dominant harmonic line up with the sources, and the noise options used are the ones requested or stored.",
 ["inputs","histories","configurations"],"all mixed collections of sources, masks, merged flags, and requested options",
 "The relevant tests cannot even construct a collection in this environment, and where they can they sample one population.",
 [S],[("Source.get_snr",S),("Source.get_snr_stationary",S),("Source.get_snr_evolving",S),("Source.get_source_mask",S)],["returned and stored snr, max_snr_harmonic"],[("snr","per-source SNR",S),("max_snr_harmonic","per-source dominant harmonic",S),("merged","per-source merged flag",S)])
p("C21","Subsetting or copying sources keeps every per-source value aligned",
 "Indexing a collection with an integer, slice, integer list or boolean mask gives a new collection whose every per-source quantity (masses, eccentricity, distance, frequency, weights, position, inclination, polarisation, merger time, SNR, dominant harmonic, merged flag) is the original's at the selected indices, with all settings carried over. The original is untouched and later changes to either collection never affect the other; wrong-length boolean masks and non-integer indices are rejected.",
 ["inputs","histories"],"all collections, all index types, all subsequent modifications",
 "Tests check a few attributes after a few index types, and never later modifications.",
 [S],[("Source.__getitem__",S),("Source.copy",S),("SensitivityCurveParams",S)],["attributes of the new and old collections"])
p("C22","Saved sources load back as they were",
 "Saving a collection and loading it back restores every per-source quantity with its unit, the tolerances, process count, interpolation settings, class, and every storable sensitivity-curve parameter, whether or not each optional quantity was set. Saving never silently overwrites an existing file unless asked, and loading settings given by the caller take precedence over stored ones.",
 ["inputs","histories","configurations"],"all collections, with any subset of optional quantities set, in any units",
 "Tests round-trip one or two collections with particular attributes.",
 [S],[("Source.save",S),("Source.from_file",S),("_write_dataset",S),("_read_dataset",S)],["attributes after from_file; file contents"])
p("C23","The cached sensitivity curve always matches its parameters",
 "After any sequence of changes to a collection's sensitivity-curve parameters - item assignment, update, setdefault, the |= operator, replacing the whole set, or options passed to an SNR call - the interpolated curve is the one for the current parameters, and unchanged parameters cause no recomputation. Unknown parameter names are rejected and parameters cannot be removed.",
 ["histories","inputs"],"all sequences of dictionary operations on the parameters",
 "Tests try a few single operations; they cannot cover every dictionary operation and order.",
 [S],[("SensitivityCurveParams",S),("Source.sc_params",S),("Source.set_sc",S)],["the curve after each operation"],[("_sc_params","current parameters",S),("sc","interpolated curve",S)])
p("C24","Evolving a collection moves each source by its own amount and keeps books",
 "Evolving a collection for a time (one for all, or one per source) leaves every source that merges within that time flagged as merged with zero eccentricity and 100 Hz, and evolves every other source by the circular or eccentric evolution for its own time, keeping masses, distances and settings. Stored merger times decrease by the elapsed time and never go below zero, merged sources report zero strain and zero merger time, and asking for a new collection leaves the original sources unchanged.",
 ["inputs","histories"],"all collections mixing circular, eccentric, merging and merged sources, scalar and per-source times",
 "Tests cannot construct a collection here and otherwise sample one population and one time.",
 [S,E],[("Source.evolve_sources",S),("Source.get_merger_time",S),("Source.get_h_0_n",S),("Source.get_h_c_n",S)],["attributes after evolution"],[("merged","per-source merged flag",S),("t_merge","per-source remaining time",S)])
p("C25","Enough harmonics are used to meet the luminosity tolerance",
 "For every tabulated eccentricity the number of harmonics used captures at least a fraction 1 - tolerance of the total gravitational-wave luminosity (or is the largest tabulated), never decreases with eccentricity, is at least 2, and between tabulated eccentricities is at least the linear interpolation; the eccentric transition is the first eccentricity at which the n=2 harmonic alone falls below that fraction. Changing the tolerance updates both.",
 ["inputs","histories"],"all luminosity tables, all tolerances, all eccentricities",
 "Tests need the missing data table and otherwise check a single tolerance.",
 [S],[("Source.create_harmonics_functions",S),("Source.find_eccentric_transition",S),("Source.gw_lum_tol",S)],["harmonics_required(e), ecc_tol"])
p("C26","Invalid source collections are rejected, valid ones stored faithfully",
 "Constructing a collection fails with a ValueError when both frequency and separation are missing, when inclination or polarisation is given without a position, when an eccentric source is given a position, or when masses, eccentricities, distances and frequencies differ in length, and with an AssertionError when a dimensional parameter lacks units. Otherwise the stored masses, eccentricity, distance and frequency are the ones given (frequency from Kepler's law when only the separation is given), as arrays, and derived chirp mass and separation always match the stored values.",
 ["inputs","configurations"],"all combinations of supplied, missing and mismatched parameters",
 "Tests check a few invalid combinations one at a time.",
 [S,U],[("Source.__init__",S),("Source.a",S),("Source.m_c",S),("ensure_array",U)],["exceptions and stored attributes"])
p("C27","Plotted points stand above the plotted curve by their SNR",
 "A plotted sensitivity curve shows the square root of the noise density (or of frequency times density for characteristic strain) at each frequency. Every source above the cut-off, and no other, is plotted at its own frequency with a height of its SNR times the curve's value there, with its own weight.",
 ["inputs","configurations"],"all frequency ranges, sources, SNR cut-offs and plotted quantities",
 "Tests do not inspect plotted values at all.",
 [V],[("plot_sensitivity_curve",V),("plot_sources_on_sc",V)],["data handed to the plotting back end"])
p("C28","Harmonic powers add up to the total enhancement factor",
 "For every eccentricity in [0,1), the relative powers g(n,e) of all harmonics n = 1, 2, ... are non-negative and sum to the enhancement factor F(e).",
 I,"all eccentricities in [0,1) and the infinite sum over harmonics",
 "No finite set of samples reaches the infinite sum.",
 [U],[("peters_g",U),("peters_f",U)],["return values"])
with open("/verif/properties.jsonl","w") as f:
    for d in props: f.write(json.dumps(d)+"\n")
