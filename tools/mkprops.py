"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep both in step)."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SRC = "src/lightcurvelynx/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level_note=""):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[SRC+f for f in files],
            state=[dict(name=n, meaning=m, where=SRC+w) for n,m,w in state],
            mechanism=[dict(name=n, where=SRC+w) for n,w in mech],
            observe_at=list(observe), hook_needed=None), _note=level_note))

prop("P01", "Joint samples satisfy every declared parameter relation",
 "In every draw from a model's parameter graph, each parameter declared as taken from another parameter holds that parameter's value of the same sample, each parameter declared as computed holds its function applied to the input values recorded for the same sample, and each constant holds its constant. Every random or computed quantity is drawn once per draw, however many parameters share it, and one draw of S samples yields S values for every parameter. Values fixed by the caller are kept as given and everything computed from them uses them.",
 ["inputs","configurations","histories"], "all graphs (chains, diamonds, shared and multi-output nodes, labels), sample counts, fixed values, and sequences of draws and parameter re-assignments",
 "Unit tests sample a few hand-built graphs of two or three nodes; the relation must hold for any graph shape, sharing pattern, sample count and call history.",
 ["base_models.py","graph_state.py","math_nodes/np_random.py","math_nodes/given_sampler.py"],
 [("recursive sampling with a seen-node table","base_models.py"),("fixed variables are skipped on write","graph_state.py")],
 [("parameter setters","recipe of each parameter","base_models.py"),("sample store","node -> parameter -> values","graph_state.py")],
 ["sampled state returned to the caller","calls to each node's computation"])
prop("P02", "A random generator's seed reproduces samples, light curves and noise",
 "Repeating a draw, a flux evaluation or a whole simulation on an identically built model with a generator in the same state gives identical values for every parameter, noise-free flux, noisy flux and uncertainty, whatever else has run in the process, in another process too, and without consuming process-wide random state. Nodes and models given their own seed reproduce their own sequence in the same way. Generators in different states give different draws of continuous quantities.",
 ["inputs","configurations","histories"], "all combinations of random nodes, models, random effects and surveys, seeds, and interleavings with other random use (wrappers documented as outside generator control excepted)",
 "Tests seed single nodes and compare one or two runs; they never mix every random source, perturb the global generator, or compare full simulations.",
 ["simulate.py","base_models.py","math_nodes/np_random.py","math_nodes/distribution_sampler.py","math_nodes/scipy_random.py","effects/white_noise.py","astro_utils/noise_model.py","astro_utils/snia_utils.py","astro_utils/obs_utils.py"],
 [("generator passed down to every node, effect and the noise step","simulate.py")],
 observe=["sampled state","simulation result table","process-global random state"])
prop("P03", "Sample sets read back like a table under any operation history",
 "After any sequence of writes, fixed writes, merges, copies, slices, iterations and lookups, a sample set reports for every node and parameter exactly the values a plain table of samples would: fixed values are never overwritten, a single value given for a multi-sample set is repeated for every sample, sample i of the set is the i-th value of every parameter, and counts match. Copies and concatenations are independent of their sources. Wrong lengths, indices out of range, names containing the separator and lookups of absent names are rejected.",
 ["histories","inputs"], "all operation sequences over sample sets with any sample count, value types (floats, ints, strings, arrays, None) and node layouts",
 "Tests run a handful of fixed operation sequences with small numeric values; aliasing, ordering and type interactions appear only in longer histories.",
 ["graph_state.py"], [("nested dictionaries with fixed sets","graph_state.py")],
 [("states/fixed/num_samples/num_parameters","the sample store","graph_state.py")], ["every return value of the sample set API"])
prop("P04", "Sample sets survive every conversion and file round trip unchanged",
 "Converting a sample set to a flat dictionary, a table or a saved file and back, or splitting it into single samples and concatenating them again, returns a set equal in names, sample count, sample order and values, with floating point values preserved exactly. Concatenation keeps the samples of each part in the order given and refuses parts with different parameters. Extraction of named parameters returns the same values as direct lookup. Two sets compare equal when they hold the same values and not when a name, value, sample count or forced mark clearly differs.",
 ["inputs","histories"], "all sample sets (any sample count from 1, extreme floats, integers, booleans, strings) and chains of conversions",
 "Tests convert one or two small float-valued states once; exact preservation over values, sizes, orders and chains of conversions is never explored.",
 ["graph_state.py"], [("dict/table/ECSV conversions and concatenation","graph_state.py")], observe=["converted object compared entry by entry"])
prop("P05", "Reported dependencies are exactly the real ones",
 "The dependency report of a model lists every parameter of every node reachable from it once, and has a directed path from one parameter to another exactly when the second is obtained from the first through declared relations; it has no cycles. Forcing a parameter to a new value changes only parameters reported as depending on it. The differentiable-parameter tree contains exactly the parameters declared differentiable above the model, with their sampled values.",
 ["configurations","inputs"], "all parameter graphs (shared nodes, several outputs, labels, multi-object models)",
 "Tests compare the report for two hand-made graphs; agreement with actual value propagation over arbitrary graphs is not testable by examples.",
 ["base_models.py","graph_state.py","models/multi_object_model.py"], [("dependency graph construction","base_models.py")], observe=["reported graph against intervention experiments on the sampled values"])
prop("P06", "Simulated observations are exactly the survey rows covering the object",
 "For every simulated object the result holds one observation for each survey row whose field of view contains the object's position and whose time lies in the requested window around its reference time and passes the requested mask, and no other; time, filter, survey number and every saved column of the observation are those of that row. The reported number of observations equals the number of its rows, over any number of surveys, and objects never observed are reported with zero. A missing saved column yields a null for that survey only. A model's own declared times of interest are those between its earliest and latest phase stretched by (1+z) around its reference time.",
 ["inputs","configurations"], "all sky positions, surveys (one or several, any sizes, positions, radii, footprints, filtered tables), windows, masks and saved columns",
 "Tests check a few objects placed on or off known pointings; completeness and soundness over positions, windows, several surveys and empty results is universal.",
 ["simulate.py","obstable/obs_table.py"], [("range search, mask and row bookkeeping per object and survey","simulate.py")],
 observe=["result table rows joined back to survey rows"])
prop("P07", "Reported noise-free flux and parameters belong to the same sampled object",
 "The noise-free fluxes reported for an object equal the model's band fluxes evaluated on their own at that object's recorded parameters, observation times and filters, in every survey. Recorded position, redshift, reference time, parameter dictionary and requested parameter columns are those of that one sample. Noise-free light curves on a phase grid have observer times equal to reference time plus phase times (1+z) and the same band fluxes, object by object.",
 ["inputs","configurations"], "all models, effects, sample counts, surveys and filters",
 "Tests compare a few constant sources; mixing up samples, surveys or filters only shows for objects that differ in all parameters.",
 ["simulate.py","models/physical_model.py"], [("per-sample slicing of the state during simulation","simulate.py")],
 observe=["result table against re-evaluation from recorded parameters"])
prop("P08", "Reported noise follows each observation's own uncertainty",
 "The reported uncertainty of each observation is the survey's noise model applied to that observation's row and noise-free flux, and is finite and non-negative. The reported flux minus the noise-free flux, divided by the uncertainty, is a standard normal draw, independent between observations, objects and surveys; observations with zero uncertainty are reported without noise.",
 ["inputs","configurations"], "all surveys, fluxes (including zero and very faint or bright), and generator states",
 "Tests check noise on one or two fixed cases; distribution and independence are statistical properties of all draws.",
 ["simulate.py","astro_utils/noise_model.py","obstable/opsim.py","obstable/fake_obs_table.py","obstable/ztf_obstable.py"],
 [("uncertainty from the survey row then Gaussian noise","simulate.py")], observe=["flux, fluxerr and noise-free flux columns"])
prop("P09", "Sky searches agree with great-circle distance and time bounds",
 "A search of an observation table around a position returns exactly the rows whose pointing lies within the given angular radius on the sphere, anywhere on the sky including the poles and across the RA wrap, and whose time lies in the closed interval requested; a missing bound does not restrict. Searching many positions at once gives for each the same rows as searching it alone, with time bounds given once or per position. The observed/not-observed answer and the looked-up observations agree with the search.",
 ["inputs"], "all tables, positions, radii (tiny to all-sky), time bounds and batch sizes",
 "Tests search a few grid points near the equator; boundary, pole, wrap-around and batch behaviour are universal statements over the sphere.",
 ["obstable/obs_table.py"], [("kd-tree on unit vectors with chord radius","obstable/obs_table.py")], observe=["returned row numbers"])
prop("P10", "Detector footprints select by true position relative to the pointing",
 "With a detector footprint, a position counts as observed by a pointing exactly when it lies inside the footprint shape after moving the pointing to the shape's centre on the sphere and undoing the pointing's rotation, whatever the pointing's position, rotation and RA representation. One position per pointing, many at once and scalars give the same answers, and a footprint only ever removes rows from what the radius search returns.",
 ["inputs"], "all pointings, rotations, rectangular, circular and polygonal shapes and positions away from the exact border",
 "Tests use two rectangles at a few pointings and rotations of 0, 45 and 90 degrees.",
 ["astro_utils/detector_footprint.py","obstable/obs_table.py"], [("offset frame rotation and pixel region test","astro_utils/detector_footprint.py")], observe=["containment answers"])
prop("P11", "Observation tables stay consistent under any history of edits",
 "After any sequence of row filterings, column additions, radius changes, footprint changes and searches, an observation table reports exactly the rows and columns a plain table with the same edits would: searches, observation lookups, time bounds, row counts, noise values and column access all refer to the same current rows. Columns are reachable by standard and by survey names alike. The table given at construction is never modified and errors leave the table unchanged.",
 ["histories","inputs"], "all edit and query sequences, input tables with any row labels and column mappings",
 "Tests filter a table once and look at its length and one search; mixes of edits and row-addressed lookups are not exercised.",
 ["obstable/obs_table.py","obstable/opsim.py","obstable/fake_obs_table.py"], [("in-place data frame edits with a rebuilt search tree","obstable/obs_table.py")],
 [("table, column maps, search tree","must describe the same rows","obstable/obs_table.py")], ["row numbers and column values returned"])
prop("P12", "Observation tables survive saving and loading",
 "An observation table of any survey, also one whose times, zero points or backgrounds were derived when it was made, written to a database or to a columnar file and read back has the same rows in the same order with the same columns and values, however often it is saved and loaded, and answers searches identically; the columnar file also restores the survey settings, so noise values are unchanged. Writing over an existing file is refused unless asked for, and asking for it leaves exactly the new contents.",
 ["inputs","histories"], "all tables (sizes, extra columns, filtered tables, survey settings) and write/overwrite sequences",
 "Tests save one small table; they do not compare searches, settings or noise after reloading, or filtered tables.",
 ["obstable/obs_table.py","obstable/fake_obs_table.py","obstable/opsim.py"], [("sqlite and parquet writers/readers","obstable/obs_table.py")], observe=["reloaded table"])
prop("P13", "Point-source uncertainties follow photon statistics of the observation",
 "For every survey type the point-source uncertainty of a visit, in electrons, is the root sum of squares of source shot noise, sky and dark current over the PSF footprint, and read-out noise (per pixel of the footprint and exposure, or the total given by a function of exposure time), converted with that visit's zero point; it uses that visit's own seeing, sky, exposure, band and settings overridden for the survey (numbers of any kind). It never decreases with flux, sky, seeing, read noise or dark current, and a visit's value does not depend on which other visits are asked for. Settings from which no uncertainty follows (missing, non-positive or incomplete over the filters) are refused.",
 ["inputs","configurations"], "all visits, fluxes, survey settings and overrides, scalar and array calls",
 "Tests compare a handful of values; dependence on every input, override and per-row pairing is universal.",
 ["astro_utils/noise_model.py","obstable/opsim.py","obstable/fake_obs_table.py","obstable/ztf_obstable.py","obstable/roman_obstable.py"],
 [("Poisson noise formula fed from table rows and survey values","astro_utils/noise_model.py")], observe=["uncertainties returned"])
prop("P14", "Magnitudes, zero points and flux units convert consistently",
 "Magnitude to flux and back, and per-wavelength to per-frequency flux density and back, return the starting value for any magnitude, positive flux, wavelength and unit choice, with 31.4 mag equal to 1 nJy and the speed-of-light relation between the two densities; a flux that is not positive has no finite magnitude. A zero point derived from a limiting magnitude gives a source of that magnitude exactly the stated signal-to-noise under the noise model, and zero points from throughput scale with exposure time and airmass as the definition says. Conversions act element by element on scalars, vectors and matrices.",
 ["inputs"], "all positive fluxes, magnitudes, wavelengths, units, limiting depths and observing conditions",
 "Tests check a few constants; inverse and scaling laws must hold across many orders of magnitude, shapes and units.",
 ["astro_utils/mag_flux.py","astro_utils/unit_utils.py","astro_utils/zeropoint.py","astro_utils/obs_utils.py"],
 [("closed-form conversions","astro_utils/unit_utils.py")], observe=["returned values"])
prop("P15", "Band fluxes are the photon-weighted average of the spectrum over the filter",
 "A spectrum flat in flux density has exactly that value as band flux through every filter, whatever the filter table's spacing, units, resampling step, trimming or normalisation. For any spectrum the band flux equals the integral of the spectrum times transmission over wavelength divided by the integral of transmission over wavelength (to the accuracy of the wavelength grid), is linear in the spectrum and independent of the transmission's overall scale. Malformed tables are rejected, duplicated wavelengths are averaged, and the caller's table is not changed.",
 ["inputs","configurations"], "all filter tables (spacing, units, repeats, edges), resampling steps, trim levels and spectra",
 "Tests integrate a few tables whose range is a multiple of the step; normalisation on arbitrary grids is a statement over all tables.",
 ["astro_utils/passbands.py"], [("regridding, trimming, normalisation and weighted sum","astro_utils/passbands.py")],
 [("processed transmission table","normalised system response on the wavelength grid","astro_utils/passbands.py")], ["band fluxes and wavelength grids"])
prop("P16", "Filter groups agree with their individual filters",
 "A band flux computed through a group of filters equals the one computed through the single filter on its own wavelengths, for any mix of overlapping, disjoint and near-coincident wavelength grids, and selecting a subset of filters changes no band flux. Lookup by short or full name finds that filter only; a short name shared by several surveys is refused everywhere. The group's wavelengths are the sorted union of its filters' wavelengths.",
 ["inputs","configurations","histories"], "all groups, grids, subsets, changes of grid settings and spectra",
 "Tests use one or two fixed groups with coinciding integer grids.",
 ["astro_utils/passbands.py"], [("union grid and index mapping per filter","astro_utils/passbands.py")],
 [("group wavelength grid and per-filter index map","must address the same wavelengths","astro_utils/passbands.py")], ["band fluxes per filter"])
prop("P17", "Redshifted sources obey the rest-to-observer transformation",
 "The flux density of a redshifted source at observer time t and wavelength w is (1+z) times its rest-frame flux density at time t0+(t-t0)/(1+z) and wavelength w/(1+z); sources without redshift, with redshift zero or with redshift switched off are evaluated unchanged. Each sample uses its own redshift and reference time. Luminosity distance derived from redshift and a cosmology is the cosmology's own.",
 ["inputs","configurations"], "all models, redshifts (including zero, per-sample mixtures), times, wavelengths and sample counts",
 "Tests evaluate a couple of redshifts for step and constant models.",
 ["models/physical_model.py","astro_utils/redshift.py"], [("frame conversion around model evaluation","models/physical_model.py")], observe=["spectra against direct rest-frame evaluation"])
prop("P18", "Effects act in their declared frame, once, in order, with that sample's parameters",
 "An evaluated spectrum equals the bare spectrum passed once through each added effect: rest-frame effects first, in the order added, at rest-frame times and wavelengths, then the redshift scaling, then observer-frame effects in order at observed times and wavelengths, each with the parameter values recorded for that sample. A rest-frame effect added to a combination acts once on every member, however often that member is used. Dimming scales by its fraction, dust extinction by its law at the frame's wavelengths, white noise adds zero-mean Gaussian noise of its width, and a probabilistic effect applies fully or not at all according to its recorded flag. Band-level application agrees with spectrum-level application for wavelength-independent effects. Applying an effect never changes the fluxes handed to it.",
 ["inputs","configurations"], "all effect combinations, frames, orders, parameters, redshifts and models",
 "Tests add one or two effects with constant parameters; ordering, frame and per-sample pairing need all combinations.",
 ["models/physical_model.py","effects/basic_effects.py","effects/extinction.py","effects/white_noise.py","effects/microlensing.py","effects/effect_model.py"],
 [("effect lists applied around the redshift step","models/physical_model.py")], observe=["arguments and results of each effect application"])
prop("P19", "Band fluxes do not depend on how the request is batched",
 "For deterministic models the band flux of an observation depends only on its own time, filter and sample: reordering, splitting, merging or duplicating the requested observations, evaluating several samples together or one by one, or passing one filter or a group gives the same value per observation. It equals the spectrum at that time integrated through that filter. Evaluation leaves the sampled parameters, the model, the filters and the caller's arrays unchanged.",
 ["inputs","configurations","histories"], "all models, requests, permutations, splits and sample counts",
 "Tests evaluate ordered requests once; batching invariance is a relation over all requests.",
 ["models/physical_model.py","astro_utils/passbands.py","models/static_sed_model.py","models/lightcurve_template_model.py"], [("grouping by filter with masks","models/physical_model.py")], observe=["band fluxes of related requests"])
prop("P20", "Spectra outside a model's wavelength range follow the chosen extrapolation",
 "Inside its defined wavelength range a model's spectrum is unaffected by which other wavelengths are requested and by the extrapolation choice; outside it is zero by default or follows the chosen rule from the edge value: constant, linear decay reaching zero over the given width and never negative, or exponential decay at the given rate. The rule applies independently at each time, on both sides, in the rest frame.",
 ["inputs","configurations"], "all wavelength requests (inside, outside, straddling, unsorted), models and extrapolation rules",
 "Tests probe a few wavelengths on either side for one model.",
 ["models/physical_model.py","utils/wave_extrapolate.py","models/spline_model.py","models/static_sed_model.py"], [("padded evaluation and extrapolators","models/physical_model.py")], observe=["spectra"])
prop("P21", "Combined sources are the weighted sum of their parts",
 "The spectrum or band flux of an additive combination is, for every sample, the weighted sum of its members evaluated at that sample's values with each member's own redshift and rest-frame effects, followed by the shared observer-frame effects; parameters shared between members have one value per sample. Switching redshift on or off for the combination switches it for every member, and is refused, as are spectra, when a member is band-only.",
 ["inputs","configurations"], "all member mixes (spectral, band-only), weights, redshifts, effects and sample counts",
 "Tests sum two constant sources; per-sample pairing, mixed redshifts and effects over arbitrary mixes are not enumerable.",
 ["models/multi_object_model.py"], [("member loop with weights and effects","models/multi_object_model.py")], observe=["combined versus member fluxes"])
prop("P22", "Random-choice models produce exactly the recorded choice",
 "A model that picks one of several components, spectra or light curves per sample produces exactly the flux of the component recorded as picked for that sample, whether or not components share a type, label or content; picks follow the given relative weights for any scale of weights and equal weights by default, and components of weight zero are never picked. Wavelength limits and derived per-choice parameters are those of the picked component.",
 ["inputs","configurations"], "all component lists, weights, sample counts and generator states",
 "Tests use labelled components or check one seed; choice consistency and frequencies are statistical and combinatorial.",
 ["models/multi_object_model.py","models/static_sed_model.py","models/lightcurve_template_model.py","models/basic_models.py","math_nodes/given_sampler.py"], [("selection parameter plus lookup","models/multi_object_model.py")], observe=["recorded selection and flux per sample"])
prop("P23", "Template light curves reproduce their input data",
 "A template light curve evaluated at its own sample times returns the input values, between them the linear interpolation, and outside them the filter's baseline; periodic templates repeat with their period for any phase and any number of cycles, and the reference time shifts the curve rigidly. The spectrum built from a template integrates through each filter to that filter's light-curve value. Magnitude input equals the same input in flux, and input arrays and dictionaries are not modified.",
 ["inputs","configurations"], "all light curves (filters, samplings, baselines, periods, reference times, input formats) and query times",
 "Tests evaluate two or three curves at a few times with round numbers.",
 ["models/lightcurve_template_model.py"], [("per-filter interpolation with baseline and wrap; box spectrum basis","models/lightcurve_template_model.py")], observe=["band fluxes and integrated spectra"])
prop("P24", "Closed-form source models equal their formulas",
 "Constant, step, sinusoid, linear-in-wavelength, tabulated spectrum, tabulated band-flux, spline-grid and Gaussian-galaxy sources return at every time and wavelength the value of their documented formula or interpolation for that sample's parameters, with no dependence on the other requested times, wavelengths or samples. Spectra tabulated in files or taken from a spectral library are returned unchanged at their own wavelengths.",
 ["inputs"], "all parameters, times, wavelengths and sample counts",
 "Tests evaluate each formula at a handful of points.",
 ["models/basic_models.py","models/static_sed_model.py","models/spline_model.py","models/galaxy_models.py"], [("closed-form evaluation","models/basic_models.py")], observe=["spectra and band fluxes"])
prop("P25", "Periodic stars repeat and eclipsing binaries conserve light",
 "A periodic source has the same flux at times an integer number of (observer-frame) periods apart, for any reference time. An eclipsing binary's flux never exceeds the sum of its two black-body stars, equals it when the discs do not overlap, is symmetric about each minimum, and during an eclipse loses exactly the covered fraction of the star behind; swapping which star is called primary only shifts the phase by half a period. Black-body spectra follow Planck's law.",
 ["inputs"], "all stellar radii, temperatures, separations, inclinations, periods, phases and wavelengths",
 "Tests check one system at the minima and quadratures.",
 ["models/periodic_model.py","models/periodic_variable_star.py","astro_utils/black_body.py"], [("phase folding and disc overlap","models/periodic_variable_star.py")], observe=["spectra against independent geometry"])
prop("P26", "Random parameter nodes draw from the distribution they declare",
 "Every random node draws values only from the support of its declared distribution and with that distribution, for single draws and for batches alike: named numpy distributions (with per-sample arguments and vector-valued draws pairing each sample with its own arguments), scipy distributions and arbitrary density functions, tabulated densities, weighted lists, yes/no events and joint priors (with their conditions and constraints). Batches have one independent draw per sample.",
 ["inputs","configurations"], "all node types, distribution parameters, weights, sample counts and generator states",
 "Tests look at ranges or means for one seed.",
 ["math_nodes/np_random.py","math_nodes/scipy_random.py","math_nodes/distribution_sampler.py","math_nodes/given_sampler.py","math_nodes/bilby_priors.py"], [("generator calls with per-sample sizes; inverse CDF","math_nodes/distribution_sampler.py")], observe=["drawn values"])
prop("P27", "List and table samplers hand out given rows intact and in order",
 "An ordered list or table sampler hands out its entries in order, each exactly once across any sequence of single and batched draws, starts again only after a reset, and refuses a draw that asks for more than is left without handing any out. A table sampler, ordered or random, always returns values of one and the same row for all columns of a sample. A selector returns the entry its index parameter holds in that sample and refuses indices outside the list.",
 ["histories","inputs"], "all lists and tables (types, columns), draw sequences and reset points",
 "Tests make a few draws of fixed size.",
 ["math_nodes/given_sampler.py"], [("next-index counter","math_nodes/given_sampler.py")], [("next index","first entry not handed out","math_nodes/given_sampler.py")], ["values handed out"])
prop("P28", "Sky-position samplers stay inside and fill their coverage",
 "Positions drawn uniformly over the sky are uniform on the sphere; positions drawn uniformly from a survey's coverage are observed by that survey (unless the attempt limit is exhausted) and uniform over the covered area; positions drawn from a coverage map lie in the map; a survey's coverage map holds every position in one of its fields of view and none far from all of them (up to the map's resolution); positions drawn around pointings lie within the given offset of the pointing they were drawn for, with that pointing's time. Right ascension and declination are paired per sample and single draws are plain numbers.",
 ["inputs","configurations"], "all surveys, radii, maps, depths, sample counts, units and generator states",
 "Tests check a few bounds for one seed.",
 ["math_nodes/ra_dec_sampler.py","obstable/obs_table.py"], [("rejection sampling; healpix descent","math_nodes/ra_dec_sampler.py")], observe=["drawn positions"])
prop("P29", "Expression nodes evaluate the written formula and nothing else",
 "An expression node returns for every sample exactly what the written arithmetic means in Python with the sample's inputs, for every operator, function and constant it accepts, precedence included, identically (to rounding) for each numeric backend and for single and batched samples. Expressions that use anything else (attribute access, indexing, imports, unknown names or functions, missing inputs) are rejected when the node is built and never executed.",
 ["programs","inputs"], "all expressions of the accepted grammar and hostile expressions outside it, all inputs",
 "Tests try about twenty expressions.",
 ["math_nodes/basic_math_node.py"], [("syntax-tree allow-list then evaluation","math_nodes/basic_math_node.py")], observe=["computed values and rejected expressions"])
prop("P30", "Grid interpolators and supernova spectra match their reference definitions",
 "The bicubic grid interpolator reproduces its grid values, gives zero outside the grid, agrees with an independent evaluation of the same convolution kernel everywhere inside it, and evaluates every requested point independently. SALT spectra equal amplitude times (first component plus stretch times second component) times ten to the minus 0.4 colour times colour law, and agree with the reference SALT implementation for the same inputs. BayeSN spectra depend on their parameters as the published formula states.",
 ["inputs"], "all grids (uniform and non-uniform), query points and supernova parameters",
 "Tests compare one small grid and a few points.",
 ["utils/bicubic_interp.py","models/salt2_jax.py","astro_utils/salt2_color_law.py","models/bayesn.py"], [("bicubic kernel weights; SALT formula","utils/bicubic_interp.py")], observe=["interpolated values and spectra"])
prop("P31", "Post-processing labels every observation from its own values",
 "After post-processing, each observation's signal-to-noise, magnitude, magnitude error, relative time and detection flags are those computed from that observation's own flux, uncertainty, time and its own object's reference time, for any selection or ordering of objects and any object labels; nothing else in the results changes. Magnitude conversions invert the flux conversion and non-positive fluxes have no magnitude. Detection requires reaching the given threshold.",
 ["inputs","histories"], "all result tables (filtered, re-ordered, re-labelled, with unobserved objects) and thresholds",
 "Tests process one freshly simulated table with consecutive labels.",
 ["utils/post_process_results.py"], [("nested column arithmetic and per-object reference time lookup","utils/post_process_results.py")], observe=["augmented result table"])
prop("P32", "Data files are read exactly as written and malformed ones are refused",
 "Numeric arrays (for text formats: one-dimensional, or with several rows and columns) written in any supported format read back with the same shape and values to text precision; gridded data read from text, CSV, ECSV or FITS return the sorted axes and the value at every grid point, or are refused when incomplete or (on request) out of order; light-curve library files return every event with its own observations, types, identifiers and parameters, plain or compressed; filter tables and spectra read from file equal the written ones. Template models built from a library hold each event's own curve. Named filter sets equal their published files. A remote file is fetched when missing or when asked for afresh, kept otherwise, and never left half-written. Malformed files are refused.",
 ["inputs","fault_sequences","histories"], "all well-formed files, single corruptions of them, and histories of downloads with server faults",
 "Tests read a few bundled files.",
 ["utils/io_utils.py","astro_utils/passbands.py","models/static_sed_model.py","models/lightcurve_template_model.py"], [("format-specific readers","utils/io_utils.py")], observe=["parsed data"])
prop("P33", "Distance and supernova-population parameters follow their definitions",
 "Distance modulus, luminosity distance and the derived supernova amplitude agree with the cosmology and the standardisation relation for any redshift, stretch and colour, sample by sample; amplitude and magnitude conversions are inverses. Host-mass-dependent stretch draws come from the distribution of their mass class, event-rate tables and count predictions integrate the stated volumetric rate over the comoving volume, and redshift draws from them stay in range and follow that rate. Event positions around a host lie at the stated physical separation.",
 ["inputs"], "all redshifts, cosmologies, stretch, colour, host masses, survey areas and redshift ranges",
 "Tests pin a few numbers.",
 ["astro_utils/snia_utils.py","astro_utils/redshift.py","astro_utils/obs_utils.py"], [("astropy cosmology wrappers","astro_utils/snia_utils.py")], observe=["sampled values"])
prop("P34", "Accretion-disc light curves have the stated structure",
 "An AGN model's derived quantities (accretion rate, luminosity, structure-function amplitude and damping time) follow their formulas for each sample; its flux equals the disc spectrum scaled by ten to the minus 0.4 of a damped random walk with those amplitudes and times: each step keeps the decayed previous value and adds one fresh innovation shared by all wavelengths, the same walk for the same seed or generator. Within one evaluation two observations at the same time and wavelength have the same flux, and disc flux falls with the square of distance.",
 ["inputs"], "all black-hole masses, accretion ratios, redshifts, inclinations, times and wavelengths",
 "Tests pin a few values.",
 ["models/agn.py","astro_utils/agn_utils.py"], [("derived parameters and damped random walk","models/agn.py")], observe=["parameters and spectra"])
prop("P35", "Dust-map lookups return the map's value at each sample's position",
 "A dust-map node returns for every sample the map's reddening at that sample's own position times the configured scaling, for any sky position on either hemisphere, identically for single and batched samples, and results feed extinction effects sample by sample.",
 ["inputs","configurations"], "all positions, maps, scalings and sample counts",
 "Tests look up a constant map and two positions.",
 ["astro_utils/dustmap.py"], [("coordinate conversion and map query","astro_utils/dustmap.py")], observe=["looked-up values"])
prop("P36", "Derived survey tables keep the properties of the visits they come from",
 "An oversampled single-pointing survey has observations evenly spaced by the given step over the requested time range, cycling through the requested bands in order, each with the properties of a real visit of that pointing in the same band (the darkest one, or a random one). Random test surveys have the requested number of visits on the sphere with valid conditions. Survey-specific ingestion keeps exactly the visits with usable metadata and converts their units row by row.",
 ["inputs","configurations"], "all surveys, pointings, steps, ranges, band choices and strategies",
 "Tests oversample one table whose length is a multiple of the number of bands.",
 ["obstable/opsim.py","obstable/ztf_obstable.py","obstable/roman_obstable.py"], [("prototype selection per band","obstable/opsim.py")], observe=["constructed tables"])
prop("P37", "Microlensing magnifies by the point-lens curve",
 "A lensed source's flux at any time is its unlensed flux times the point-source point-lens magnification for that sample's peak time, impact parameter and crossing time: at least one, symmetric about and largest at the peak, tending to one far away, equal at every wavelength and equal between spectrum-level and band-level evaluation. With a probability given, the recorded flag decides for that sample and its frequency is the probability.",
 ["inputs"], "all peak times, impact parameters, crossing times, times and sample counts",
 "Tests compare one event.",
 ["effects/microlensing.py"], [("per-sample magnification from the lensing library","effects/microlensing.py")], observe=["flux ratios"])

prop("P38", "Derivatives taken through a parameter graph are the graph's derivatives",
 "The differentiable tree built for a graph holds exactly the values declared differentiable nearest above the result; drawing the graph from that tree gives the value of the declared expressions and functions, and differentiating it with JAX gives, for every value in the tree, the derivative of the result with respect to that value: through shared nodes, several outputs and intermediate values held as leaves, and zero where it does not enter. Spectra of the SALT2 model written for JAX can be differentiated the same way, with respect to its own parameters or those of nodes above it, at any redshift, and their derivatives are those of the reference implementation's spectra; so are the derivatives of its grids and colour law with respect to position.",
 ["inputs","configurations"], "all graphs of JAX expressions and functions, values, differentiation settings, supernova parameters, times and wavelengths",
 "Tests differentiate two fixed expressions and never the supernova model.",
 ["base_models.py","math_nodes/basic_math_node.py","models/salt2_jax.py","utils/bicubic_interp.py","astro_utils/salt2_color_law.py"], [("differentiable tree and drawing from given values","base_models.py"),("traced spectrum","models/salt2_jax.py")], observe=["values and derivatives"])
prop("P39", "Plots show the data they are given",
 "Every plotting helper draws exactly what it is given: a light curve's points, one series per filter in that filter's colour, each point with its own error bar and the noise-free curve of the same filter alongside, whether or not filters are named and however many there are; each named curve against its own times; a spectrogram cell per time and wavelength, under ticks and numbers that are true; a passband, spectrum or template as it is evaluated at the times asked for; and a detector footprint with every overlaid point marked inside or outside as the footprint decides, all of it in view. Drawing uses the axes or figure asked for, leaves what is already drawn there and its inputs unchanged, and rejects inputs of different lengths.",
 ["inputs","configurations"], "all light curves, filter sets, templates, passbands, spectrograms, footprints and points",
 "Tests only check that drawing three points does not fail.",
 ["utils/plotting.py","astro_utils/passbands.py","astro_utils/detector_footprint.py","models/lightcurve_template_model.py"], [("series per filter","utils/plotting.py"),("footprint view","astro_utils/detector_footprint.py"),("template curves","models/lightcurve_template_model.py")], observe=["drawn artists"])

prop("P40", "The supernova Ia end-to-end run is a faithful simulation of its inputs",
 "For any survey and band tables, the end-to-end supernova run returns exactly the requested (or rate-implied) number of supernovae. Their redshifts, host masses, positions, peak times, colours and brightnesses follow the stated distributions and the stretch-colour brightness relation, and the reported parameters are those of the returned state. Each supernova's visits are exactly the survey visits covering its position inside its redshift-stretched phase window, in their own bands; its spectra in both flux units, its band fluxes, the survey's uncertainties and the noise added are those of that supernova at those visits; a supernova nobody observed gives an empty result; and the same generator gives the same run.",
 ["inputs","configurations"], "all surveys, band tables, numbers of supernovae and generators",
 "The test runs the example twice and only counts the results.",
 ["example_runs/simulate_snia.py","astro_utils/snia_utils.py","models/sncomso_models.py"], [("visit selection and results","example_runs/simulate_snia.py"),("parameter relations","astro_utils/snia_utils.py")], observe=["returned results"])

if __name__ == "__main__":
    claimed = [p["id"] for p in P if (V/"checks"/f"{p['id'].lower()}.py").is_file()]
    with open(V/"properties.jsonl","w") as f:
        for p in P:
            f.write(json.dumps({k:v for k,v in p.items() if not k.startswith("_")})+"\n")
    checks=[]
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"],
              quick_cmd=f"./run.sh {p['id']} --tier quick", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
              evidence_file=f"evidence/{p['id']}.json",
              technique="runtime monitoring: seeded stress workloads on the real code judged by reference-model / trace monitors",
              level="exploration",
              level_note=p["_note"] or "Holds on every execution observed; reach is the seeded workload space described in the evidence rule, not all inputs."))
    man=dict(version=1, setup_cmd="./setup.sh", checks=checks,
       not_applicable=[dict(property=p["id"], reason="no check registered yet") for p in P if p["id"] not in claimed],
       notes="No hooks in /repo: monitors wrap public entry points of the loaded package at run time.")
    json.dump(man, open(V/"MANIFEST.json","w"), indent=1)
    print(len(P), "properties;", len(claimed), "claimed")
