"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

MO, PF, CZ = "oneka/model.py", "oneka/probabilityfield.py", "oneka/capturezone.py"
ST, DE, ON, UT, VI, AR = ("oneka/stochastic.py", "oneka/deterministic.py", "oneka/oneka.py",
                          "oneka/utilities.py", "oneka/visualize.py", "oneka/archive.py")

prop("M01", "Discharge potential is the documented regional-plus-wells formula",
 "At every location that is not a well, the model's discharge potential equals A*(x-xo)^2 + B*(y-yo)^2 + C*(x-xo)*(y-yo) + D*(x-xo) + E*(y-yo) + F plus the sum over all wells of q/(4*pi)*ln(distance^2). The wells-only potential is that same sum over wells. Both always reflect the model's current wells, origin and coefficients, whatever was computed before.",
 ["inputs", "histories"], "all real coefficients, origins, locations and well lists, and all sequences of attribute updates and evaluations on one or more models",
 "The test suite evaluates one model at one point with one well list; it never changes a model between evaluations.",
 [MO, "README.md"], [("regional polynomial + sum of well logs", MO+":Model.compute_potential, Model.compute_potential_wells_only")],
 ["Model.compute_potential", "Model.compute_potential_wells_only"],
 [{"name": "wells, xo, yo, coef", "meaning": "the current model", "where": MO}])

prop("M02", "Discharge vector is the negative gradient of the potential",
 "At every location that is not a well, the vertically integrated discharge vector equals minus the gradient of the discharge potential reported by the same model. This holds for every regional flow, origin and set of wells, and again after any of them has been changed.",
 ["inputs", "histories"], "all real locations away from wells, all coefficients, origins and well lists, and model updates between evaluations",
 "Tests compare the discharge with a reference value at one point; the gradient relation is a statement about every point.",
 [MO], [("analytic derivative of the potential", MO+":Model.compute_discharge")], ["Model.compute_discharge", "Model.compute_potential"])

prop("M03", "Water balance: constant recharge, irrotational flow, wells capture their Q",
 "Away from wells the divergence of the discharge field is the constant -2*(A+B), independent of location and wells, and its curl is zero. Each well adds a purely radial inflow whose total flux through any circle around that well alone equals that well's pumping rate, directed toward a pumping well, and the contributions of wells superpose.",
 ["inputs"], "all real locations away from wells, all coefficients, origins, well positions and (positive or negative) pumping rates",
 "No test looks at a derivative of the discharge, at flux through a contour, or at superposition.",
 [MO], [("regional + sum of 1/(2 pi r) terms", MO+":Model.compute_discharge")], ["Model.compute_discharge"])

prop("M04", "Head and potential are exact inverses; dry aquifer is refused",
 "Head is reported exactly when the potential is positive: it is then positive, and k*h^2/2 (where h <= thickness) or k*T*h - k*T^2/2 (where h >= thickness) gives back the potential. Head is continuous at the confined/unconfined transition and strictly increasing in the potential; a non-positive potential raises the aquifer error and never yields a number.",
 ["inputs"], "all potentials, conductivities > 0 and thicknesses > 0, and all models producing such potentials",
 "Tests evaluate head once, in the confined branch only; the unconfined branch, the transition and the dry case are untested.",
 [MO], [("branch on potential against k*T^2/2", MO+":Model.compute_head")], ["Model.compute_head"])

prop("M05", "Seepage velocity is discharge over saturated thickness and porosity",
 "At every wet, non-well location the seepage velocity equals the discharge vector divided by porosity times the saturated thickness, which is the smaller of head and aquifer thickness; at a dry location the aquifer error is raised and no velocity is returned. The assumed-confined velocity equals discharge/(thickness*porosity) everywhere, and so agrees with the general velocity wherever the head is at least the thickness.",
 ["inputs"], "all locations, wells, coefficients and aquifer properties (k > 0, T > 0, 0 < n < 1)",
 "Tests only sample confined points with one parameter set; the confined shortcut is never compared with the general velocity.",
 [MO], [("branch on head against thickness", MO+":Model.compute_velocity"), ("shortcut", MO+":Model.compute_velocity_confined")],
 ["Model.compute_velocity", "Model.compute_velocity_confined"])

prop("M06", "Fitting rows are weighted potential errors of the head observations",
 "For every set of observations and every candidate coefficient vector, each row of the constructed least-squares problem evaluates to (model potential at the observation - expected observed potential) / (standard deviation of the observed potential), wells included. The expected potential and its deviation are the first-order-second-moment transforms of the head above base, confined when head >= thickness (k*T*(h-T/2), k*T*s) and unconfined otherwise (k*(h^2+s^2)/2, k*h*s). An observation at or below the aquifer base is refused with a range error.",
 ["inputs"], "all observations, coefficient vectors, origins, wells and aquifer properties",
 "The one fit test uses only confined observations, equal standard deviations and the two wells of the fixture.",
 [MO], [("row construction", MO+":Model.construct_fit")], ["Model.construct_fit"])

prop("M07", "Fitted coefficients are the weighted least-squares optimum with its covariance",
 "After fitting, the model's six regional coefficients, together with the chosen local origin, are the weighted least-squares solution: the weighted residuals at the observations are orthogonal to all six regressors. The returned expected-value vector equals the installed coefficients, and the returned covariance is the inverse of the weighted normal matrix. A refit depends only on the current observations, wells and aquifer, never on an earlier fit.",
 ["inputs", "histories"], "all full-rank observation sets, heads, standard deviations, pumping rates and aquifer properties, and repeated fits of one model",
 "One test compares one fit with stored numbers to 0.1 percent; equal weights make weighting errors invisible, and no model is fitted twice.",
 [MO], [("normal equations via lstsq and inv", MO+":Model.compute_fit"), ("installation into the model", MO+":Model.fit_regional_flow")],
 ["Model.fit_regional_flow", "Model.compute_fit"])

prop("M08", "Models are isolated and evaluations have no side effects",
 "Evaluating potential, discharge, head or velocity and fitting a model never alter the caller's wells or observations, the aquifer properties or another model; evaluations do not alter the model itself. A model created without coefficients always starts with zero regional flow, whatever was done to earlier models or to arrays passed to them.",
 ["histories", "inputs"], "all interleavings of construction, in-place or attribute coefficient updates, fits and evaluations over several models",
 "Each test uses a single fresh model; sharing between models needs a history of at least two.",
 [MO], [("coefficient storage", MO+":Model.coef, Model.__init__")], ["Model attributes before and after each call"])

prop("M09", "The fitted flow field does not depend on the frame it is computed in",
 "Fitting the same observations gives the same flow field whichever local origin is chosen, in whatever order the observations and wells are listed, and wherever the origin of the coordinate system lies: potential and discharge agree at every location, and so does the variance of the regional potential implied by the returned covariance.",
 ["inputs"], "all full-rank observation sets, heads and discharges, all local origins, orders and offsets",
 "One test fits once, at one origin, in one order, and looks at the six coefficients only.",
 [MO, "README.md"], [("regressors relative to the local origin", MO+":Model.construct_fit"), ("evaluation relative to the local origin", MO+":Model.compute_potential, Model.compute_discharge")],
 ["Model.fit_regional_flow", "Model.compute_potential", "Model.compute_discharge"])

prop("F01", "Grid expansion covers the request and never moves or loses a node",
 "After expanding to a box the grid contains the box, its extents match its row and column counts and spacings, and every earlier node keeps its coordinates, accumulated probability and registration mark, while new nodes are zero and unmarked; the total weight is unchanged. A box already strictly inside changes nothing, and an inverted box is refused without changing anything.",
 ["inputs", "histories"], "all spacings, grid positions, contents and requested boxes, by one arbitrary expansion step from an arbitrary valid grid, or from an empty field",
 "The test expands one empty field and then asks for a contained box; growth of a grid with contents is never exercised.",
 [PF], [("row/column shifts and copy", PF+":ProbabilityField.expand")], ["ProbabilityField.expand and its public attributes"],
 [{"name": "xmin,xmax,ymin,ymax,nrows,ncols,pgrid,rgrid", "meaning": "grid geometry and contents", "where": PF}])

prop("F02", "Point-to-segment distance is the true minimum over the whole segment",
 "The squared distance returned for a point and a segment is non-negative, is attained by some point of the segment, and is not larger than the squared distance to any point of the segment. It does not depend on the order of the endpoints, and for a segment of zero length it is the squared distance to that point.",
 ["inputs"], "all real end points (coincident ones included) and query points",
 "One test evaluates one perpendicular projection; endpoint regions and zero-length segments are untested.",
 [PF], [("projection with endpoint clamping", PF+":ProbabilityField.distancesquared")], ["ProbabilityField.distancesquared"])

prop("F03", "Inserting a segment marks exactly the nodes closer than the umbra",
 "After inserting a segment, a grid node is marked if and only if it was marked before or its distance to the segment is less than the umbra. No other state changes: probabilities, total weight and geometry stay as they were, also when the segment lies partly or wholly outside the grid or has zero length.",
 ["inputs", "histories"], "all segments, umbras, grid positions, spacings and prior marks",
 "insert has no test at all (the test file carries a TODO).",
 [PF], [("sub-grid limits and distance test", PF+":ProbabilityField.insert")], ["ProbabilityField.insert", "rgrid"])

prop("F04", "Rasterizing a track marks every lattice node within the umbra, at any edge",
 "After rasterizing a track of two or more vertices, every node of the (infinite) grid lattice closer than the umbra to any of the track's segments lies in the grid and is marked, and nodes that were unmarked and are not that close stay unmarked. The set of marked lattice nodes therefore does not depend on the order in which tracks are rasterized or on the grid's extent beforehand.",
 ["inputs", "histories"], "all tracks, umbras relative to the spacing, starting grids, and orders of rasterization",
 "rasterize has no test; edge losses need a track that ends near the border of the grid with an umbra larger than the remaining margin.",
 [PF], [("expand then insert each segment", PF+":ProbabilityField.rasterize")], ["ProbabilityField.rasterize", "rgrid and node coordinates"])

prop("F05", "Each realization counts once; probabilities stay between 0 and total weight",
 "Registering a realization adds its weight exactly once to every marked node and to the total weight, leaves other nodes alone and clears all marks; resetting clears the marks and changes nothing else. Hence after any history with non-negative weights every node's accumulated value lies between 0 and the total weight, including for a field that has not been given a location yet.",
 ["histories", "inputs"], "all mark patterns, weights and histories of marking, registering, resetting and expanding",
 "register and reset have no test.",
 [PF], [("masked accumulation", PF+":ProbabilityField.register, ProbabilityField.reset")], ["pgrid, rgrid, total_weight"])

prop("C01", "Capture zone: equally spaced starts, every trace rasterized, registered once",
 "Computing a capture zone starts at least the requested number of distinct traces, equally spaced in angle on the circle one unit outside the well radius around the target. Every trace, complete and in order, is rasterized with the given umbra, and the realization is registered exactly once with the given weight after all traces.",
 ["inputs"], "all well positions and radii, path counts, durations, umbras, weights and velocity fields",
 "The module has no tests.",
 [CZ], [("linspace of angles, rasterize, register", CZ+":compute_capturezone")], ["calls received by the probability field"])

prop("C02", "A trace starts at its start, honours maxstep and spans exactly the duration",
 "A trace begins at the given point, consecutive vertices are always closer than the maximum space step, and the elapsed time moves monotonically from zero and, when no failure occurs, ends exactly at the requested duration without passing it. A positive duration follows the supplied velocity forward in its own time and a negative duration follows it in reverse.",
 ["inputs"], "all start points, durations of either sign, tolerances, maximum steps and velocity fields",
 "The module has no tests; step control and end-of-duration handling depend on field, tolerance and duration together.",
 [CZ], [("step control loop", CZ+":compute_backtrace")], ["vertices returned by compute_backtrace"])

prop("C03", "Trace steps are 5th-order accurate and accepted only within tolerance",
 "Every accepted step of a trace agrees with the exact flow of the supplied velocity field through fifth order in the time step (the Dormand-Prince 5(4) method), each step starting from the velocity at the current vertex, also after rejected steps. A step is accepted only if the embedded 4th/5th-order error estimate (largest component) is below the tolerance.",
 ["inputs", "histories"], "all smooth velocity fields (through their Taylor coefficients), step sizes, tolerances, and sequences of accepted and rejected steps",
 "The module has no tests; an error in one of the method's coefficients only lowers the order of accuracy and looks plausible on any single path.",
 [CZ], [("Butcher tableau and error weights", CZ+":compute_backtrace")], ["vertices and velocity evaluations of compute_backtrace"])

prop("C04", "Velocity failures end a trace early and keep the path so far",
 "If the velocity cannot be computed (dry aquifer or any other error) or is not a finite number at any evaluation of a trace, the trace ends there: it returns the vertices accepted before the failure, all finite, neither raising an error nor continuing to evaluate the field indefinitely.",
 ["fault_sequences", "inputs"], "a failure or a NaN/infinite velocity at any evaluation of a trace, for all velocity fields otherwise",
 "The module has no tests; failures at inner stages need fault injection.",
 [CZ], [("exception handling around the step loop", CZ+":compute_backtrace")], ["vertices returned by compute_backtrace", "number of velocity evaluations"])

prop("S01", "A value is a valid distribution exactly when ordered and within bounds",
 "The distribution check accepts exactly finite or infinite numbers within the bounds (inclusive) and tuples or lists of two or three numbers that are non-decreasing and within the bounds. Everything else - other lengths, other types, misordered, out-of-range or NaN values - is rejected without an error.",
 ["inputs"], "all numbers including infinities and NaN, all bounds, pairs, triples, other lengths and types",
 "stochastic.py has no tests.",
 [ST], [("chained comparisons per arity", ST+":isdistribution")], ["isdistribution"])

prop("S02", "Variates and means follow the given constant, pair or triple",
 "For every valid distribution a random variate can be drawn and lies within the distribution's support: a constant yields itself, a pair is drawn uniformly between its ends and a triple triangularly with the given minimum, mode and maximum, also when these coincide. The mean is the constant, (min+max)/2 or (min+mode+max)/3 respectively, and lies in the same support; tuples and lists behave alike and any other arity is refused with the distribution error.",
 ["inputs"], "all valid distributions, degenerate ones included, and every value the random generator may return",
 "stochastic.py has no tests.",
 [ST], [("dispatch on arity", ST+":generate_random_variate, compute_variate_mean")], ["generate_random_variate", "compute_variate_mean"])

prop("S03", "Each realization is an independent draw of every uncertain input",
 "A stochastic run performs exactly the requested number of realizations, each registered with weight one. Each realization draws anew every random well discharge, conductivity, porosity and thickness and then the regional coefficients from the multivariate normal with the mean and covariance fitted to that realization's aquifer and wells, and traces with minus the velocity of exactly that model (confined shortcut only if requested), at the fixed well locations. The caller's inputs are not modified.",
 ["inputs", "histories"], "all distributions, well lists, target choices, draws of the random generator and numbers of realizations (bounded)",
 "stochastic.py has no tests.",
 [ST], [("realization loop", ST+":create_stochastic_capturezone")], ["draws requested, fits performed, capture zones computed, returned field"])

prop("S04", "A deterministic run uses mean inputs and the fitted coefficients, weight one",
 "A deterministic run builds one model from the mean of every discharge and aquifer property, fits it, and traces one capture zone with minus the velocity of the fitted model and weight one around the target well. It draws nothing at random and does not modify the caller's inputs, and the recharge it reports is the divergence of the fitted flow field.",
 ["inputs"], "all distributions, well lists, target choices and observations",
 "deterministic.py has no tests.",
 [DE], [("mean model", DE+":create_deterministic_capturezone")], ["fit performed, capture zone computed, returned field, log"])

prop("S05", "A node counts the realizations with a path near it, from end to end",
 "After a run the total weight of the field is the number of realizations, and the value of every node of the lattice is the number of realizations of which at least one traced path passes closer than the umbra, however many of its paths do so; nodes outside the grid are near no path. Nothing remains marked. A deterministic run counts as one realization.",
 ["inputs"], "all umbras, durations of either sign, well places and flows in stated ranges (one at a time), several realizations and paths",
 "the tests never run a capture zone; the parts (traces, rasterizing, registering, the loop over realizations) are joined in four modules that each look right alone",
 [ST, CZ, PF], [("realizations", ST+":create_stochastic_capturezone"), ("traces", CZ+":compute_capturezone"), ("marks", PF+":rasterize"), ("registering", PF+":register")], ["returned field"])

prop("U01", "Observations are dropped exactly when within the buffer of some well",
 "Filtering keeps an observation if and only if it is farther than the buffer distance from every well. Kept observations that have no duplicate appear unchanged and in their original order, and the caller's lists are not modified.",
 ["inputs"], "all observation lists, well lists and buffers (bounded sizes)",
 "utilities.py has no tests.",
 [UT], [("buffer test", UT+":filter_obs")], ["filter_obs"])

prop("U02", "Duplicate observations merge into one minimum-variance average",
 "Observations at the same location are replaced by a single observation there whose value is the average weighted by inverse variance and whose variance is the reciprocal of the summed inverse variances, wherever the duplicates stand in the list. The merged value lies between the smallest and largest merged values, its deviation is not above any merged deviation, and no two retained observations share a location.",
 ["inputs"], "all values, standard deviations and positions of duplicates in the list (bounded sizes)",
 "utilities.py has no tests; duplicates that are not adjacent need a specific order.",
 [UT], [("grouping and weighted mean", UT+":filter_obs")], ["filter_obs"])

prop("U03", "The summary table reports the statistics of each column's valid values",
 "For every data set the summary table reports, for each column and under that column's name, the count, minimum, median, maximum, mean and (population) standard deviation of that column's values, missing (NaN) values being left out.",
 ["inputs"], "all column values and patterns of missing values (bounded sizes)",
 "utilities.py has no tests.",
 [UT], [("column statistics and layout", UT+":summary_statistics")], ["text returned by summary_statistics"])

prop("V01", "The probability map shows each node's capture probability at its location",
 "The probability plot contours, at each node's own coordinates, the accumulated value divided by the total weight (smoothed only if smoothing is requested), and marks the wells, the target and the retained observations at their coordinates. A field without any registered weight is refused with the capture-zone error.",
 ["inputs", "configurations"], "all field contents, geometries, wells, observations and smoothing settings (bounded grid size)",
 "visualize.py has no tests.",
 [VI], [("normalisation and plotting", VI+":create_probability_plot")], ["arguments given to the plotting library"])

prop("V02", "The impact curve ranks probabilities against cumulative area",
 "The impact curve lists every node's capture probability in non-increasing order, each between 0 and 1, and pairs the k-th with the area of k grid cells, so that the area with at least a given probability can be read off. A field without registered weight is refused with the capture-zone error.",
 ["inputs"], "all field contents, spacings and weights (bounded number of nodes)",
 "visualize.py has no tests.",
 [VI], [("sort and cumulative area", VI+":create_impact_plot")], ["pair returned by create_impact_plot"])

prop("V03", "Deterministic capture area is visited nodes times cell area",
 "The deterministic plot returns the number of nodes with positive probability times the area of one grid cell, and fills exactly the cells centred on those nodes. A field without registered weight is refused with the capture-zone error.",
 ["inputs"], "all field contents and geometries, unequal spacings included (bounded grid size)",
 "visualize.py has no tests.",
 [VI], [("cell loop", VI+":create_deterministic_plot")], ["returned area", "filled polygons"])

prop("V04", "Head and potential contour maps sample the model and blank dry nodes",
 "The head and potential maps evaluate the model at every node of the regular grid spanning the requested extent, with rows along y and columns along x, and contour exactly those values. A node where the aquifer is dry is blank (NaN) in the head map and does not abort the map.",
 ["inputs", "configurations"], "all models, extents and patterns of dry nodes (bounded grid size)",
 "visualize.py has no tests.",
 [VI], [("node loop with error handling", VI+":contour_head, contour_potential")], ["grid given to the plotting library"])

prop("E01", "Invalid run arguments are rejected before any work is done",
 "The entry point accepts exactly the documented argument domain, its own documented defaults included: a run with any argument of the wrong type, a non-positive path count, buffer, spacing, umbra, tolerance, maximum step, well radius or observation deviation, a zero duration, a negative smoothing, an invalid distribution, a target outside the wells, or fewer than seven observations (before or after filtering) is refused with an error. A refused run computes, plots and archives nothing.",
 ["inputs", "configurations"], "every argument replaced by an arbitrary number or by values of other types, each of the others valid",
 "oneka.py has no tests.",
 [ON], [("assertions", ON+":oneka")], ["oneka raising or not, and the work performed"])

prop("E02", "A run routes every setting to the right stage and archives itself",
 "An accepted run computes a stochastic capture zone when more than one realization is requested and a deterministic one otherwise, from the observations left by filtering with the run's buffer, with every other setting reaching the stage it is meant for. It archives the run with the caller's original inputs and the resulting field, and returns that field.",
 ["inputs", "configurations"], "all values of all settings, and both kinds of run",
 "oneka.py has no tests.",
 [ON], [("dispatch", ON+":oneka")], ["calls received by each stage", "archive contents", "return value"])

prop("E03", "Archived runs load back with every setting under its own name",
 "Loading an archive written for a run gives back a record holding each of the run's settings and its probability field under that setting's own name, with the value that was archived.",
 ["inputs"], "all values of all archived settings",
 "archive.py has no tests.",
 [AR], [("dictionary of the run", AR+":dump_oneka, load_oneka")], ["load_oneka(dump_oneka(...))"])

prop("E04", "The driver passes each setting of a data module to the matching argument",
 "Running the driver on a data module calls the entry point once with each of the module's settings as the matching argument. The data modules shipped with the package are valid runs. An unknown module name is reported and nothing is run.",
 ["inputs", "configurations"], "all values of all settings in a data module",
 "runme.py has no tests.",
 ["runme.py", ON], [("positional call", "runme.py:run_module")], ["arguments received by oneka"])

prop("E05", "The reported probability-area table matches the field that was computed",
 "For a stochastic run the logged table has one line per probability level from 0.05 to 0.95, each giving the largest capture probability of the computed field not above the level, and the area (and the same area in acres) that the impact curve pairs with it; for a deterministic run the logged area, in both units, is that of the capture zone; the recharge logged for each realization is the divergence of that realization's regional flow.",
 ["inputs"], "all field contents and weights (bounded number of nodes) and all drawn coefficients",
 "oneka.py and stochastic.py have no tests.",
 [ON, ST], [("decile table", ON+":oneka"), ("realization log", ST+":create_stochastic_capturezone")], ["log records"])

prop("E06", "The log of a run states the inputs and the parameters that were used",
 "Before a run starts computing its log holds every setting under its name with the run's value (to the printed digits), every well and every observation as given, the numbered list of the retained observations, and the statistics of the retained observations. A stochastic run then logs for each realization its number, base, conductivity, porosity, thickness and recharge and its fitted and drawn coefficients, a deterministic run its base, mean conductivity and porosity, recharge and coefficients A to F - in each case those of the model that is traced.",
 ["inputs"], "all settings, wells and observations (bounded number), all draws and fitted coefficients",
 "oneka.py, stochastic.py and deterministic.py have no tests.",
 [ON, ST, DE], [("banner and settings", ON+":log_the_run"), ("statistics of retained observations", ON+":oneka"), ("realization log", ST+":create_stochastic_capturezone"), ("deterministic log", DE+":create_deterministic_capturezone")], ["log records"])

prop("E07", "Each driver run writes a log file of its own",
 "Each started driver run opens one log file that receives everything that run logs and nothing logged by an earlier or later run of the same process, also when a run fails or an unknown module is named in between. An unknown module opens no log file, and the error of a failing run reaches the caller.",
 ["histories"], "all histories of driver runs over valid, failing and unknown data modules",
 "runme.py has no tests.",
 ["runme.py"], [("log file handler", "runme.py:main, run_module")], ["handlers of the Oneka logger, log records per file"])

prop("E08", "A failed run reports its error, archives nothing and leaves nothing behind",
 "If a run fails at any stage - filtering, the statistics, the fit or the capture zone of any realization, a field left without registered weight, or a plot - its error reaches the caller, no archive is written, nothing is shown and the inputs are unchanged; the next run of the same process is carried out in full and archived as if the failed one had not happened.",
 ["inputs", "fault_sequences", "histories"], "all settings, all stages and realizations a failure can strike, several kinds of error",
 "oneka.py has no tests; a failure in a later realization or a plot cannot be sampled at every point.",
 [ON, ST, DE], [("order of the stages", ON+":oneka"), ("fit and trace of each realization", ST+":create_stochastic_capturezone")], ["raised errors, archives, windows shown"])

prop("X01", "Random variates follow the stated distribution in frequency",
 "Over many draws the empirical distribution of generated variates and of regional coefficients converges to the stated uniform, triangular and multivariate normal distributions.",
 ["inputs"], "all distributions, asymptotically in the number of draws",
 "A statistical limit statement; no finite test settles it.",
 [ST], [("numpy.random", ST+":generate_random_variate, create_stochastic_capturezone")], ["samples"])

prop("X02", "Every trace finishes in finite time for every flow field",
 "Backtracing terminates for every velocity field, tolerance and maximum step, including fields with singular sources that traces approach.",
 ["inputs"], "all velocity fields and unbounded numbers of steps",
 "A liveness statement over unbounded executions.",
 [CZ], [("adaptive step", CZ+":compute_backtrace")], ["return of compute_backtrace"])

prop("X03", "Results are insensitive to floating-point rounding",
 "For realistic coordinates (hundreds of thousands to millions of metres) potentials, fits and traces computed in double precision stay within a small relative error of their exact values.",
 ["inputs"], "all realistic inputs in double precision",
 "Numerical-stability statement over all inputs.",
 [MO, CZ, PF], [("double-precision arithmetic", "everywhere")], ["all numerical results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
