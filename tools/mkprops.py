#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["bicycleparameters/" + f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Canonical matrices are those of the Whipple model",
     "For every valid set of benchmark parameters, the canonical mass, damping, gravity stiffness and speed stiffness matrices returned for it are those of the linearised Carvallo-Whipple model of Meijaard et al. 2007, with symmetric mass and gravity matrices. Every public route to these matrices (plain function, measured bicycle object, model object) gives the same values, and computing them never changes the parameter values handed in.",
     ["inputs", "histories"], "all physically meaningful parameter values (incl. zero/negative trail, forward or rearward products of inertia, small and large wheels), every route, any number of repeated evaluations",
     "the tests evaluate two fixed bicycles, so a wrong coefficient whose contribution is small or zero there, or a mutated input, goes unseen",
     ["bicycle.py", "models.py", "main.py"],
     [("benchmark_par_to_canonical", "bicycle.py"), ("Meijaard2007Model.form_reduced_canonical_matrices", "models.py"), ("Bicycle.canonical", "main.py")],
     ["bicycle.benchmark_par_to_canonical", "Bicycle.canonical", "Meijaard2007Model.form_reduced_canonical_matrices"])

prop("C02", "State and input matrices solve the canonical equations of motion",
     "At every forward speed and gravity the state and input matrices are the first-order form of M q'' + v C1 q' + (g K0 + v^2 K2) q = f with states roll, steer, roll rate, steer rate and inputs roll torque, steer torque. The uncertain and nominal versions agree in their nominal values, and uncertainties of the parameters, independent or stemming from one measurement, are propagated to first order.",
     ["inputs"], "all parameter values, all speeds including zero and negative, all gravities, nominal and uncertain variants",
     "tests look at a single bicycle at one or two speeds and otherwise only at array shapes",
     ["bicycle.py", "main.py", "models.py"],
     [("ab_matrix", "bicycle.py"), ("Bicycle.state_space", "main.py"), ("Meijaard2007Model.form_state_space_matrices", "models.py")],
     ["bicycle.ab_matrix", "Bicycle.state_space", "Meijaard2007Model.form_state_space_matrices"])

prop("C03", "Returned eigenvalues and eigenvectors are those of the state matrix",
     "For every parameter set and speed, the eigenvalues reported are exactly the spectrum (with multiplicity) of the state matrix at that speed, each eigenvector column belongs to the eigenvalue with the same index, and left eigenvectors belong to the transposed matrix. Results for a sequence of speeds are in the order of the speeds given, whatever mix of scalar, list or array is passed. The modal controllability angles pair each of these left eigenvectors with each input column of the same sample, for one value as for arrays.",
     ["inputs"], "all models, parameter values, speeds (scalar, integer, list, array), left and right",
     "the tests compare one bicycle's eigenvalues with published numbers; eigenvector/eigenvalue pairing is never checked off that point",
     ["models.py", "main.py"],
     [("_Model.calc_eigen", "models.py"), ("Bicycle.eig", "main.py"),
      ("Meijaard2007Model._calc_modal_controllability", "models.py")],
     ["Model.calc_eigen", "Bicycle.eig"])

prop("C04", "Tracking modes over speed never loses, duplicates or unpairs a mode",
     "Sorting a sequence of eigenvalue/eigenvector sets only reorders each set: at every step each input eigenvalue appears exactly once and keeps its own eigenvector, and the first set keeps its order. In order, each mode continues to the nearest unclaimed eigenvalue in the complex plane; caster is the first, capsize the second and weave the last two of the four tracked modes.",
     ["inputs"], "all sequences of eigenvalue sets, including crossing, coalescing, well separated and fast moving modes",
     "the tests sort one smooth 4-mode sequence in which no two modes compete for the same successor",
     ["bicycle.py"],
     [("sort_eigenmodes", "bicycle.py"), ("sort_modes", "bicycle.py")],
     ["bicycle.sort_eigenmodes", "bicycle.sort_modes"])

prop("C05", "Parameter overrides are call-local and validated",
     "Overriding parameters in a model call gives exactly the result of a fresh model built with those values, and leaves the model, its parameter set and the caller's arrays unchanged so later calls are unaffected. Unknown names are ignored with a warning naming them, and array overrides of different lengths are rejected with a ValueError.",
     ["inputs", "histories"], "all sequences of calls to all models with any combination of scalar, array, unknown and mismatched overrides",
     "the tests parse a few overrides once; state leaking between calls needs call histories",
     ["models.py", "parameter_sets.py"],
     [("_Model._parse_parameter_overrides", "models.py")],
     ["every public model method taking parameter overrides"])

prop("C06", "Array overrides are element-wise stacks of scalar evaluations",
     "When one or several parameters are given as arrays of n values, the i-th matrix, eigenvalue set or eigenvector set returned equals the one obtained by passing the i-th values as scalars, for all three models. This holds for any combination of varied parameters, including speed, gravity, gains and parameters that do not enter the mass matrices, and for any sequence type and length.",
     ["inputs"], "all models x all subsets of parameters as arrays x lengths (incl. 1) x list/tuple/array",
     "the tests check only the shapes of a handful of combinations",
     ["models.py"],
     [("form_reduced_canonical_matrices / form_state_space_matrices array branches", "models.py")],
     ["form_reduced_canonical_matrices", "form_state_space_matrices", "calc_eigen"])

prop("C07", "Full-state feedback closes the loop with the documented gains",
     "The feedback model's state matrix is the open-loop matrix minus the input matrix times the 2 by 4 gain matrix whose rows are roll-torque and steer-torque gains on roll, steer, roll rate and steer rate, and its input matrix is unchanged. With all gains zero it coincides with the plain model, gains may be scalars or arrays per sample, and gain plots show the gains used.",
     ["inputs"], "all gain values and positions, scalar and array gains mixed with scalar and array parameters",
     "the tests use one gain at a time and check shapes",
     ["models.py", "parameter_sets.py"],
     [("Meijaard2007WithFeedbackModel.form_state_space_matrices", "models.py"), ("plot_gains", "models.py")],
     ["Meijaard2007WithFeedbackModel"])

prop("C08", "Rider-lean matrices are those of the bicycle with a leaning rider",
     "At every speed the state and input matrices of the rider-lean model are the linearised equations of motion of the Whipple bicycle carrying a rider body on a lean hinge; with the hinge locked the roll and steer equations are those of the plain bicycle model with frame and rider combined. The rows for yaw, position and wheel angles are the rolling kinematics for that speed and wheel radii, and the lean spring and damper enter only the lean torque.",
     ["inputs"], "all geometries, mass distributions, speeds, lean stiffness and damping, scalar and array",
     "the only test is one doctest bicycle at one speed",
     ["models.py", "_mooreriderlean2012.py"],
     [("MooreRiderLean2012Model.form_state_space_matrices", "models.py"), ("eval_linear", "_mooreriderlean2012.py")],
     ["MooreRiderLean2012Model.form_state_space_matrices"])

prop("C09", "Simulations follow the linear model and record the inputs applied",
     "A simulation returns one state per requested time starting exactly at the initial condition and following x' = A x + B u for the model's matrices, with the recorded inputs equal to the input function evaluated along the returned trajectory. Mode simulations start from the real part of each eigenvector, parameter arrays are rejected with a ValueError, and the caller's initial condition is not modified.",
     ["inputs", "histories"], "all models, time grids (uniform or not, not starting at zero), initial states, state- and time-dependent inputs",
     "no test simulates anything",
     ["models.py"],
     [("_Model.simulate", "models.py"), ("_Model.simulate_modes", "models.py"), ("MooreRiderLean2012Model.simulate", "models.py")],
     ["simulate", "simulate_modes", "plot_simulation"])

prop("C10", "Converting between parameterizations preserves the bicycle",
     "Converting a parameter set to another parameterization yields a set describing the same bicycle and rider: total mass, centre of mass and inertia of rear body, front frame and wheels, geometry, gravity and speed are preserved, added feedback gains are zero, and a set converted to its own parameterization is itself. The source set is unchanged and unknown target names raise ValueError.",
     ["inputs", "histories"], "all parameter sets of each kind and all chains of conversions",
     "the tests convert one parameter set and compare it with itself",
     ["parameter_sets.py", "conversions.py", "models.py"],
     [("ParameterSet.to_parameterization", "parameter_sets.py"), ("_convert_principal_to_benchmark", "conversions.py")],
     ["ParameterSet.to_parameterization", "model constructors"])

prop("C11", "Parameter sets are validated and survive YAML and INI files",
     "A parameter set can only be constructed when every required parameter is present and is a float, otherwise it is rejected, and building or using one does not modify the dictionary it came from. Writing a set to a YAML or INI file and reading it back gives the same parameter values and rider flag, including sets produced by conversion.",
     ["inputs", "histories"], "all parameterizations, all missing/ill-typed keys, all float values (tiny, huge, negative, numpy scalars)",
     "the tests write and read nothing and construct only valid sets",
     ["parameter_sets.py"],
     [("ParameterSet._check_parameters", "parameter_sets.py"), ("ParameterSet.to_yaml/_from_yaml/to_ini", "parameter_sets.py")],
     ["ParameterSet constructors", "to_yaml", "_from_yaml", "to_ini"])

prop("C12", "Mass centres and inertia of bodies and groups of bodies are exact",
     "The mass centre of any group of bodies is the mass-weighted mean of the individual centres regardless of order or grouping, wheels sit at their hubs, and each body's inertia tensor is symmetric with the given moments and products. Derived principal radii and angles reproduce the planar inertia of the body they were computed from.",
     ["inputs"], "all parameter sets, all non-empty groups of bodies in any order",
     "the tests evaluate single groups for one bicycle",
     ["parameter_sets.py", "com.py"],
     [("mass_center_of, form_mass_center_vector, form_inertia_tensor", "parameter_sets.py"), ("total_com, center_of_mass, com_line", "com.py")],
     ["Meijaard2007ParameterSet", "Moore2019ParameterSet", "com.total_com"])

prop("C13", "Adding a rider conserves mass, mass centre and inertia",
     "Seating a rider on a bicycle changes only the rear-body mass, mass centre and inertia, and changes them to the exact rigid-body sum of the two bodies about their common mass centre. At most one rider can be seated, a failed or repeated attempt leaves the bicycle as it was, and the rider parameters kept with the bicycle are the ones that were combined.",
     ["inputs", "histories"], "all bicycle/rider pairs and all sequences of add-rider attempts, with stored or recomputed rider data",
     "the rider tests need external data and are not part of the reliable suite",
     ["main.py", "inertia.py", "rider.py"],
     [("Bicycle.add_rider", "main.py"), ("combine_bike_rider", "inertia.py"), ("combine_rider_with_bicycle / configure_rider", "rider.py")],
     ["Bicycle.add_rider", "Bicycle.parameters", "Bicycle.hasRider"])

prop("C14", "Bicycle loading always picks the right data source",
     "Loading a bicycle by name uses the stored benchmark parameters when they exist, and recomputes them from the measured data only when they are absent or recalculation is forced; every other stored parameter file is loaded under its own name with exactly the stored values. A missing bicycle directory raises ValueError, without usable data an error is raised instead of made up parameters, and nothing is written outside that bicycle's own files.",
     ["configurations", "histories"], "all combinations of stored files (benchmark, measured, periods, raw signals, extra parameter files) and force flags, across repeated loads",
     "the tests that load bicycles need data that is not shipped; only one combination would be sampled anyway",
     ["main.py", "io.py"],
     [("Bicycle.__init__", "main.py"), ("get_parts_in_parameters / load_parameter_text_file", "main.py, io.py")],
     ["Bicycle(...)", "Bicycle.parameters", "Bicycle.directory contents"])

prop("C15", "Saving a bicycle stores every parameter set under its own name, safely",
     "Saving a bicycle without a rider writes each non-measured parameter set to its own correctly named file of the bicycle; with a rider the rider's and the combined parameters go to the rider's own and combined files instead. The measured data is never touched. An existing file is replaced only after the user answers yes, and loading the saved bicycle again gives the same parameters to the stored precision.",
     ["histories", "configurations", "fault_sequences"], "all sets of loaded parameter sets, existing files, user answers (including unrecognised ones), rider present or not",
     "no test saves a bicycle",
     ["main.py", "io.py"],
     [("Bicycle.save_parameters", "main.py"), ("write_parameter_text_file", "io.py")],
     ["files under bicycles/<name>/Parameters and riders/<name>/Parameters", "Bicycle.save_parameters"])

prop("C16", "Parameter text files are read exactly and round-trip",
     "Every parameter line of a text file is read as name, value and uncertainty; several comma separated values are combined as their mean; comments and blank lines are ignored and order and spacing do not matter. A dictionary of numbers written out and read back has the same names with values and uncertainties equal to the written precision.",
     ["inputs"], "all parameter files built from the documented line forms",
     "no test parses a parameter file",
     ["io.py"],
     [("load_parameter_text_file, write_parameter_text_file", "io.py")],
     ["io.load_parameter_text_file", "io.write_parameter_text_file"])

prop("C17", "Writing periods back to a measured file loses nothing",
     "Writing computed oscillation periods into a measured-data file replaces only the period entries: every other line keeps its content, each period present afterwards is the newly computed one or the one already stored, and no stored period disappears. Reading the file again gives the merged data to printed precision, and repeating the operation changes nothing. After a bicycle recomputes its periods from recordings, stored periods it did not recompute remain.",
     ["histories", "inputs"], "all measured files (with or without periods, comments, final newline) and all sets of computed periods, repeated",
     "no test writes periods",
     ["io.py", "main.py", "period.py"],
     [("write_periods_to_file", "io.py"), ("Bicycle.calculate_from_measured", "main.py")],
     ["io.write_periods_to_file", "MeasuredParameters.txt after Bicycle(...)"])

prop("C18", "Each pendulum trial feeds the right period, averaged over its trials",
     "Every raw pendulum record contributes to exactly one period, identified by part, pendulum kind and the ordinal of its orientation angle among those recorded for that part, and repeated trials of one configuration are averaged. Recalculation is triggered exactly when the stored measured data does not hold enough periods for the bicycle's kind (fork and handlebar measured together or separately).",
     ["inputs", "configurations"], "all sets of recorded trials (bicycles, parts, pendulum kinds, angles, trial numbers) in any order",
     "only file name parsing is tested",
     ["period.py", "io.py", "main.py"],
     [("get_period_key, calc_periods_for_files, check_for_period", "period.py"), ("is_fork_split", "main.py"), ("filename_to_dict", "io.py")],
     ["period.get_period_key", "period.calc_periods_for_files", "period.check_for_period", "main.is_fork_split", "io.filename_to_dict"])

prop("C19", "Ideal measurements of a bicycle give back that bicycle",
     "If distances, orientations, masses and pendulum periods are those an ideal experiment on some bicycle would produce, the benchmark parameters computed from them are that bicycle's geometry, masses, mass centres and inertias. This holds for both geometry measurement options, for fork and handlebar measured together or separately, and for any number (three or more) of orientations no two of which are parallel. When the readings contain errors, the mass centre of a hanging part is the average of the pairwise intersections of its lines and its inertia the least-squares fit to all orientations.",
     ["inputs", "configurations"], "all bicycles, measurement options and orientation sets",
     "the calculation is only exercised by tests needing unshipped data for one bicycle",
     ["main.py", "geometry.py", "com.py", "inertia.py"],
     [("calculate_benchmark_from_measured", "main.py"), ("calculate_benchmark_geometry", "geometry.py"), ("part_com_lines, center_of_mass", "com.py"), ("compound_pendulum_inertia, torsional_pendulum_inertia, inertia_components", "inertia.py")],
     ["main.calculate_benchmark_from_measured"])

prop("C20", "Bicycle geometry functions are mutually consistent and exact",
     "Trail, mechanical trail, wheelbase, steer axis tilt, fork offset, steer-axis offsets, fundamental link lengths and projections are the exact planar-geometry quantities of the described bicycle. Converting between the alternative descriptions of one bicycle and back gives the same bicycle, and distances to the steer axis are non-negative perpendicular distances.",
     ["inputs"], "all bicycles incl. unequal wheels, zero offset or trail, uncertain values",
     "no test calls these functions except through unshipped data",
     ["geometry.py", "bicycle.py"],
     [("calculate_abc_geometry, lambda_from_abc, trail, fundamental_geometry_plot_data, distance_to_steer_axis, fwheel_to_handlebar_ref, calculate_l1_l2, point_to_line_distance, project_point_on_line", "geometry.py, bicycle.py")],
     ["geometry and bicycle public functions"])

prop("C21", "Inertia transformations obey rigid-body mechanics",
     "Rotating an inertia tensor preserves its principal values and is undone by the opposite rotation, the parallel axis and pendulum formulas agree with first-principles point-mass mechanics, and principal components computed for a tensor reconstruct it in every orientation. Recovering planar inertia components from moments measured about three or more axes returns the original tensor.",
     ["inputs"], "all symmetric tensors, angles, offsets, masses",
     "no reliable test covers inertia functions",
     ["inertia.py"],
     [("parallel_axis, rotate_inertia_tensor, principal_axes, inertia_components, compound_pendulum_inertia, tor_inertia, torsional_pendulum_stiffness, tube_inertia, part_inertia_tensor", "inertia.py")],
     ["inertia public functions"])

prop("C22", "Steering inertia is the sum of exactly the selected parts",
     "The moment of inertia of the steering assembly about the steer axis equals the exact rigid-body moment about that axis of exactly the parts the caller selected, whether handlebar, fork and wheel were measured together or separately. Asking for a part that is not separately available is reported as an error rather than silently mis-computed.",
     ["inputs", "configurations"], "all bicycles and all combinations of selection flags and measurement splits",
     "no test calls it",
     ["main.py"],
     [("Bicycle.steer_assembly_moment_of_inertia", "main.py")],
     ["Bicycle.steer_assembly_moment_of_inertia"])

prop("C23", "Period estimation recovers the period of the recorded oscillation",
     "For every clean decaying oscillation recorded with at least fifty samples per oscillation, at any sample rate, the estimated period is the oscillation's damped period within the fit tolerance, with a non-negative uncertainty, whether the sample rate or a time vector is given, and independent of amplitude, offset and phase. Trimming the record keeps a contiguous part of the record and never reorders or alters samples; loading a stored recording gives back its samples, sample times or rate, and remarks unaltered.",
     ["inputs"], "all decaying sinusoids within the documented range, sample rates, offsets, phases and durations",
     "no reliable test estimates a period",
     ["period.py"],
     [("get_period, get_period_from_truncated, select_good_data, get_sample_rate", "period.py")],
     ["period.get_period", "period.get_period_from_truncated", "period.select_good_data"])

prop("C24", "Generated tables show every parameter once with correctly rounded values",
     "A generated comparison table has one row per parameter present in any of the compared bicycles and one column group per bicycle, every cell showing that bicycle's value and uncertainty rounded to the same significant digit, and missing parameters shown as not available. Generating a table again, in the same or another format, gives the same content. The sheet a parameter set is rendered as likewise shows each of its parameters once, under that parameter's own symbol, with its current value to three decimals.",
     ["inputs", "histories"], "all sets of bicycles, parameter sets and values, repeated generation, edited parameter sets",
     "no test generates tables or looks at rendered parameter sets",
     ["tables.py", "parameter_sets.py"],
     [("Table, uround, to_latex", "tables.py"), ("ParameterSet.par_strings, _repr_html_", "parameter_sets.py")],
     ["tables.Table", "tables.uround", "ParameterSet._repr_html_"])

prop("C25", "Plots draw the computed data",
     "Every curve, marker, shaded stability region and label drawn by the plotting functions corresponds to the model's own data for the same parameters: eigenvalue parts of the tracked modes, stable exactly where all real parts are non-positive, simulated trajectories, eigenvector components, wheel circles, contact points and mass centres at their true coordinates. Plotting never changes the bicycle or model.",
     ["inputs", "histories"], "all models, parameter ranges and options (including ranges with no stable region)",
     "plots are never inspected by tests",
     ["models.py", "main.py", "parameter_sets.py", "plot.py"],
     [("plot_eigenvalue_parts, plot_eigenvectors, plot_simulation, plot_mode_simulations", "models.py"), ("plot_eigenvalues_vs_speed, plot_bicycle_geometry (matplotlib and plotly)", "main.py"), ("ParameterSet.plot_*", "parameter_sets.py")],
     ["artists of returned axes / plotly figure traces"])

prop("C26", "The web app shows and plots the bicycle the user selected and edited",
     "For every selected bicycle the web app's tables list that bicycle's stored parameters, and the plots it produces are those of the selected bicycle with the user's edited values, over the selected speed range, each delivered to its own figure. Interactions never alter the stored bicycles or later results, and every combination of selections produces a figure rather than an error.",
     ["histories", "inputs"], "all sequences of selections, edits, slider positions and check boxes",
     "no test drives the app's callbacks",
     ["app.py", "main.py"],
     [("populate_*, plot_update callbacks", "app.py")],
     ["dash callbacks of bicycleparameters.app"])

prop("C27", "A rider configured from body measurements fits the bicycle",
     "A rider configured from body and bicycle measurements keeps all measured limb lengths and the given hunch, sits with the hips on the saddle, both feet at the bottom bracket with the knees forward, and both hands at the measured handlebar points (at their distances from the wheel centres, half the handlebar width aside), left and right alike, with naturally bent, hanging elbows. The rider's mass, mass centre and inertia in the bicycle's frame are those of the human in that pose.",
     ["inputs", "histories"], "all riders and bicycles that fit each other, and sequences of adjustments of either",
     "no reliable test configures a rider; the pose is the root of ten coupled equations",
     ["rider.py"],
     [("rider_on_bike, configure_rider, yeadon_vec_to_bicycle_vec", "rider.py")],
     ["rider.configure_rider", "segments of the returned human"])

prop("C28", "Fit statistics of a period estimate are those of its least-squares fit",
     "For every recording of a decaying oscillation with a small disturbance, the uncertainty reported with the period is the standard error that the least-squares fit gives it: the residual variance with the degrees of freedom left by five parameters, propagated through the Jacobian of the fitted function (which is its exact derivative). The goodness-of-fit numbers of any two series are r squared, and the error, total and regression sums of squares. The saved figure shows the recording and the fitted curve over the recorded times with the parameters, r squared and period of the fit.",
     ["inputs"], "all lightly damped oscillations with small alternating disturbances, at any rate; all pairs of series",
     "no reliable test estimates a period, and tests of one recording cannot tell a wrong scale of the uncertainty from a right one",
     ["period.py"],
     [("get_period, jac_fitfunc, fit_goodness, plot_osfit", "period.py")],
     ["period.get_period", "period.jac_fitfunc", "period.fit_goodness", "the saved figure"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
