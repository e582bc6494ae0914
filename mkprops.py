"""Generates properties.jsonl (kept so that the text lives in one readable place)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

prop("C01", "RCWA spectra of uniform stacks equal exact thin-film theory",
 "For every stack of laterally uniform layers, the reflectance and transmittance that the TRCWA solver returns at each configured frequency equal the exact normal-incidence thin-film (transfer-matrix) values for that frequency's permittivities, the per-layer thicknesses in micrometres (one value for all layers or one per layer, first layer at the illuminated side) and the configured top and bottom media. The values come back in the order of the configured frequencies, one finite value per frequency.",
 ["inputs", "configurations"], "all layer counts, thickness lists, complex permittivities (dielectric, absorbing, metallic), top/bottom media, wavelength ranges, truncation orders and lattice constants",
 "The existing tests pin three or four fixed stacks; agreement has to hold for every stack, thickness list and medium.",
 ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/trcwa.py"],
 [("stack assembly", "nidn/trcwa/init_trcwa.py:_init_trcwa"), ("uniform eigenmodes", "nidn/trcwa/trcwa.py:SolveLayerEigensystem_uniform"), ("scattering matrix", "nidn/trcwa/trcwa.py:GetSMatrix"), ("power flux", "nidn/trcwa/trcwa.py:GetZPoyntingFlux")],
 ["return value of nidn.compute_spectrum"])

prop("C02", "RCWA spectra of patterned layers equal the Fourier-modal solution",
 "For every stack containing laterally patterned layers, the TRCWA solver's reflectance and transmittance equal the Fourier-modal (RCWA) solution of that structure for normally incident light with the electric field along y, using the permittivity sampled on the given grid, the configured lattice vectors and the configured circular truncation order, for every grid shape that resolves the orders used. Each layer's own pattern and thickness is used, at each frequency that frequency's pattern.",
 ["inputs", "configurations"], "all grid shapes (square, non-square, 3xN, 1xN), patterns incl. negative and complex permittivity, lattice constants, truncation orders, layer counts, media and frequencies",
 "Tests check one patterned structure for shape/finite results; the result has to be right for every pattern and lattice.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/utils/kbloch.py"],
 [("convolution matrices", "nidn/trcwa/utils/fft_funs.py:Epsilon_fft/get_conv"), ("order selection", "nidn/trcwa/utils/kbloch.py:Gsel_circular"), ("patterned eigenmodes", "nidn/trcwa/trcwa.py:SolveLayerEigensystem"), ("layer dispatch", "nidn/trcwa/trcwa.py:TRCWA.GridLayer_geteps")],
 ["return value of nidn.compute_spectrum"])

prop("C03", "RCWA spectra respect the symmetries of the simulated structure",
 "Changes of the input that describe the same optical problem leave the TRCWA spectra unchanged: cyclically shifting or mirroring all patterns of a structure together, describing a uniform layer by a constant grid, splitting a layer into thinner layers of the same pattern, giving one common thickness as a single value or as a list, adding layers of the surrounding medium's permittivity below the stack, or simulating a frequency alone or together with others. Reversing a stack (with top and bottom media) leaves the total transmittance of uniform stacks unchanged.",
 ["inputs", "configurations"], "all structures and all the listed transformations",
 "A relation between pairs of simulations; tests only pin single values.",
 ["nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py"],
 [("per-frequency loop", "nidn/trcwa/compute_spectrum_trcwa.py"), ("thickness list handling", "nidn/trcwa/init_trcwa.py"), ("convolution matrices", "nidn/trcwa/utils/fft_funs.py")],
 ["return value of nidn.compute_spectrum for the original and the transformed input"])

prop("C04", "Passive structures never produce more light than they receive",
 "For every structure without gain (imaginary permittivity >= 0) every reflectance and transmittance returned by the TRCWA solver is finite and non-negative and their sum does not exceed 1, and it equals 1 for lossless structures up to the solver's documented loss regularisation. For the FDTD solver the same bounds hold within the discretisation error for resolved, settled simulations with a line source, where sums that exceed 1 by less than 5 percent are brought back to exactly 1 in proportion.",
 ["inputs", "configurations"], "all passive structures (uniform, patterned, absorbing, metallic) and both solvers",
 "Energy conservation is universally quantified over structures; tests pin a few numbers.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py", "nidn/fdtd/grid.py", "nidn/fdtd/objects.py"],
 [("power flux", "nidn/trcwa/trcwa.py:GetZPoyntingFlux"), ("convolution matrices", "nidn/trcwa/utils/fft_funs.py"), ("coefficient normalisation", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py:_check_and_normalize_coefficients")],
 ["return value of nidn.compute_spectrum", "return value of the coefficient computation"])

prop("C05", "Spectra are differentiable with correct gradients in every permittivity",
 "For both solvers the reflectance and transmittance are differentiable with respect to the permittivity grid, and the gradient obtained by back-propagation equals the actual rate of change of the returned values with respect to the real and imaginary part of the permittivity of every layer, grid point and frequency that influences the simulation. Gradients are finite, and a frequency's spectrum has no gradient with respect to another frequency's permittivity.",
 ["inputs", "configurations"], "all structures, directions of change and frequencies, both solvers",
 "Tests only assert that some gradient is non-zero for one structure.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/fdtd/grid.py", "nidn/fdtd/objects.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
 [("torch graph through the S-matrix", "nidn/trcwa/trcwa.py"), ("torch graph through the time stepping", "nidn/fdtd/grid.py:Grid.update_E"), ("object permittivity", "nidn/fdtd/objects.py:AbsorbingObject._register_grid")],
 ["torch.autograd gradient of the outputs of nidn.compute_spectrum"])

prop("C06", "FDTD spectra simulate exactly the configured layers, source and detectors",
 "For every valid configuration, the FDTD solver's spectrum equals that of a free-space run and a material run of the configured geometry: absorbing boundary, free space, the layers in the given order and with their own thickness, permittivity and loss, free space, absorbing boundary, on a grid of the configured resolution, with the configured source type, position and signal and a detector the configured number of grid points before and behind the material, for the configured number of time steps, at each configured wavelength. The detectors record one field sample per time step, and the coefficients are computed from exactly these records. Configurations with too few time steps for the signal to settle are reported together with the number needed, and layers whose thickness the grid cannot hold together with the thickness simulated.",
 ["inputs", "configurations"], "all layer counts, thickness lists, permittivities and losses, resolutions, boundary thicknesses, distances, source types and signals, step counts and wavelength grids",
 "Tests pin two stacks of the default geometry.",
 ["nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py", "nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/objects.py"],
 [("geometry", "nidn/fdtd_integration/init_fdtd.py:init_fdtd"), ("resolution", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py"), ("two runs per wavelength", "nidn/fdtd_integration/compute_spectrum_fdtd.py")],
 ["return value of nidn.compute_spectrum", "field records of the detectors of every simulation grid created meanwhile"])

prop("C07", "FDTD spectra agree with optics: free space, thin films and the RCWA solver",
 "A stack with the permittivity of free space reflects exactly nothing and transmits everything (within the settling error) in the FDTD solver. For settled, continuous line-source simulations of well-resolved dielectric or absorbing stacks (thicknesses as rounded to the grid), the FDTD reflectance and transmittance agree with exact thin-film optics, and therefore with the TRCWA solver, within the discretisation error.",
 ["inputs", "configurations"], "all stacks that the grid resolves, both solvers",
 "Tests pin the FDTD output itself, not its agreement with optics.",
 ["nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py", "nidn/fdtd/grid.py", "nidn/fdtd/objects.py"],
 [("absorbing object update", "nidn/fdtd/objects.py:AbsorbingObject"), ("free-space reference", "nidn/fdtd_integration/compute_spectrum_fdtd.py")],
 ["return value of nidn.compute_spectrum"])

prop("C08", "FDTD coefficients are the power ratios of the settled detector signals",
 "Given detector signals of a free-space and a material run, the transmission coefficient is the ratio of the mean squared transmitted signals and the reflection coefficient that of the reflected signal (material minus free space) to the incident one, taken over whole oscillations after the silent and the transient part; a steady sine of relative amplitude a therefore yields a squared, independent of phase, delay and length of the records. Sums in (1, 1.05) are scaled to exactly 1 in proportion, other results are returned unchanged; coefficients or sums above 1 are reported in the log with their value, and a missing free-space signal is reported as an error.",
 ["inputs"], "all signal pairs: amplitudes, phases, delays, transients, record lengths (including around the window limits), wavelengths and resolutions",
 "One test with one synthetic signal pair.",
 ["nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"],
 [("transient removal", "_eliminate_transient_part"), ("mean square between peaks", "_peak_based_coefficient_computation"), ("normalisation", "_check_and_normalize_coefficients"), ("zero-signal guard", "_check_for_all_zero_signal")],
 ["return value of calculate_transmission_reflection_coefficients"])

prop("C09", "The FDTD engine evolves fields by Maxwell's equations on the Yee grid",
 "For every grid shape and dimension, every placement of objects (permittivity, conductivity), absorbing or periodic boundaries, sources and detectors, in single and double precision, each time step advances the electric and magnetic fields by the leapfrog Yee update with these components. Hence fields never spread faster than one cell per step, depend linearly on the source amplitudes (up to 1e-16), the absorbing boundaries absorb outgoing waves, periodic ones wrap around, and every line, point or block detector records exactly one electric and one magnetic sample per step at its cells, current detectors the circulation of the magnetic field there. Places and times may be given in cells and steps (as any kind of integer) or in metres and seconds, and components that cannot be placed (outside of a border, two of one name, two boundaries on one side, Courant numbers above the limit) are refused.",
 ["inputs", "configurations", "histories"], "all grids, component placements, source signals, step sequences and precisions",
 "Tests check the creation of a grid and one pinned run.",
 ["nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/objects.py", "nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/backend.py", "nidn/fdtd/waveforms.py"],
 [("curls and updates", "nidn/fdtd/grid.py:curl_E/curl_H/Grid.update_E/Grid.update_H"), ("CPML", "nidn/fdtd/boundaries.py:PML"), ("periodic", "nidn/fdtd/boundaries.py:PeriodicBoundary"), ("sources", "nidn/fdtd/sources.py")],
 ["Grid.E, Grid.H after every step", "detector_values()"])

prop("C10", "The training loss is the mean distance to the target spectra",
 "The spectrum loss equals the mean over frequencies of |R - target R|^L and |T - target T|^L (and |A - target A|^L with A = 1-R-T when absorption is included), where at frequencies with R + T > 1 both are first divided by that sum so that they add up to 1, which is reported. It is zero exactly when the targets are met and otherwise positive, its gradient is the derivative of this formula, and the classification regulariser is the mean over materials of min(p, 1-p)^L, zero exactly for pure materials.",
 ["inputs"], "all spectra (including unphysical ones), targets, exponents, frequency counts, absorption flag",
 "No test looks at loss values.",
 ["nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py", "nidn/training/run_training.py"],
 [("spectrum loss", "nidn/training/losses/spectrum_loss.py"), ("regulariser", "nidn/training/losses/likelihood_regularization_loss.py"), ("combination", "nidn/training/run_training.py")],
 ["loss function values", "results.loss_log and results.L1_errs of run_training"])

prop("C11", "Training returns the best physically valid design it has visited",
 "After a training run the returned model (and the stored best state) has exactly the parameters with which the lowest loss among all iterations with physically valid spectra (no R + T > 1) was reached, or the lowest loss at all if there was none. The loss, L1-error and running-average (last 20) logs contain exactly one entry per successfully evaluated iteration with that iteration's values, in order.",
 ["histories", "inputs", "configurations"], "all optimisation trajectories: improving, diverging, oscillating, with and without unphysical iterations, all model types, both solvers",
 "The existing tests run three improving iterations; the property is about whole trajectories, in particular those that get worse.",
 ["nidn/training/run_training.py"],
 [("best-state bookkeeping", "nidn/training/run_training.py:run_training"), ("logs", "run_cfg.results")],
 ["parameters at every model evaluation (recorded)", "returned config: model, best_model_state_dict, results"],
 [("best_model_state_dict", "snapshot of the best parameters", "run_cfg"), ("results", "logs", "run_cfg")])

prop("C12", "Training survives numerical failures and goes back to the best design",
 "When the spectrum of an iteration cannot be computed because the permittivities are not numbers, training does not stop: it restores the parameters of the best design so far (the initial ones if there is none), halves the learning rate, logs nothing for that iteration and continues with the next one, for every pattern of failing iterations. The finally returned design is the best one of the iterations that succeeded, and errors other than such numerical failures, wherever in an iteration they occur, are not swallowed. The settings of the configuration, the learning rate among them, stay as they were.",
 ["fault_sequences", "histories"], "all sequences of failing iterations (first, last, consecutive, alternating, all), all model types and both solvers",
 "No test injects a failure.",
 ["nidn/training/run_training.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
 [("recovery branch", "nidn/training/run_training.py:run_training"), ("NaN detection", "nidn/trcwa/compute_spectrum_trcwa.py")],
 ["parameters at every model evaluation", "learning rate at every optimizer step", "returned config"])

prop("C13", "Training runs are reproducible from their configuration",
 "Two training runs with equal configurations (including the seed) yield identical logs, designs and spectra, whatever random numbers were drawn or runs were made before, in the same or in a new process; different seeds yield different designs. Training continues from a model that is already in the configuration instead of replacing it, and it leaves the user's settings in the configuration as they were.",
 ["inputs", "configurations", "histories"], "all model types, design types, solvers, seeds, noise settings and preceding histories",
 "Needs pairs of runs with different histories; the tests make single runs.",
 ["nidn/training/run_training.py", "nidn/utils/fix_random_seeds.py", "nidn/training/model/init_network.py", "nidn/training/utils/siren.py", "nidn/training/utils/nerf.py", "nidn/training/utils/voxel.py"],
 [("seeding before the model is created", "nidn/training/run_training.py:_init_training"), ("seeding", "nidn/utils/fix_random_seeds.py")],
 ["results, model parameters and configuration after run_training"])

prop("C14", "Regression designs cover exactly the allowed permittivity range",
 "For every model and configuration of type regression the permittivity grid has the configured shape (grid points, layers, frequencies), is complex, and lies within the configured real and imaginary bounds (apart from zero-avoidance), whatever the model outputs and with or without noise; the permittivity at a grid point, layer and frequency is given by the network output at that coordinate, outputs 0 and 1 being mapped to the lower and upper bounds and values between linearly, and voxel models directly give the clipped permittivity. With oversampling every block of neighbouring grid points of a network model has one value (and adjacent blocks come from adjacent model evaluations), and with zero-avoidance no real part is closer to zero than 0.01, the sign being kept.",
 ["inputs", "configurations"], "all model outputs, bounds, grid shapes, oversampling factors, noise settings, model types",
 "Tests check one default grid's shape.",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/training/utils/voxel.py"],
 [("range mapping", "nidn/training/model/model_to_eps_grid.py:_regression_model_to_eps_grid"), ("zero avoidance", "_avoid_zero_eps"), ("oversampling", "repeat_interleave")],
 ["return value of nidn.model_to_eps_grid"])

prop("C15", "Classification designs are mixtures of the listed materials",
 "For every model of type classification the returned material likelihoods are non-negative and sum to one at every grid point and layer, the material with the largest mean model output over the frequencies has the largest likelihood (above 0.99 if it leads by 0.5), and the permittivity at every frequency is the likelihood-weighted average of the materials' permittivities (apart from zero-avoidance), so that a decided design consists of real materials. Oversampled grids are blockwise constant, and the likelihoods belong to the materials in the order of the material collection.",
 ["inputs", "configurations"], "all model outputs, grid shapes, frequency counts (including one), oversampling factors",
 "Tests run default settings once.",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/materials/material_collection.py"],
 [("softmax", "nidn/training/model/model_to_eps_grid.py:_classification_model_to_eps_grid"), ("material matrix", "nidn/materials/material_collection.py")],
 ["return value of nidn.model_to_eps_grid"])

prop("C16", "Material permittivities are those of the tabulated data",
 "For every list of target frequencies (of any length) the collection returns for every shipped material, by name and in its matrix, the permittivity (n + ik)^2 of the tabulated row whose wavelength is closest to the target's, in the order of the frequencies; skipped materials are absent, names, rows and counts stay aligned in an order that does not depend on the file system, and unknown names and empty lists of frequencies are rejected. The closest material to a permittivity is the one with the smallest mean absolute difference over the frequencies.",
 ["inputs"], "all frequency lists inside and outside the tabulated ranges, skip lists, permittivity grids",
 "Tests look up one material.",
 ["nidn/materials/material_collection.py", "nidn/materials/find_closest_material.py", "nidn/trcwa/load_material_data.py"],
 [("nearest row", "nidn/materials/material_collection.py:_load_material_data"), ("lookup", "MaterialCollection.__getitem__"), ("closest material", "nidn/materials/find_closest_material.py")],
 ["MaterialCollection attributes and items", "_find_closest_material"])

prop("C17", "Built layers have the requested geometry",
 "Uniform, square-hole and circular-hole layers built for a configuration have the grid material everywhere except in exactly those grid points that lie inside the requested square or circle (in relative coordinates from 0 to 1 along both axes), which have the hole material, with the materials' permittivities at every frequency. Layers built earlier are not changed by building others or by changing the returned ones, which belong to the caller.",
 ["inputs", "configurations"], "all grid shapes, sizes, centres, material pairs and frequency grids",
 "No test builds a square or circular layer.",
 ["nidn/materials/layer_builder.py", "nidn/materials/material_collection.py"],
 [("geometry masks", "nidn/materials/layer_builder.py:build_squared_layer/build_circle_layer")],
 ["return values of the LayerBuilder methods"])

prop("C18", "Frequency points span the configured wavelengths, in order",
 "For every wavelength range, count and distribution the target frequencies are the requested number of ascending points from 1/longest to 1/shortest wavelength (in inverse micrometres), equidistant or equidistant in the logarithm, and the reported physical wavelengths are their reciprocals in metres, also when the settings of a configuration are changed and its frequencies computed again. Unit conversions (wavelengths, frequencies, FDTD field units) are each other's inverses, and unknown distributions are rejected.",
 ["inputs"], "all ranges, counts, distributions, scalars and arrays",
 "Tests check one range.",
 ["nidn/trcwa/compute_target_frequencies.py", "nidn/trcwa/get_frequency_points.py", "nidn/utils/convert_units.py", "nidn/fdtd/conversions.py"],
 [("frequency grid", "nidn/trcwa/compute_target_frequencies.py"), ("units", "nidn/utils/convert_units.py")],
 ["return values and run_cfg.target_frequencies"])

prop("C19", "Invalid configurations are rejected before any simulation, valid ones accepted",
 "Validation, and likewise starting a training run or a validated spectrum computation, raises an error for every configuration that misses a required entry, has an unknown entry, an entry of the wrong type, a value outside its allowed range (reversed or non-positive ranges, non-positive counts, sizes, thicknesses or source coordinates, negative targets), inconsistent sizes (thickness list, oversampling, detectors outside of the free space) or an unknown choice (design type, solver, distribution, source, signal). It accepts every configuration without such a flaw and never changes the configuration. The RCWA solver likewise refuses permittivities or frequencies whose number does not match the configuration.",
 ["configurations"], "all configurations: the default and random valid ones, and each with one flaw in every entry",
 "The test validates the default configuration only.",
 ["nidn/utils/validate_config.py", "nidn/utils/compute_spectrum.py", "nidn/training/run_training.py"],
 [("key check", "_check_for_keys"), ("type check", "_check_entry_types"), ("range check", "_check_value_ranges"), ("call sites", "nidn/utils/compute_spectrum.py, nidn/training/run_training.py:_init_training")],
 ["exceptions of compute_spectrum and run_training", "configuration before and after"])

prop("C20", "Saved runs are restored exactly and never lost to later saves",
 "Loading a saved run gives back the complete configuration: settings, logs, model parameters and best state are equal to those at the time of saving, and the loaded run yields the same permittivities and spectra and can be trained further. No save overwrites or alters another one, whatever the names, subfolders and timing, and saving does not change the run.",
 ["histories", "inputs"], "all sequences of saves (same and different names, within one second), changes of the run in between, and loads; all model and design types",
 "No test saves or loads.",
 ["nidn/training/save_run.py", "nidn/training/load_run.py"],
 [("pickle file", "nidn/training/save_run.py"), ("file naming", "nidn/training/save_run.py")],
 ["files in the results folder", "loaded configuration"])

prop("C21", "Simulating and inspecting never change the design or the settings",
 "Computing a spectrum, mapping a model to permittivities, plotting, printing or validating leaves the given permittivities, the model, and all settings of the configuration unchanged (derived entries may be added, and a common thickness may be written out per layer), does not disturb the global numeric state of the process, and gives the same result when repeated. The result of a spectrum computation depends on nothing but its arguments, not on earlier calls, on other configurations used before, or on simulations made at the same time in other threads.",
 ["histories", "inputs", "configurations"], "all interleavings of calls with different configurations, solvers and designs",
 "About sequences of calls; tests make isolated ones.",
 ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/training/model/model_to_eps_grid.py", "nidn/plots", "nidn/utils/print_cfg.py", "nidn/utils/validate_config.py"],
 [("no in-place updates of inputs", "nidn/trcwa, nidn/fdtd_integration"), ("fresh grid and solver objects per simulation", "nidn/fdtd_integration/init_fdtd.py, nidn/trcwa/init_trcwa.py")],
 ["deep snapshots of arguments and global state before and after", "results of repeated calls"])

prop("C22", "Plots show the actual data of the run",
 "Every plot shows the data it is named after: spectra and targets (with the mean absolute error) over the wavelength of each frequency, the loss logs, the magnitude, real and imaginary parts of the design's permittivity at every grid point, layer and frequency, and the closest materials with their names. All plots can be produced and saved for every run, whatever its grid size and number of layers and frequencies, under the requested names; axes, labels and given limits fit the data shown, and plotting changes nothing of the run.",
 ["inputs", "configurations"], "all run shapes (one or more frequencies, layers, grid points), model types, spectra and options",
 "No test plots anything.",
 ["nidn/plots/plot_spectrum.py", "nidn/plots/plot_spectra.py", "nidn/plots/plot_losses.py", "nidn/plots/plot_model_grid.py", "nidn/plots/plot_model_grid_per_freq.py", "nidn/plots/plot_material_grid.py", "nidn/plots/plot_epsilon_grid.py", "nidn/plots/plot_eps_per_point.py", "nidn/plots/save_all_plots.py"],
 [("artists", "nidn/plots/*")],
 ["line, scatter and text artists of the produced figures", "files written"])

prop("C23", "Every model type works for every size and depends only on the coordinates",
 "For every supported model type and any number of neurons and hidden layers, the network has the configured size, computes the function of its architecture (with the configured frequency factors) and maps each grid coordinate to outputs between 0 and 1 of the number the design type needs, independently of the other coordinates evaluated with it, gradients are finite, and distinct grid points, layers and frequencies are evaluated at distinct coordinates, with the layers spaced according to their thicknesses. Voxel models hold one freely trainable permittivity per grid point, layer and frequency, initialised inside the allowed range.",
 ["inputs", "configurations"], "all model types, sizes, grid shapes, thickness lists and frequency grids",
 "Tests use the default siren and one nerf size.",
 ["nidn/training/model/init_network.py", "nidn/training/utils/siren.py", "nidn/training/utils/nerf.py", "nidn/training/utils/voxel.py", "nidn/training/model/model_to_eps_grid.py"],
 [("coordinates", "nidn/training/model/model_to_eps_grid.py:_get_transformed_grid/_eval_model"), ("architectures", "nidn/training/utils")],
 ["inputs and outputs of the model in model_to_eps_grid (recorded)"])

prop("C24", "The batch script trains, saves and plots every configuration of a folder",
 "Running the batch script on a folder trains every configuration file in it with its own settings and stores for each of them (even if names are equal) a restorable run and all plots in its own result folder, with the same results as a direct training run of that configuration. Other files are ignored, nothing else is written, and the configuration files are not changed.",
 ["inputs", "configurations"], "all folders of valid configurations (several files, equal names, different types)",
 "No test runs the script.",
 ["nidn/scripts/run_cfgs.py", "nidn/training/save_run.py", "nidn/plots/save_all_plots.py"],
 [("batch loop", "nidn/scripts/run_cfgs.py")],
 ["files below the results folder", "loaded runs"])

prop("C25", "Every training iteration is one Adam step down the gradient of its loss",
 "In a training run without noise and numerical failures, the parameters of each iteration are those of the previous one after exactly one Adam step with the configured learning rate along the gradient of that previous iteration's complete loss (spectrum loss, and for classification the weighted regulariser if it is switched on) with respect to all parameters, gradients of earlier iterations not being mixed in. The learning rate changes only after more than 500 iterations without improvement, and a further training run of the same configuration starts its optimiser afresh from the model it finds.",
 ["histories", "inputs", "configurations"], "all trajectories, model and design types, loss settings, learning rates, both solvers",
 "The tests run three iterations and look at no parameter.",
 ["nidn/training/run_training.py", "nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py", "nidn/training/model/model_to_eps_grid.py"],
 [("optimizer and schedule", "nidn/training/run_training.py:_init_training"), ("iteration", "nidn/training/run_training.py:run_training")],
 ["parameters at every model evaluation and learning rates at every optimizer step (recorded)"])

prop("C26", "The RCWA class is exact for any incidence, polarisation and anisotropy",
 "For any lattice, layer stack (uniform, patterned, or patterned with different permittivities along x, y and z), outer media, polar and azimuthal angle, and complex s and p amplitudes, the RCWA class gives the reflected and transmitted power of every diffraction order that Maxwell's equations truncated to the class's own set of orders give, whichever side is illuminated; totals are the sums over the orders, normalised powers refer to the power of a wave of amplitude one, and the set of orders is the complete circular or parallelogram set around the zeroth order.",
 ["inputs", "configurations"], "all lattices, stacks, angles, polarisations, truncations",
 "The tests use the default spectrum computation: normal incidence, one polarisation, isotropic.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/kbloch.py", "nidn/trcwa/utils/fft_funs.py"],
 [("excitation", "nidn/trcwa/trcwa.py:MakeExcitationPlanewave"), ("powers", "nidn/trcwa/trcwa.py:RT_Solve/GetZPoyntingFlux"), ("anisotropy", "nidn/trcwa/utils/fft_funs.py:Epsilon_fft"), ("orders", "nidn/trcwa/utils/kbloch.py")],
 ["RT_Solve outputs by order", "TRCWA.G"])

prop("C27", "Fields inside a structure obey Maxwell's equations and carry its power",
 "The fields the RCWA class returns inside any layer (in Fourier space, or in real space on a grid) satisfy Maxwell's equations in the layer's permittivity, have continuous tangential components across every interface, and contain in the outer media the prescribed incident wave and otherwise only outgoing waves, whose powers are those reported as reflected and transmitted. Volume integrals equal the depth integral of the given densities of the fields, so that the absorbed power of a layer is the power flow lost in it; stress integrals and mode amplitudes are those of the same fields, and returned permittivity profiles are the truncated Fourier series of the layer's permittivity.",
 ["inputs", "configurations"], "all lattices, stacks, angles, polarisations, layers, depths and densities",
 "No test asks for interior fields.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py"],
 [("amplitudes in a layer", "nidn/trcwa/trcwa.py:SolveInterior/TranslateAmplitudes"), ("fields", "nidn/trcwa/trcwa.py:Solve_FieldFourier/Solve_FieldOnGrid"), ("integrals", "nidn/trcwa/trcwa.py:Volume_integral/Matrix_zintegral"), ("profiles", "nidn/trcwa/trcwa.py:Return_eps")],
 ["outputs of Solve_FieldFourier, Solve_FieldOnGrid, Volume_integral, Return_eps, Solve_ZStressTensorIntegral, GetAmplitudes"])

prop("C28", "Pictures and exports of an FDTD simulation show its actual state",
 "A picture of a simulation grid in any plane shows in every cell of that plane the energy of the present fields (the cells of point sources may be left out), with rows and columns along the named axes, and every source, detector, object and boundary at its cells, and changes nothing. Saved data contain for every named detector exactly the electric and magnetic readings it has recorded, one per step, in the folder of the simulation, which no other simulation shares, even if it is stored within the same second; plots of readings show the envelope and time of the maximum of each reading under its name, and decibel maps the range of each block-detector reading relative to the smallest. Videos are made from the frames of the simulation into its folder, frames are deleted only on request, and a video that cannot be made is reported without losing frames or changing the working directory. Requests that make no sense (no plane or two planes, readings of another kind) are refused.",
 ["inputs", "configurations", "histories"], "all grids, component placements, planes, moments of the simulation and readings",
 "No test draws or saves a simulation.",
 ["nidn/fdtd/visualization.py", "nidn/fdtd/grid.py", "nidn/fdtd/detectors.py", "nidn/fdtd/backend.py"],
 [("picture", "nidn/fdtd/visualization.py:visualize"), ("stored readings", "nidn/fdtd/grid.py:Grid.save_simulation/Grid.save_data"), ("plots of readings", "nidn/fdtd/visualization.py:plot_detection/dB_map_2D")],
 ["image, lines and patches of the figures", "files below the simulation's folder"])

with open("properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
