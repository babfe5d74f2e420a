"""Writes /verif/properties.jsonl (the property texts live here so that they can be edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=False):
    over_enum = ["inputs"] + (["histories"] if id in ("P08","P11","P15") else []) + (["configurations"] if id in ("P02","P04","P05","P06","P15","P16","P17","P19","P20","P21","P22","P23","P24") else [])
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over_enum, "text": qtext + " (" + ", ".join(over) + ")"}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": state, "meaning": "state the property speaks about", "where": files[0]}],
                          "observe_at": [observe], "hook_needed": None}})

prop("P01", "Time-base conversions are exact, order preserving and invertible",
 "Converting any calendar time to a number of days or seconds since a configured reference time gives the exact elapsed time (whole seconds for the seconds base), before or after the reference, increasing with time, and converting that number back gives the original time to the resolution of the base. The annual, monthly, daily-epoch and decimal-year conversions agree with the calendar: consecutive dates differ by exactly one day number, a number of years or months (or a decimal year) is the number of whole calendar periods plus the elapsed fraction of the current one, and converting back inverts it. An annual or monthly reference time that is not the start of its period is refused.",
 ["all datetimes", "all epochs", "all day/second counts"], "for every epoch and every datetime after or before it, and every number",
 "Tests convert a handful of dates; errors at sub-day resolution, before the epoch, at leap days or at year boundaries need every input.",
 ["src/eumopps/timeutils/timebase.py", "src/eustace/timeutils/epoch.py", "src/eustace/timeutils/decimaltime.py", "src/eumopps/timeutils/datetime_dictionary.py"],
 [("TimeBaseDays/TimeBaseSeconds.datetime_to_number, number_to_datetime", "src/eumopps/timeutils/timebase.py"), ("days_since_epoch, epoch_plus_days", "src/eustace/timeutils/epoch.py"), ("datetime_to_decimal_year", "src/eustace/timeutils/decimaltime.py")],
 "none (pure functions of epoch and time)", "returned numbers and datetimes")

prop("P02", "Processing-step schedules tile time: index and time are inverse",
 "Every processing schedule (daily, daily counted from the analysis epoch, monthly, mid-month, annual) maps step indices one to one onto times: the index of the time of step i is i, step times strictly increase, and every time within the schedule belongs to exactly the step whose interval contains it. The number of steps is exactly the number of step times from the start to the end of the schedule inclusive, and times outside the schedule are never given the index of a step inside it.",
 ["start and end dates", "step indices", "query times"], "for every start<=end, every index and every query time",
 "Off-by-one errors at month ends, leap years, year boundaries and start dates not at the beginning of a period occur only for particular start/end/query combinations.",
 ["src/eumopps/catalogue/step.py", "src/eustace/analysis/advanced_standard/examples/step.py", "src/eustace/analysis/advanced_standard/examples/stepmidmonth.py", "src/eustace/analysis/advanced_standard/fileio/step.py"],
 [("count/time_at_index/index_at_time", "src/eumopps/catalogue/step.py")], "step configuration (start, end)", "count(), time_at_index(), index_at_time()")

prop("P03", "File names encode times faithfully: build then parse is the identity",
 "A name built from a pattern and a time contains that time's fields, and searching with the same pattern finds that name and gives it the time truncated to the fields the pattern holds, together with its tags. Two times differing in any field of the pattern give different names. Searching a directory or the contents of its archives reports every file exactly as its name says: a name that begins with the form of the pattern is an entry with its own time and tags, one with that form whose fields are no valid time is listed as a value error, and any other is listed as not matching; none is given a wrong time or the tags of another file. The fourteen digit time text is read back as the same time and other texts of that length are refused.",
 ["patterns", "times", "file names"], "for every pattern of supported fields, every time and every name",
 "Tests use a few names; zero padding, boundary years, prefixes/suffixes that resemble digits, tags that run together and near-miss names need all strings.",
 ["src/eumopps/catalogue/namepatterns.py", "src/eumopps/timeutils/datetime_numeric.py", "src/eumopps/timeutils/datetime_dictionary.py", "src/eumopps/catalogue/storage.py", "src/eumopps/catalogue/dataset.py"],
 [("nested_search_patterns", "src/eumopps/catalogue/namepatterns.py"), ("build, parse, build_from_pattern", "src/eumopps/timeutils/datetime_numeric.py"), ("parse", "src/eumopps/timeutils/datetime_dictionary.py"), ("CatalogueDataSet.search", "src/eumopps/catalogue/dataset.py")], "none", "built names, parsed times")

prop("P04", "Work splitting covers every item exactly once",
 "However a list of work is divided (operations into batches for the scheduler, files into checksum worker threads, days into postprocessing jobs, dates into per-year batches), each work item belongs to exactly one part, parts keep the original order, no part is larger than the requested size, there are no more threads than allowed, and the advertised number of batches is exactly the number needed. An operation or batch index outside the list is never silently run as some other item.",
 ["item counts", "batch sizes", "indices", "date ranges"], "for every number of items, every batch size and every index",
 "Boundary remainders (count multiple of size, size larger than count, single item, last batch) depend on the numbers and tests sample only a few.",
 ["src/eumopps/catalogue/operation.py", "src/eumopps/catalogue/dataset.py", "src/eumopps/catalogue/jinja/batches.py", "src/eumopps/catalogue/commandrun.py", "src/eustace/postprocess/operation_count.py"],
 [("operation_count/batches", "src/eumopps/catalogue/jinja/batches.py"), ("run with batch size", "src/eumopps/catalogue/commandrun.py"), ("compute_checksum", "src/eumopps/catalogue/dataset.py")], "none", "indices executed per part")

prop("P05", "Catalogue operations get exactly the inputs and outputs of their time step",
 "When a catalogue operation is resolved at a time step, each input refers to exactly the data files whose time belongs to that step, each output name is the one built for that step, and an input that takes a single file refuses a step with several. Where an input is missing, the step is kept, skipped or fails exactly as that input's missing-data policy says, and all operation inputs and outputs stay aligned after steps are dropped.",
 ["sets of files and times", "schedules", "missing-data policies"], "for every set of file times, every schedule and every policy combination",
 "Tests use small catalogues with at most a few gaps; misalignment depends on where gaps and duplicates fall.",
 ["src/eumopps/catalogue/placeholder.py", "src/eumopps/catalogue/operationparameters.py", "src/eumopps/catalogue/operation.py", "src/eumopps/catalogue/step.py", "src/eumopps/catalogue/catalogue.py", "src/eumopps/catalogue/build.py"],
 [("find_references, resolve_operation_references, restrict_to_subset", "src/eumopps/catalogue/placeholder.py, operationparameters.py, operation.py")], "operation references", "resolved references per operation index")

prop("P06", "Catalogue contents survive being saved and loaded",
 "Encoding references to data files as integer tables and decoding them returns the same references, including missing references and lists of different lengths. A catalogue (data sets, file entries with times, sizes, checksums and tags, and operations) written to JSON or NetCDF and read back is equal to the one written: every value stays with its own file entry, times are kept to the second, and only absent values, empty lists and empty text may be exchanged for one another.",
 ["reference lists", "catalogues"], "for every list of references and every catalogue",
 "Tests round-trip one example catalogue; absent fields, zeros, unequal lengths and repeated values need every catalogue.",
 ["src/eumopps/catalogue/operationparameters.py", "src/eumopps/catalogue/datareference.py", "src/eumopps/catalogue/fileio/formatnetcdf.py", "src/eumopps/catalogue/fileio/formatjson.py", "src/eumopps/netcdfobjects/netcdfobjects.py", "src/eumopps/jsonobjects/jsonobjects.py"],
 [("OperationFileReferenceList encode/decode", "src/eumopps/catalogue/operationparameters.py"), ("save/load", "src/eumopps/netcdfobjects/netcdfobjects.py, src/eumopps/jsonobjects/jsonobjects.py")], "catalogue object graph", "loaded objects")

prop("P07", "Gridding puts each observation in the one cell that contains it",
 "For a regular latitude/longitude grid, an observation is assigned to the cell whose edges contain its coordinates, with coordinates wrapped where the axis is declared circular, and the flat cell number is row-major in latitude then longitude. Observations outside a non-circular axis are reported as outside rather than put in some other cell, and cell centre, edge and size descriptions of an axis agree with the assignment.",
 ["axis start, increment, length", "coordinates"], "for every axis and every coordinate value",
 "Boundary values, negative longitudes and the dateline are single points among all reals.",
 ["src/eustace/satgrid/grid.py", "src/eustace/satgrid_iris/gridbin/gridfieldlist.py", "src/eustace/satgrid_iris/gridbin/gridbin.py", "src/eustace/analysis/diagnosticgrid.py"],
 [("GridAxis.compute_indices", "src/eustace/satgrid/grid.py"), ("GridFieldAxis.compute_indices", "src/eustace/satgrid_iris/gridbin/gridfieldlist.py")], "axis description", "computed indices")

prop("P08", "Gridded satellite statistics equal the statistics of the cell's observations",
 "After any sequence of observations and files has been aggregated, each cell's count, sum, mean, minimum, maximum and sampling spread equal those of exactly the unmasked observations assigned to that cell, and the propagated uncertainties are, of those observations' uncertainties, the root sum of squares divided by the count (random) and the root mean square (locally correlated and systematic). The result does not depend on how observations were split into files or batches, cells without observations are reported as missing with count zero, and no other cell changes.",
 ["observation sequences", "splits into files", "masks"], "for every sequence of observations, cell assignments and masks",
 "Running aggregates must be right after every prefix; tests feed a few values.",
 ["src/eustace/satgrid/aggregate.c", "src/eustace/satgrid/aggregate_grid.py", "src/eustace/satgrid_iris/gridbin/operation/count.pyx", "src/eustace/satgrid_iris/gridbin/operation/sumcountmaxmin.pyx", "src/eustace/satgrid_iris/gridbin/operation/sumsq.pyx", "src/eustace/satgrid_iris/gridbin/operation/sumsqdev.pyx", "src/eustace/satgrid_iris/gridbin/gridbin.py"],
 [("aggregate_count/sum/min/max/dev-sq", "src/eustace/satgrid/aggregate.c"), ("operation.run", "src/eustace/satgrid_iris/gridbin/operation/*.pyx")], "per-cell accumulators", "gridded output fields")

prop("P09", "Observation sets stay aligned: combining and reading loses or misplaces nothing",
 "Appending one set of observations to another keeps every observation of both, in order, each with its validity, value, location (the second's shifted by the offset given) and every uncertainty component, and is refused for different times or numbers of components. The mean of two sets has exactly their common locations, is valid where both are, and gives the mean of values and the root mean square of each uncertainty component; sets that differ in time or in the order of common locations are refused. Break-point policies and station filters keep exactly the break points that satisfy them, each with its own time, station and likelihood. Reading a source (in-situ land stations, in-situ ocean records, lake readings, gridded satellite files and the joined ice hemispheres) gives, for every station, record or grid box of what was asked for, its own coordinates, time, value and uncertainty, and marks as invalid exactly those that are missing, fail quality control when that was requested, are held out, or have no known elevation when heights are adjusted for. Preparing a day passes the requested options to the source and is refused when the source's coordinates differ from those of the reference location table.",
 ["observation sets", "masks", "station and grid file contents", "hold-out lists", "quality-control flags"], "for every two observation sets, every source content, mask, flag and option",
 "Array alignment mistakes show only when sizes, masks, flags or location tables differ in particular ways.",
 ["src/eustace/analysis/observationsource.py", "src/eustace/analysis/fileio/observationsource_missing.py", "src/eustace/preprocess/fileio/insitu_land.py", "src/eustace/preprocess/fileio/insitu_land_breakpoints.py", "src/eustace/preprocess/fileio/insitu_ocean.py", "src/eustace/preprocess/fileio/height_adjustment.py", "src/eustace/surfaceairmodel/fileio/cubemap.py", "src/eustace/surfaceairmodel/fileio/ice.py", "src/eustace/surfaceairmodel/fileio/lake.py", "src/eustace/analysis/preparedailyfixed.py"],
 [("Observations.append / mean, ObservationsBreakPoints", "src/eustace/analysis/observationsource.py"), ("ObservationSourceInsituLand.observations", "src/eustace/preprocess/fileio/insitu_land.py"), ("ObservationSourceCubeMapGrid.observations", "src/eustace/surfaceairmodel/fileio/cubemap.py"), ("run_day", "src/eustace/analysis/preparedailyfixed.py")], "observation arrays", "resulting observation arrays")

prop("P10", "Raw binary observation files return exactly what was written",
 "A day of observations written to the raw binary store holds exactly the valid observations whose time falls on that day, in order, and reading it back gives their location identifiers, values, uncorrelated uncertainty and every correlated component bit for bit, none marked invalid; counting a file gives the number of its observations. Location tables (with their identity) and local correlation ranges read back bit for bit. For each location the pointer table lists the day and the byte position of the value of every observation at that location, in the order the days were given. A file with another format identifier, observations or pointers belonging to another location table, or a location outside the table are refused and not interpreted as data. File names are determined by source, observable and day, and counts over a date range include both ends, treating absent files as missing days and not as zero.",
 ["observation arrays", "location tables", "file contents"], "for every array content and every file content",
 "Tests write one small file; layout or filtering errors depend on masks, counts and identifiers.",
 ["src/eustace/analysis/fileio/observationsource_rawbinary.py", "src/eustace/analysis/fileio/locationpointers.py", "src/eustace/analysis/obscount.py", "src/eustace/analysis/preparelocationpointers.py", "src/eustace/analysis/preparelocationlookup.py", "src/eustace/analysis/preparecorrelationranges.py", "src/eustace/analysis/preparedailymobile.py"],
 [("ObservationRawBinaryWriter/Reader", "src/eustace/analysis/fileio/observationsource_rawbinary.py"), ("LocationPointersRawBinaryWriter/Reader", "src/eustace/analysis/fileio/locationpointers.py"), ("ObsCounter", "src/eustace/analysis/obscount.py")], "file bytes", "values read back")

prop("P11", "Diagnostic grids summarise exactly the observations in each cell",
 "Each cell of a diagnostic grid holds, for each source and observable, the number of valid observations of that day that fall in it, the minima and maxima of their values and of their uncertainties, the sum of values divided by uncertainty, the sum of inverse uncertainties and their quotient as weighted mean, whatever the order or number of batches in which observations were added. Observations of another day or masked ones never count, and cells never touched stay empty.",
 ["observation sequences"], "for every sequence of observations",
 "Running minima/maxima and mixed-up quantities agree with correct code on many inputs.",
 ["src/eustace/analysis/diagnosticgrid.py", "src/eustace/analysis/diagnosticgrid_aggregate.pyx"],
 [("DiagnosticGridObservationConnector, DiagnosticGridInput, aggregate", "src/eustace/analysis/diagnosticgrid.py")], "grid accumulators", "grid fields")

prop("P12", "Mesh location gives barycentric weights of the containing triangle",
 "Any direction on the sphere is located in a triangle of the subdivided icosahedron that contains it, whichever search (exhaustive or hierarchical) and weight method is used, and its (planar) interpolation weights are non-negative, sum to one and reproduce the point: the weighted vertices lie along the query direction. Subdividing a triangle gives four triangles with the same orientation that exactly cover it, vertices on shared edges are shared and not duplicated, and parent/child numbering is consistent between levels.",
 ["subdivision levels", "directions"], "for every level and every point of the sphere",
 "Tests locate a few points; edges, vertices and numbering at deeper levels are not sampled.",
 ["src/eustace/analysis/mesh/mesh.py", "src/eustace/analysis/mesh/geometry.py", "src/eustace/analysis/mesh/locator.py", "src/eustace/analysis/mesh/locator_search_planes.pyx"],
 [("MeshIcosahedronSubdivision", "src/eustace/analysis/mesh/mesh.py"), ("TriangleLocator", "src/eustace/analysis/mesh/locator.py")], "mesh points and triangles", "triangle numbers and weights")

prop("P13", "Surface-air models use only acceptable input and report its uncertainty",
 "The ice surface-to-air model gives a value only where every required input (temperature and all three uncertainties) is present, the cell has land ice or sea ice and the temperature passes quality control (standard deviation, value, observation counts, bin comparison, cloud outliers among accepted neighbours), and masks it elsewhere. Hemisphere- and surface-dependent coefficients are applied exactly in their own region, the output is the documented linear combination of its inputs, each uncertainty component is the propagation of the corresponding input component, and total uncertainty (with and without cloud) is the root sum of squares of its components. Global fields hold each hemisphere's rows at their own latitudes and are masked between; inputs that do not fit together are refused. The land model is configured, day by day, with that day's own inputs, output and date.",
 ["input fields", "masks"], "for every input field, mask and location",
 "Tests use one small field; mask combinations and region boundaries are not enumerated.",
 ["src/eustace/surfaceairmodel/model_ice.py", "src/eustace/surfaceairmodel/model_ice_input_processing.py", "src/eustace/surfaceairmodel/model_land.py"],
 [("ModelIce, ModelIceProcessor, ModelIceObservableProcessor", "src/eustace/surfaceairmodel/model_ice.py"), ("IceSurfaceTemperatureQualityControl", "src/eustace/surfaceairmodel/model_ice_input_processing.py")], "input masks", "model output fields")

prop("P14", "Quality flags: each check sets exactly its own bit, exactly when it should",
 "Each post-processing check (missing data, thresholds on uncertainty and influence, spatial and temporal windows, calendar, location, extremes, persistent outliers) sets its own flag bit at exactly the grid cells and times where its documented condition holds, and leaves every other bit as it was. Merging flag sets keeps every flag of both (except that a second set's areal-low bit, known to have been written for cells without marine data, is moved to the missing-marine bit), repeated application changes nothing, and the final mask hides exactly the cells whose flags meet the masking rule while leaving the values elsewhere unchanged.",
 ["flag fields", "analysis fields", "masks"], "for every flag value, field value, mask and threshold",
 "Flags are 16-bit words combined from many checks; tests sample a few words and cells.",
 ["src/eustace/postprocess/flags.py", "src/eustace/postprocess/threshold_check.py", "src/eustace/postprocess/window_check.py", "src/eustace/postprocess/calendar_check.py", "src/eustace/postprocess/outlier_check.py", "src/eustace/postprocess/outlier_window_check.py", "src/eustace/postprocess/apply_mask.py", "src/eustace/postprocess/merge_flag_files.py"],
 [("apply_*_check, compute_mask, merge", "src/eustace/postprocess/*.py")], "flag words", "output flag words and masks")

prop("P15", "Each analysis update is the exact Gaussian update by the observations",
 "For every model component, folding observations into the solution adds exactly the transposed design times observation precision times design to the precision, and the transposed design times observation precision times (observation minus the other components' current estimate, and for a nonlinear component also minus its own value at the linearisation point) to the information vector, once per observation set. The stored state solves the resulting system (added to the linearisation point for a nonlinear component). Stored samples are independent draws about that solution with the inverse of the solved system's precision as covariance (of the prior's precision for prior samples). Observation sets contribute additively whatever their order or grouping into time steps, the estimate of a linear component itself is never subtracted, and mismatched time steps are refused. Whatever a component stores for a time step (state, deviations, samples, accumulated updates), in memory or in files, is read back unchanged for that same step, and other steps do not see it.",
 ["designs", "observations", "update histories"], "for every design, observation set, component list and sequence of updates",
 "A wrong term cancels or is small in the tests' tiny systems; the state machine's histories are unbounded.",
 ["src/eustace/analysis/advanced_standard/analysissystem.py", "src/eustace/analysis/advanced_standard/components/spatial.py", "src/eustace/analysis/advanced_standard/components/spacetime.py", "src/eustace/analysis/advanced_standard/linalg/linearsystem.py", "src/eustace/analysis/advanced_standard/elements/element.py", "src/eustace/analysis/advanced_standard/elements/combination.py"],
 [("MeasurementUpdate.create/append_measurement", "src/eustace/analysis/advanced_standard/linalg/linearsystem.py"), ("process_observations, update_time_step, update", "src/eustace/analysis/advanced_standard/components/*.py")], "accumulated updates, stored state", "precision and information passed to the solver; solution state")

prop("P16", "Prior precisions are symmetric and their derivatives are true derivatives",
 "For every prior (spherical mesh, lattice, space-time product, seasonal, covariate, bias and combinations), the precision matrix is symmetric and is the one its hyperparameters specify, and the matrix given as derivative with respect to a hyperparameter is the derivative of that precision matrix. Combined models place each element's parameters, precision blocks, design columns and derivatives in that element's own block and zero elsewhere. The mass, stiffness and precision matrices of a view of part of the sphere are those of the mesh made of its own triangles.",
 ["hyperparameters", "meshes", "element lists"], "for every hyperparameter value and every list of elements",
 "Finite-difference tests at one hyperparameter value do not fix the dependence on every parameter.",
 ["src/eustace/analysis/advanced_standard/stats/spde/spherical.py", "src/eustace/analysis/advanced_standard/stats/spde/lattice.py", "src/eustace/analysis/advanced_standard/elements/combination.py", "src/eustace/analysis/advanced_standard/elements/kronecker.py", "src/eustace/analysis/advanced_standard/elements/seasonal.py", "src/eustace/analysis/advanced_standard/elements/covariate.py"],
 [("build_Q*/build_dQdp*", "src/eustace/analysis/advanced_standard/stats/spde/*.py"), ("prior_precision, prior_precision_derivative", "src/eustace/analysis/advanced_standard/elements/*.py")], "hyperparameters", "precision and derivative matrices")

prop("P17", "Analysis outputs are the sum of components with combined uncertainty",
 "The analysed value at each output location is the sum of the expected values of all model components there, the reported uncertainty is the root sum of squares of the component uncertainties, and the climatology fraction is the proportion of variance as documented. Splitting the output locations into blocks or changing the order of components does not change the result, and each output row belongs to its own location.",
 ["components", "output locations", "block sizes"], "for every set of components, output location list and block size",
 "Tests use one block and few components.",
 ["src/eustace/analysis/advanced_standard/analysissystem.py", "src/eustace/analysis/advanced_standard/fileio/output_projector.py", "src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py"],
 [("evaluate_*", "src/eustace/analysis/advanced_standard/analysissystem.py"), ("Projector.project_*", "src/eustace/analysis/advanced_standard/fileio/output_projector.py")], "component solutions", "output arrays")

prop("P18", "Observations enter the analysis with their own location, precision and bias",
 "The analysis is given exactly the valid observations of a source, in order: each with its value, the coordinates of its own location (longitudes of 180 and above counted westwards, as 360 less), and a diagonal precision of one over the square of its uncorrelated uncertainty. The bias effect of a source group applies only when all the observations come from that source; global satellite effects link every valid observation with the one bias, hemispheric ones with the first or, south of the equator, the second. With a break-point table listed by station and time, each in-situ land observation of a day is linked with its own station's first break point later than that day, and with none when no later one exists; the bias design matrix has a one exactly at these links, with one column per break point kept by the likelihood policy. Unknown effect groups are refused.",
 ["observation sets", "masks", "breakpoint tables"], "for every observation set, mask, location table and break-point table",
 "Misalignment between masked and unmasked indexing appears only for particular masks.",
 ["src/eustace/analysis/advanced_standard/fileio/observation_structure_source_connector.py", "src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py", "src/eustace/analysis/advanced_standard/elements/bias_insitu_land.py"],
 [("ObservationStructureSourceConnector", "src/eustace/analysis/advanced_standard/fileio/observation_structure_source_connector.py"), ("insitu_land_covariate_effect", "src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py"), ("InsituLandBiasDesign", "src/eustace/analysis/advanced_standard/elements/bias_insitu_land.py")], "none", "observation structure passed to components")

prop("P19", "Model elements evaluate the state at each observation's own place and time",
 "Every model element predicts each observation from the state at that observation's own place and time. Lattice weights are the basis function of every node at the location, distances counted round the circle where a dimension wraps; nodes are evenly spaced with the first dimension running fastest. Weights on the sphere are the barycentric weights of the corners of the one triangle that holds the location: they are not negative, sum to one, and every other weight is zero. A view of part of the sphere gives the weights of the whole sphere for locations inside its triangles (a super triangle, or a triangle and those that share a corner with it, at any coarser level) and zero elsewhere, with one column for each of their vertices in increasing order. Space-time elements multiply the temporal weights at the time of the observations (day number, decimal year, or harmonics of the time of year) with the spatial weights, time major; gridded covariates are interpolated bilinearly with circular longitudes; covariates listed in a descriptor are paired with their own hyperparameters. A linear element's function is its design matrix times the state, a nonlinear one's Jacobian is the true derivative, and the row of an observation does not depend on the other observations.",
 ["locations", "times", "meshes and lattices", "states"], "for every location and time, every mesh level and lattice, and every state",
 "Tests evaluate a few interior points; circular wrapping, cell and triangle boundaries, poles, the date line and partly covered views are particular places.",
 ["src/eustace/analysis/advanced_standard/stats/spde/lattice.py", "src/eustace/analysis/advanced_standard/stats/spde/spherical.py", "src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py", "src/eustace/analysis/advanced_standard/elements/geography_based.py", "src/eustace/analysis/advanced_standard/elements/seasonal.py", "src/eustace/analysis/advanced_standard/elements/kronecker.py", "src/eustace/analysis/advanced_standard/elements/kronecker_annual.py", "src/eustace/analysis/advanced_standard/elements/factor.py", "src/eustace/analysis/advanced_standard/elements/covariate.py"],
 [("build_A, locate_nearby_basis_indices", "src/eustace/analysis/advanced_standard/stats/spde/*.py"), ("design_matrix, design_function, design_jacobian", "src/eustace/analysis/advanced_standard/elements/*.py"), ("bilinear_interpolation", "src/eustace/analysis/advanced_standard/elements/geography_based.py")], "model state vector", "design matrices and predicted observations")

prop("P20", "Hyperparameters are estimated by the marginal likelihood of the observations",
 "The cost minimised for a component's hyperparameters is the negative log marginal likelihood of its observations under the component's Gaussian prior, up to an amount that does not depend on the hyperparameters, whatever the set point; time steps are independent replicates whose costs add, each with its own observations, prior mean and set point. The gradient given to the optimiser is the true derivative of that cost with respect to every hyperparameter. The partial inverse of a sparse precision equals its inverse wherever the precision is nonzero, so traces against precision derivatives and marginal variances are exact. The optimiser starts from the current values, evaluates the component's prior at the values it tries, records its path, and its result replaces the current values only if it converged; otherwise they are as before. Estimates of overlapping local regions are merged vertex by vertex with equal weight over the regions that contain the vertex, in any order of accumulation and for either method of averaging. Expanded and combined hyperparameters survive saving and loading, and the inputs described for a day are those used at that day's time index.",
 ["precisions and derivatives", "observations", "set points", "numbers of replicates and parameters", "sets of regions"], "for every prior precision and its derivatives, any number of replicates and any set point, every sparsity pattern and every set of local regions",
 "Tests evaluate one small model at one set point; a gradient wrong in one term, an element missing from one sparsity pattern or a region counted twice shows up only for particular patterns and values.",
 ["src/eustace/analysis/advanced_standard/linalg/costfunction.py", "src/eustace/analysis/advanced_standard/linalg/qinv.pyx", "src/eustace/analysis/advanced_standard/linalg/sparse.py", "src/eustace/analysis/advanced_standard/linalg/optimize.py", "src/eustace/analysis/advanced_standard/components/spatialdelayed.py", "src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py", "src/eustace/analysis/advanced_standard/elements/local_view.py", "src/eustace/analysis/advanced_standard/optimizationsystem.py", "src/eustace/analysis/advanced_standard/fileio/optimization_inputs.py"],
 [("cost_function, cost_derivative", "src/eustace/analysis/advanced_standard/linalg/costfunction.py"), ("Q_inv", "src/eustace/analysis/advanced_standard/linalg/qinv.pyx"), ("DelayedSpatialComponentSolution.optimize", "src/eustace/analysis/advanced_standard/components/spatialdelayed.py"), ("merge_local_parameterisations, accumulate_local_parameterisations, finalise_local_parameterisation_*", "src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py")], "component hyperparameters", "cost, gradient, estimated and merged hyperparameters")

prop("P21", "Daily surface-air products keep each source's values and carry uncertainty",
 "A daily surface-air product holds the fields of its own day's model output under their published names: ocean temperatures in kelvin, total uncertainty the root of the sum of the squares of its own components, missing exactly where a component is missing. Land cells whose minimum temperature exceeds their maximum are removed from the extremes, their uncertainties and every ancillary field, and counted; no other cell changes. Merging the sources of a day gives, at each cell, the mean of the sources that have a value there; its uncertainty is the propagation of their uncertainties with the given correlation of each pair of sources, divided by the number of sources that have a value; cells without any source are missing. The sources' own fields are kept beside it, under their labels, and the source files are removed only after a successful merge. Sources without files are dropped together with the correlations of every pair they belong to; a single source is kept unchanged under the product's name. Sources of different dates, main and ancillary files that do not belong together, and products under unexpected names are refused.",
 ["model output fields", "masks", "sets of sources", "correlations"], "for every field, pattern of gaps, set of available sources and correlation of each pair",
 "Tests merge one or two complete sources; gaps in one source only, sources missing from a longer list, and cells where land extremes cross are particular inputs.",
 ["src/eustace/outputformats/filesmerger.py", "src/eustace/outputformats/merge_multiple_outputs.py", "src/eustace/surfaceairmodel/fileio/remap.py", "src/eustace/surfaceairmodel/fileio/post_processing.py", "src/eustace/surfaceairmodel/fileio/consistent.py", "src/eustace/surfaceairmodel/correlation_ranges.py", "src/eustace/surfaceairmodel/run_land.py", "src/eustace/surfaceairmodel/run_ocean.py"],
 [("FilesMerger, clean_list_of_outputs_to_merge", "src/eustace/outputformats/filesmerger.py"), ("merge_single_day_outputs", "src/eustace/outputformats/merge_multiple_outputs.py"), ("apply_land_post_processing", "src/eustace/surfaceairmodel/fileio/post_processing.py"), ("RemapNetCDFSpecTotalUncertainty, RemapNetCDFSpecCopy", "src/eustace/surfaceairmodel/fileio/remap.py"), ("run_day, run_multiple_days", "src/eustace/surfaceairmodel/run_*.py")], "source files", "product files")

prop("P22", "Output files hold the fields, axes and descriptions they were given",
 "A file written through the output builders holds, for every variable it is given, all values to within half of the variable's packing step and a gap exactly where the given field has one, under the variable's name, type, dimensions and fill value, with every item of its metadata and no other, compressed exactly when a level is asked for; axes are stored in full, unlimited when asked. A variable made from a template has the template's metadata, a long name with its keywords filled in, and every other keyword as metadata, and leaves the template unchanged. A global daily field has the centres of the grid cells as latitudes (south to north) and longitudes (west to east), the local time offset of each longitude, its day and the bounds to the next day, and is placed under its year with its variable, collection and date in its name; missing parent folders are made and existing ones kept. Published temperatures, uncertainties, fractions, ensembles and perturbations can be stored over their whole physical range. Aggregated satellite fields are stored with gaps exactly where they are flagged invalid and with their counts unchanged. Station files hold each temperature sample at its own time and station and nowhere else, and each break and detection quality in the order given. The verifier passes a file exactly when it opens and its attributes, known variables and dimensions agree with the specification, reports each check, and passes the files the builders write.",
 ["fields", "masks", "variables and templates", "grids", "station records", "files to verify"], "for every field, pattern of gaps, variable, grid size, day, set of station records and file under verification",
 "Tests write a few fixed fields; gaps, compression, unlimited axes, extreme values and irregular station records are particular inputs.",
 ["src/eustace/outputformats/filebuilder.py", "src/eustace/outputformats/outputvariable.py", "src/eustace/outputformats/definitions.py", "src/eustace/outputformats/globalfield_filebuilder.py", "src/eustace/outputformats/ensuredirectory.py", "src/eustace/satgrid/filebuilder.py", "src/eustace/outputformats/stationdata.py", "src/eustace/outputformats/stations.py", "src/eustace/outputformats/verify/verify.py"],
 [("FileBuilder.add_variable, add_dimension_and_variable", "src/eustace/outputformats/filebuilder.py"), ("OutputVariable.from_template, OutputVariableTemplate.extend", "src/eustace/outputformats/outputvariable.py"), ("FileBuilderGlobalField, DatasetAttributesGlobalField", "src/eustace/outputformats/globalfield_filebuilder.py"), ("FileBuilderAggregateField", "src/eustace/satgrid/filebuilder.py"), ("StationData, FileBuilderStationData", "src/eustace/outputformats/stations.py"), ("Verifier", "src/eustace/outputformats/verify/verify.py")], "fields and descriptions given", "files written, verdicts")

prop("P23", "The generated plan of the iterated analysis is ordered, complete and current",
 "The plan generator (the single and the batch form) writes, for every number of iterations of at least one, and for any names, dates and bias settings, a catalogue of operations such that: each iteration is the climatology measurement, the climatology solution, the large-scale measurement, the large-scale solution and the local analysis, in this order, and gridding comes once, after the last iteration. A measurement operation and the local analysis read the newest state of every other component: that of the same iteration for components solved before it, that of the previous iteration for those solved after it, and none of the latter in the first iteration; a solution reads the measurements of its own component and iteration. Samples and prior samples are drawn and stored in the last iteration only (in batch plans the prior samples of the two space-time components by operations of their own), and gridding reads states, samples and prior samples of the last iteration of all three components and writes the output and its three component fields. Every dataset read was written by an earlier operation (observation inputs apart), every dataset is created by the one operation that writes it, under a name and file pattern no other dataset has, and operation names are distinct. Every operation carries the period, the bias settings and the rest of its template, only the known observation sources, exactly the parameters (empty ones apart) of the function it names, and storage descriptions its storage class accepts; templates stay unchanged. A plan of no iterations is refused; the completeness check raises exactly when some item, at any depth, is empty. In the restartable form the first iteration reads the states of the iteration before it, and without gridding no samples are drawn.",
 ["numbers of iterations", "names", "templates with foreign sources", "bias settings"], "for every number of iterations, iteration, component, set of names, period and bias setting",
 "The tests build single operations of a three-iteration plan; which iteration an operation refers to matters for every position in every plan, and no test follows a dataset from its writer to its readers.",
 ["src/eumopps/catalogue/jsonfiller.py", "src/eustace/analysis/advanced_standard/examples/jsonfiller.py", "src/roses/fullstace/advanced_standard/templates/advstd_operation_template.json"],
 [("FullstaceJsonFiller", "src/eumopps/catalogue/jsonfiller.py"), ("fill_secondary_keys, fill_secondary_keys_batch", "src/eumopps/catalogue/jsonfiller.py"), ("fill_output_gridding, fill_batch_output_gridding", "src/eumopps/catalogue/jsonfiller.py"), ("fill_descriptor, fill_batch_descriptor", "src/eumopps/catalogue/jsonfiller.py")], "templates and settings", "operation descriptors")

prop("P24", "Results come from the recorded, clean code; the catalogue describes file bytes",
 "The version of a package is the revision number of the directory it was loaded from when that working copy is clean (written R and at least six digits); a modified, mixed, switched or unversioned copy is refused, or named UNVERSIONED when unversioned code was explicitly allowed, and never named as a revision. The code of an operation is the list of versions of the system followed by those of the package its function or module belongs to, as they are at that moment. Building a catalogue records this list with every operation and the versions of the system with every dataset searched, and writes nothing if the code is refused; a catalogue that exists is left as it was unless an update (which keeps what it holds and adds) or overwriting was asked for. An operation is run only if the list recorded in the catalogue is exactly the present one, or if a mismatch was explicitly allowed; otherwise nothing is run. Running an operation calls its function once with exactly its own parameters. The checksum (POSIX cksum) and size recorded for a file are those of the bytes of the file of that name in the dataset's directory at that time; a file that is not there has neither.",
 ["states of the working copy", "version lists", "file contents and names"], "for every state of the working copies, list of versions at build and at run, and content and name of a file",
 "Tests look at one revision text of each kind and one fixed file; that no result is made with other code than the recorded one is about every later state of the code.",
 ["src/eumopps/version/svn.py", "src/eumopps/version/codepath.py", "src/eumopps/toolchain.py", "src/eustace/toolchain.py", "src/eumopps/catalogue/operation.py", "src/eumopps/catalogue/commandrun.py", "src/eumopps/catalogue/build.py", "src/eumopps/catalogue/checksum.py", "src/eumopps/catalogue/dataset.py"],
 [("get_revision_id, parse_revision_string", "src/eumopps/version/svn.py"), ("Operation.current_runtime_toolchain, Operation.run", "src/eumopps/catalogue/operation.py"), ("commandrun", "src/eumopps/catalogue/commandrun.py"), ("build", "src/eumopps/catalogue/build.py"), ("Checksum", "src/eumopps/catalogue/checksum.py")], "states of the code, catalogues, files", "versions recorded, runs allowed and refused, checksums")

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
