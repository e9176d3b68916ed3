"""The properties: source of properties.jsonl and of the checks of MANIFEST.json (python3 gen/gen.py)."""
IO = "harmonisation_eiv/harmonisation/core/matchup/matchupIO/"
PROC = "harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/"
TB = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/"
RD = IO + "MatchUpReader.py"

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, note, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quantifier},
              "why_tests_cant": why, "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                                                 "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                                                 "observe_at": list(observe), "hook_needed": None}, "note": note})


prop("P01", "One-dimensional layout of an opened match-up dataset is an exact bijection",
     "Opening a match-up dataset stores every sensor value of every file at exactly one position of one flat array, in "
     "blocks ordered by variable number, then match-up series, then the two sensors of the series, and nothing else. The "
     "published index (sensors in order of first appearance, their numbers of variables, the pair of each series, match-up "
     "numbers and their running totals, and each block's sensor, series, variable, length and bounds) describes exactly that "
     "layout. Series follow the sorted .nc files of a directory, or of each directory of a list in the order given, or a list of "
     "files in the order given.",
     ["inputs", "configurations"], "every set of files: any number of series, sensors, variables per sensor, match-ups, sharing of "
     "sensors between series and sides, and every way to name the files (file, directory, list of files, list of directories)",
     "The tests open two fixed datasets and compare most index lists without regard to order; the layout must hold for every "
     "combination of series, sensors and variable numbers, also sensors that appear on either side or with fewer variables.",
     [RD], [("index construction", RD + ": get_idx_*_from_nc_datasets"), ("copy", RD + ": open_values_from_nc_datasets"),
            ("file order", RD + ": open_nc_datasets")],
     "TLC: the reading machine (MatchupMC) builds the layout by loops for every dataset within the bounds and agrees with the "
     "declarative Matchup; real datasets of those shapes and larger random ones are opened by the code and each recorded index and "
     "value array is judged by TLC. Assumes netCDF4/numpy; sensor names have one number of variables.",
     [("values", "flat array of sensor values", RD), ("idx", "description of the blocks", RD)], ["open_matchup"])

prop("P02", "Match-up data are read without loss, shift or mixing",
     "Values, adjustment factors, the times (to the second they are in) and the scan indices of both sensors and every additional per-match-up variable of the "
     "opened dataset equal those of the files, each at the position of its match-up series and match-up. A file that lacks a scan "
     "index or an additional variable that another file has is not-a-number there, as are fill values (masked, or -1e30) of additional variables; "
     "quantities that no file has, or that were not asked for, are absent.",
     ["inputs", "configurations"], "every dataset, with any subset of optional variables present in each file, and every choice of "
     "opening uncertainties and additional values",
     "Tests read two fixed datasets that hold nearly the same optional variables in each file; which optional variables are present "
     "where, and the offsets of each series, range over all combinations.",
     [RD], [("data", RD + ": open_values/ks/time/optional_index/additional_values_from_nc_datasets")],
     "As P01: every opened object is compared in TLC with the recorded file contents, element by element.",
     (), ["open_matchup"])

prop("P03", "Error structure of every variable is carried over exactly",
     "Each variable of each series opens with the error structure its file states: independent, independent and systematic, "
     "structured by a weight and an uncertainty matrix, or structured and systematic, with exactly the uncertainties and matrices of "
     "the file. Two variables share a weight (uncertainty) matrix exactly if they belong to one series and name the same matrix, and "
     "share a systematic effect exactly if they are the same variable of the same sensor. Adjustment uncertainty is the root sum of "
     "squares of the random and systematic parts.",
     ["inputs"], "every assignment of the four error structures to variables, every use of matrices by the variables of a file, any "
     "number of match-ups including one",
     "Tests cover one fixed assignment with two weight matrices; sharing across variables, series and sensors is combinatorial.",
     [RD, IO + "Uncertainty.py"], [("uncertainties", RD + ": open_unc_from_nc_datasets"), ("matrix use", RD + ": open_matrix_idxs_from_nc_datasets"),
                                 ("matrices", RD + ": _open_w_matrix, _open_u_matrix")],
     "As P01; matrices are compared as dense integer matrices, adjustment uncertainty by its square.", (), ["open_matchup"])

prop("P04", "Queries of an opened dataset and attached sensor data answer for the right data",
     "A query for a variable, its extremes, an additional variable and its extremes, the times or the scan indices of a sensor in a series returns "
     "exactly that sensor's data of that series, and fails for a sensor that is not part of the series. The printed dataset states its sensors, numbers of match-ups, "
     "series and values, and per series its sensors, size, values and K (from ten match-ups the first three and the last) and uncertainty types. Attaching sensor data gives "
     "the parameters and constants of the sensors that the dataset has, each labelled with its sensor, and for each sensor of the "
     "dataset, in its order, its own sensor function and its own adjustment function or else the identity. A dataset closed, or left with its block, keeps none of its data.",
     ["inputs", "histories"], "every dataset, every query, every sensor description (order, sensors not in the dataset, numbers of "
     "parameters and constants), attached on opening or later",
     "Tests make one query each and describe exactly the sensors of the dataset, in order.",
     [IO + "MatchUp.py", RD], [("queries", IO + "MatchUp.py: get*"), ("sensor data", RD + ": extract_sensor_data")],
     "As P01: queries are recorded events judged against the dataset the specification holds.", (), ["MatchUp.get*", "MatchUp.setSensorData"])

TO = "tools/"
prop("P05", "A written match-up file holds exactly the data handed over",
     "The match-up writers store every variable, attribute and dimension they are given, and every additional variable with its description, unchanged "
     "in value, type, dimensions and orientation, and nothing else; the data of sensor 1 and 2 are not exchanged. A file so written "
     "is a match-up file of the documented format.",
     ["inputs"], "all arrays of any shape (one match-up, one variable, different numbers of variables per sensor), any values that a "
     "double holds, any set of additional variables of any type and dimensions, both writers",
     "Tests write one file with one set of arrays and read it back with few digits; precision, shapes and additional variables vary.",
     [IO + "MatchUpWriter.py", TO + "W_matrix_functions.py"], [("writers", IO + "MatchUpWriter.py: write_input_file; " + TO +
      "W_matrix_functions.py: write_input_file")],
     "The specification of a file (WFiles, Checker.Required) is compared by TLC with the dump of the file. Values are integers on a "
     "2^-20 grid that need up to 29 bits. Assumes netCDF4.", (), ["write_input_file"])

prop("P06", "Weight and uncertainty matrices survive being stored in a match-up file",
     "Storing any list of sparse weight matrices and uncertainty diagonals in a match-up file, in the concatenated form of the "
     "format, and reading it with the match-up reader gives for each variable exactly the matrix and the diagonal that its use "
     "indices name; what the file held before is unchanged.",
     ["inputs"], "any number of weight matrices and diagonals, any sparsity, any use by the variables of the two sensors including "
     "none and shared use",
     "Tests store fixed matrices with equal sizes; offsets into the concatenated arrays depend on all sizes before.",
     [TO + "W_matrix_functions.py", RD], [("serialise", TO + "W_matrix_functions.py: return_w_matrix_variables, append_W_to_input_file"),
                                         ("read", RD + ": _open_w_matrix, _open_u_matrix")],
     "TLC: the machine that concatenates (WFilesMC) agrees with Serial and inverts it, for all lists within the bounds; real "
     "arrays, files and reads of those lists and random ones are judged against Serial.", (), ["return_w_matrix_variables", "append_W_to_input_file", "open_matchup"])

prop("P07", "The input checker accepts exactly the files that obey the format",
     "The input file checker passes a file if and only if it obeys every rule of the format: required variables, their dimensions "
     "and types; two different sensor names; dimensions that agree with the matrix variables; uncertainties of the match-up and of "
     "each variable not negative, with a positive match-up uncertainty; matrices numbered from one in use, used in pairs, of agreeing "
     "sizes, with positive uncertainties and indices not negative; and each variable with exactly one error structure, the one that "
     "its type names. A file that breaks a rule is reported by the group of checks that the rule belongs to.",
     ["inputs"], "every well-formed file and every combination of departures from the rules",
     "Tests try each rule once on one file; the rules are quantified over variables, columns, match-ups and matrices of two sensors.",
     [TO + "harmonisation_input_checker.py"], [("rules", TO + "harmonisation_input_checker.py: check_*"), ("verdict", "main")],
     "The rules are stated declaratively (Checker.tla); files with random departures are judged by the checker and by TLC. Group "
     "functions that do not exist are skipped; files whose parts do not fit together may also make the checker raise.", (), ["harmonisation_input_checker.main"])

prop("P08", "A sample of match-ups is independent, aligned and as large as asked for",
     "Sampling keeps, of each match-up series, different match-ups of which no two share a scan line of any weight matrix of the "
     "series, no more than the sampling factor or the maximum number of samples allows, and fewer only where no further match-up is "
     "independent of those kept. Values, random uncertainties, adjustment factors and their uncertainties, times and scan indices of a "
     "sample are those of the same match-ups; a structured variable gets the root mean square of the uncertainties of its scan lines. "
     "Every variable's error is then independent. The index describes the sample; models, parameters and constants are handed on "
     "and the input is unchanged.",
     ["inputs"], "all datasets, weight matrices (any overlap and order of rows), sampling factors, sample limits and random choices",
     "Tests use three fixed datasets with one overlap pattern and compare with fixed expected indices; the independence claim is "
     "quantified over all overlap patterns of several matrices at once and over random choices.",
     [PROC + "sample2ind/Sample2Ind.py", PROC + "sample2ind/cython_lib_sample2ind.pyx"],
     [("choice", PROC + "sample2ind/Sample2Ind.py: run"), ("greedy choice", PROC + "sample2ind/")],
     "TLC: the greedy machine is independent and maximal for all matrices within the bounds; recorded samples are judged by "
     "Independent, Maximal, Pick and Variance. Additional variables are not sampled (documented as unfinished).",
     (), ["Sample2Ind.run"])

prop("P09", "The change to normalised independent variables keeps the data and can be undone",
     "Each value with independent error becomes the value divided by its uncertainty; each structured variable becomes one value per "
     "scan line such that weights applied to lines times their uncertainties give back the values, lines that a match-up is first to "
     "use being alike; one zero per systematic effect follows; adjustment factors are divided by their uncertainty. The way back, from "
     "any values of the variables, multiplies by the uncertainties, adds the systematic effect of the variable's number times its "
     "uncertainty and applies the weights. Both directions publish an index that describes their layout, hand on models, parameters, "
     "constants, scan indices and times, leave the input as it was, and together give back what was put in.",
     ["inputs"], "all datasets of any mix of error structures, shared matrices, any weights, and any values of the transformed variables",
     "Tests use a single dataset; the settling of overlapping windows and the numbering of systematic effects depend on the mix of "
     "structures and the order of rows.",
     [PROC + "transform2normind/Transform2NormInd.py"],
     [("forward", PROC + "transform2normind/Transform2NormInd.py: run"), ("back", PROC + "transform2normind/Transform2NormInd.py: reverse")],
     "TLC: settling then applying the weights is the identity for all windows within the bounds; recorded transformations of datasets "
     "whose numbers are exact in binary are judged by Settled, Back, NormBounds. Round trip is claimed for match-ups that bring a new "
     "scan line. Additional variables are dropped by the code and not claimed.",
     (), ["Transform2NormInd.run", "Transform2NormInd.reverse"])

prop("P10", "A simulated dataset fills the range of each variable of each series and sensor",
     "Simulating a dataset with n samples gives each variable of each sensor of each series, and each series' adjustment factors, n "
     "values in equal steps from the least to the greatest of the original, with an index that describes this layout, and hands on "
     "models, parameters and constants; the original is not changed.",
     ["inputs", "configurations"], "all datasets and numbers of samples, fewer or more than there are match-ups",
     "Tests use one dataset and one number of samples.",
     [PROC + "simulate_matchup/SimulateMatchUp.py"], [("simulation", PROC + "simulate_matchup/SimulateMatchUp.py: run")],
     "Recorded simulations are judged by Fill and the index of Process.tla.", (), ["SimulateMatchUp.run"])

prop("P11", "Measurands, derivatives, uncertainties and K follow the functions of each sensor",
     "For any selection of match-up series, in the order selected, the evaluated measurand of a match-up and sensor is the function of "
     "that sensor applied to that match-up's variables, scan indices and time and to the sensor's own parameters and constants; so are "
     "its derivatives; its variance is that of the sensor's part of the parameter covariance; adjusted measurands and their derivatives "
     "come from the sensor's adjustment function and K is the second adjusted measurand less the first. The dataset is unchanged.",
     ["inputs", "configurations"], "all datasets, sensors described in any order with any numbers of parameters and constants, all selections and "
     "combinations of requested outputs",
     "Tests use one dataset with identical series sizes and never ask for uncertainties or derivatives.",
     [TB + "utils/matchup_maths.py"], [("measurand", TB + "utils/matchup_maths.py: evaluate_measurand"),
      ("adjusted", TB + "utils/matchup_maths.py: evaluate_adjusted_measurand"), ("K", TB + "utils/matchup_maths.py: evaluate_K")],
     "TLC: derivatives agree with differences of Measure for all small arguments; recorded evaluations with integer models that "
     "depend on every argument are judged exactly by Measure, Deriv, MeasureVar, Adjusted, KOf.", (),
     ["evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"])

EIV = TB + "harmonisation/harmonisationProcessing/harmonisation_eiv/"
PC = TB + "harmonisation/harmonisationProcessing/harmonisation_eiv_pc/"
prop("P12", "Solver residuals and Jacobian products are those of the stated EIV problem",
     "For any transformed dataset and solver state: the residuals are, for each normalised independent variable and systematic effect, its "
     "estimate less its initial value, and for each match-up the adjustment between the two sensors at the estimated variables, "
     "parameters, scan indices and times, over its uncertainty, less the measured one. The products with the Jacobian and "
     "its transpose are those of the derivative of these residuals with the preconditioner applied to the parameters, so they are adjoint and their "
     "composition is the normal matrix. The variables recovered for a sensor and series equal the transformation's own, in the Python and the compiled version.",
     ["inputs", "configurations"], "all sensor graphs, correlation types 1-4 in any mixture, sensors with different numbers of variables, parameters "
     "and constants, a reference or none, linear and quadratic adjustments, any state, direction and lower-triangular preconditioner",
     "Tests compare one dataset's numbers (or none); adjointness and agreement with the derivative are statements about all directions.",
     [EIV + "GN_algo.py", EIV + "cython_lib_GN_algo.pyx"], [("residuals", EIV + "GN_algo.py: GNAlgo.calc_f"),
      ("products", EIV + "GN_algo.py: GNAlgo.calc_prod_JPx, get_JPx, get_JPTx, calc_Px, calc_Hx"), ("variables", EIV + "GN_algo.py: GNAlgo.unconvert_Xs, calc_R")],
     "TLC: the specified Jacobian is the derivative of the specified residuals (central differences of second and fourth order, exact) and adjoint to "
     "the specified transpose, on generated problems of every type; recorded f, Jx, J'w, variables of the real solver on problems of "
     "whole numbers are judged exactly by FVar, FK, JK, JTx, JTs, JTa, Vars. A sensor without derivatives measures directly: one variable with independent errors "
     "and no parameters; a sensor with derivatives has at least one parameter.", (), ["GNAlgo.calc_f", "get_JPx", "get_JPTx", "unconvert_Xs"])

prop("P13", "Gauss-Newton stops at the first converged iteration and reports that state",
     "The solver adds each step to the state, stops after the first iteration at which the cost did not rise and the relative fall in cost, the step and the gradient "
     "are all within tolerance, or after as many iterations as there are variables, and returns of the last state: the parameters, the cost, "
     "the degrees of freedom, the residuals of each original variable and adjustment, and each systematic error with its sensor. Data that some "
     "well-determined parameters explain exactly give these parameters at no cost, from any nearby start and for any preconditioner, through the solver and through the "
     "whole pipeline (sampling, preconditioning, transformation, solution), also from a stored preconditioner or a stored solver state: it begins at "
     "the preconditioner's parameters or at the stored state, preconditioned with the preconditioner's covariance. The pipeline's result describes the layout of the original "
     "data, has a covariance unless that is turned off or a directory for the solver's state is given, has each systematic error with its sensor (also once saved and opened), and the last state is kept in each directory named for it.",
     ["histories", "inputs"], "all sequences of steps, residuals and gradients (scripted from the specification), all small exactly solvable datasets of every correlation type",
     "Tests run one dataset to one result; order of updates, the iteration at which it stops and which state is reported depend on the history.",
     [EIV + "GN_algo.py", EIV + "HarmonisationEIV.py", EIV + "pykrylov_lsmr.py"], [("iteration", EIV + "GN_algo.py: GNAlgo.run"),
      ("pipeline", EIV + "HarmonisationEIV.py: HarmonisationEIV.run"), ("step", EIV + "pykrylov_lsmr.py: LSMRFramework.solve")],
     "TLC explores the iteration as a transition system (stop only if converged or exhausted, never after a rise) and emits histories of costs, steps and gradients; these are "
     "replayed into the real run() with scripted steps and judged by Stops; exact problems are judged by KAt, the parameters found within 16/1024.", (),
     ["GNAlgo.run", "HarmonisationEIV.run"])

prop("P14", "Parameter covariance, saved state and preconditioner are those of the problem",
     "The covariance of the parameters is the parameter block of the inverse normal matrix, whatever the preconditioner. A saved solver state, opened over the untransformed data, has the "
     "same estimates, initial values, index and preconditioner and gives the same residuals and products. The preconditioner's covariance of the adjustments, residuals and "
     "Jacobian are those of the problem with errors propagated to the adjustments, and its solution of exactly explained data is exact.",
     ["inputs", "histories"], "all small well-determined datasets of correlation types 1-4 (covariance), all transformed datasets (state), all "
     "datasets with independent errors (preconditioner, what sampling provides)",
     "Tests check one stored example; inverse, resumption and propagation are statements about all problems.",
     [EIV + "GN_algo.py", PC + "pc_algo.py"], [("covariance", EIV + "GN_algo.py: GNAlgo.calculate_parameter_covariance_matrix"),
      ("state", EIV + "GN_algo.py: GNAlgo.save, open"), ("preconditioner", PC + "pc_algo.py: PCAlgo.runPC, calc_LK, get_f, get_Ja")],
     "CovOk verifies with the specification's own Jacobian that a witness solves the normal equations and that the returned covariance is its "
     "parameter part; PcVar, PcJa, FK judge the preconditioner.", (), ["calculate_parameter_covariance_matrix", "GNAlgo.save", "GNAlgo.open", "PCAlgo.runPC"])

HR = TB + "harmonisation/harmonisationIO/HarmonisationResult.py"
prop("P15", "Saving a harmonisation result and opening it again loses and mixes nothing",
     "Saving a result writes one output file with its parameters, their sensors and covariance, the cost statistics it has, and its additional attributes "
     "and variables, and, if asked, one residual file per match-up series with the two sensor names, the residuals of each variable of both sensors (if "
     "it has any) and of the adjustments; the result is unchanged. Opening the directory gives the same back: the residuals in the one-dimensional layout of the residual "
     "files in sorted order of their names with the index describing it, whatever else is in the directory; a directory with no or several output files is refused. A result opened can be saved again. A result closed, or left with its block, keeps none of its data.",
     ["inputs", "histories", "configurations"], "any parameters, sensors and series (also several of one pair, sensors on either side and with different numbers of variables), with or without "
     "variable residuals, statistics, additional attributes and variables; any output name without 'res'",
     "Tests write one hand-made result and compare with hand-made arrays; the layout and file naming must hold for every graph of sensors and series.",
     [HR], [("save", HR + ": write_harmonisation_output_file, write_harmonisation_residual_files"), ("open", HR + ": open_harmonisation_output_file, open_harmonisation_residual_files")],
     "TLC: saving file by file, listing in any order and opening loses no residual, for all graphs within the bounds; recorded saves (files read independently) and opens are "
     "judged by ResFiles, OpenedValues, OpenedKs and the layout of Matchup. Additional variables are one-dimensional; a result opened with some is not saved again.", (),
     ["HarmonisationResult.save", "HarmonisationResult(directory)"])

prop("P16", "Rolling-average weight matrices describe which scan lines each match-up averages",
     "For match-ups at given times, a scan line interval and a kernel, the generated weight matrix has one row per match-up, that "
     "applies the kernel to consecutive scan lines starting at the line of the match-up's time relative to the earliest, and one "
     "column per scan line in use, so that two match-ups share a column exactly if they average the same scan line. The uncertainty "
     "of a line is the greatest given for it, or the single value given. The arguments are unchanged.",
     ["inputs"], "all match-up times in any order, with jitter below half a line and gaps of any size, any kernel (uniform or "
     "weighted, of any length), one or individual uncertainties",
     "Tests use three fixed sequences of times; overlap, gaps, order and rounding are combinatorial.",
     [TO + "generate_w_matrices.py"], [("generation", TO + "generate_w_matrices.py: generate_rolling_average_w_matrix")],
     "TLC: the machine that places kernels row by row agrees with the declarative RollW/RollU and with the overlap property for all "
     "times and kernels within the bounds; real matrices for those and random times are judged against RollW and RollU.",
     (), ["generate_rolling_average_w_matrix"])

SD = HR.split("core/")[0] + "sensor_data/"
prop("P17", "Registered sensors follow their measurement equations, with their derivatives",
     "Every registered name describes its sensors consistently: reference sensors with one variable and no parameter, others with as many variables and parameters as their model uses, "
     "HIRS sensors with the constants of their own row of their channel's coefficients file. Every registered sensor can be evaluated for a match-up dataset, giving a value per match-up and its derivatives by each "
     "variable and parameter, none for a reference, which measures its variable. AVHRR and HIRS measure L = b1 + b2 Lict (Cs-Ce)/(Cs-Cict) [+ b3 (Cict-Ce)(Cs-Ce)] [+ b4 (T-T0)] [- Rself], "
     "b2 = emissivity (0.98514, HIRS 0.98) + a2, without b3 for 3.7um; rescaled parameters are divided by 1, 1000, 10^6, 1000, with T0 = 285 (else 0). MW measures (1-p) L' + p Lict, "
     "L' = Lict + (Lict-Ls)(Ce-Cict)/(Cict-Cs) + a1 (Lict-Lcmb)^2 (Ce-Cict)(Ce-Cs)/(Cict-Cs)^2, p = a2/2 (cos 2tE - cos 2tS) (tS = 73.6 deg, tE = 1.111 deg (i-45.5)), after antenna correction "
     "and in temperature: that of its target at the target's count and of space at space's. Derivatives are those of the measurand. A match-up's value depends on its own data alone; arguments are left alone.",
     ["inputs", "configurations"], "all registered names and sensors, all variables and parameters with distinct counts of space and target; MW across-track index 1..89",
     "Tests evaluate three models at one point each; a wrong sign, scale or registry entry for one of 35 names shows in none of them.",
     [SD + "SensorDataFactory.py", SD + "AVHRR/AVHRR_sensor_models.py", SD + "HIRS/HIRS_sensor_models.py", SD + "MW/MW_sensor_models.py"],
     [("AVHRR", SD + "AVHRR/AVHRR_sensor_models.py: sensor_model_*"), ("HIRS", SD + "HIRS/HIRS_sensor_models.py: sensor_model_3"), ("MW", SD + "MW/MW_sensor_models.py: sensor_model_3"),
      ("registry", SD + "SensorDataFactory.py: SensorDataFactory.get_sensor_data"), ("constants", SD + "HIRS/HIRS_config_functions.py: read_coeff_data, return_sensor_data")],
     "TLC: the specified derivatives are those of the specified measurement equation (dual numbers over fractions, for all small counts, radiances, parameters). Every registered model is "
     "evaluated at those and random small numbers and judged exactly by Meas, DCounts, DRad, DPars; at ordinary numbers its derivatives are compared with extrapolated differences of its measurand.", (),
     ["SensorDataFactory().get_sensor_data", "sensor_model"])

FT = "harmonisation_meiv_demo/src/main/fortran/gpl/"
prop("P18", "Fortran reader stores every sampled match-up as the file has it, or refuses it",
     "Reading a match-up data set of sensors i < j with the sampling step s keeps its rows 1, 1+s, 1+2s, ...: the job's selected columns (or the first ones) of both sensors' telemetry, followed "
     "by their common uncertainties as further columns unless common covariances are enabled; K, with variance Kr^2+Ks^2 (defaults 0, 1, 0), for the second sensor; the times and across-track indices (0 if absent). Match-up data sets and the "
     "sensors' parameters are numbered consecutively without gaps; a sensor has the configuration of its own row of the job, and its prior parameters with the square and inverse square of their uncertainties. "
     "The run ends with an error instead if a value is NaN, infinite or huge, Kr or an uncertainty of a matrix is zero, a weight is not positive, a variable without a default or enough columns are missing, weight "
     "matrices mix number bases, a pair repeats or is not i < j, or the capacity is exceeded.",
     ["inputs", "configurations", "histories"], "every sequence of data sets, any numbers of match-ups and columns, sampling steps, column selections, optional variables, stored types, and place of a faulty value",
     "The one test runs a demo on a fixed job; sampled rows, selected columns, defaults, and each of the some forty refusals are independent of it.",
     [FT + "mod_reader.F90", FT + "mod_matchup.F90", FT + "mod_sensors.F90", FT + "mod_assert.F90", FT + "mod_nc.F90"],
     [("reading", FT + "mod_reader.F90: read_matchup_dataset_nc"), ("match-ups", FT + "mod_matchup.F90: add_matchup"), ("sensors", FT + "mod_sensors.F90: add_sensor"), ("refusals", FT + "mod_assert.F90")],
     "TLC: sequences of readings keep rows and numbering (MeivMC). A probe linked with the built modules reads generated data sets one after another and dumps all it holds; TLC judges each dump, each refusal, the "
     "registries and the demo executable against Meiv. Values are exact in single precision.", (),
     ["read_matchup_dataset", "add_matchup", "add_sensor", "harmonisation-demo"])

prop("P19", "Fortran error-covariance matrices are those of their own column",
     "After reading, a column of independent errors refers to a matrix with the squares of its own Ur at the sampled rows, one of independent errors with a common perturbation also to its Us (or is independent only, if common covariances are "
     "disabled), one of structured errors to the squares of the uncertainties and to the weights its data set assigns to it. The banded weight matrix has the same values as the stored one at every sampled row and column, "
     "whatever the order of the columns in a row, empty rows, gaps and the number base. No two columns share an independent matrix. Matrix lists number their entries from 1, refuse with 0 beyond the capacity, and are empty after removal.",
     ["inputs", "configurations", "histories"], "every sequence of data sets with any uncertainty types, column selections, shared matrices, sampling steps; matrices with any row structure in which columns ascend or descend",
     "The demo never looks at the matrices it reads; selection, sampling, sharing and earlier data sets must combine in every way.",
     [FT + "mod_matrices.F90", FT + "mod_reader.F90"],
     [("columns", FT + "mod_reader.F90: setup"), ("bands", FT + "mod_matrices.F90: new_banded_matrix_from_sparse_arrays"), ("lists", FT + "mod_matrices.F90: add_*, remove_*, has_*")],
     "TLC: the conversion's loops keep every value for all matrices of the bounds (BandMC), and references stay with their own data set and column for all sequences of data sets of the bounds (MeivMC); dumps of the real "
     "modules after generated readings, conversions and list operations are judged by TLC.", (),
     ["w_matrices", "v_matrices", "d_matrices", "b_matrices", "matchups"])

prop("P20", "Fortran output: dates, file names and data sets say what they were given",
     "A Unix time is written as the Gregorian UTC date and time of its second. Parameter and residual data sets are written to one file, named as configured or else from software, version, tag, job, match-up data set and period, for residuals followed by the two "
     "sensors. They contain every value given for them under the variable that describes it (parameters, uncertainties, covariance, correlation, offsets, scales, names; sensors' equations, numbers of parameters, configurations, names; statistics of each pair; times, residuals, "
     "weights, measurands, uncertainties), the totals, job and period as attributes, and the job's unit for the quantities that have it, its inverse for weights.",
     ["inputs", "configurations"], "all times of years 1614 to 2380, any values and numbers of parameters, sensors, pairs and match-ups, with or without configured names, units, sensor configurations and preferences",
     "The demo writes one fixed parameter data set, never residuals; calendars have rare days, and values that end up under a wrong name are not compared.",
     [FT + "mod_writer.F90", FT + "mod_time.F90", FT + "mod_config.F90", FT + "mod_nc.F90"],
     [("parameters", FT + "mod_writer.F90: write_parameter_dataset_nc"), ("residuals", FT + "mod_writer.F90: write_residuals_dataset_nc"), ("time", FT + "mod_time.F90: iso_date_and_time"),
      ("names", FT + "mod_config.F90: get_parameter_dataset_name, get_residuals_dataset_name")],
     "TLC: the closed form of the calendar agrees with day-by-day counting for 1890-2110; written dates, names and data sets (read back independently) are judged by TLC.", (),
     ["iso_date_and_time", "write_parameter_dataset", "write_residuals_dataset"])

prop("P21", "Calendar averages and bins take every datum exactly once",
     "time_average of data at times (any order, any number per period) gives one value for every calendar hour, day, month or year from the period of the earliest time to that of the latest, with no gaps and in order: "
     "the period's start and the average of exactly the data whose times are in the period, its start included and its end excluded, NaN where there are none. So every datum is in exactly one average. "
     "bin of Y over X gives, for the requested number of equal bins of the given range (by default that of X), the centre of each bin and the average and standard deviation of exactly the Y whose X are in it: a bin contains its lower limit, "
     "the last one both of its limits; NaN where there are none, and values outside a given range are in no bin. Neither changes its arguments.",
     ["inputs"], "all orders and multiplicities of times from seconds to centuries apart, at and next to the limits of periods, leap days and ends of years; all X at and between limits of bins, all numbers of bins, given or default ranges",
     "The two tests average one series by months; limits of periods, other periods, empty periods, unordered times and bins are not tested.",
     ["harmonisation_eiv/harmonisation/core/utils/stats.py"], [("averages", "harmonisation_eiv/harmonisation/core/utils/stats.py: time_average"), ("bins", "harmonisation_eiv/harmonisation/core/utils/stats.py: bin")],
     "TLC: periods partition the times and step as the calendar does (StatsMC, CalendarMC), bins partition the range (BinMC); results of the real functions for enumerated and random data are judged exactly by TLC.", (),
     ["time_average", "bin"])

CLI = "harmonisation_eiv/harmonisation/tools/"
prop("P22", "Command lines run exactly what they ask for, or nothing",
     "full_eiv_solver with any sequence of its options: --list_sensors prints the registered sensor data names, --version the version, and exits 0. Unknown options, an invalid mode, --quiet with --verbose, a job file together with "
     "directories, sensor or solver files, or neither a job file nor all of input directory, sensor and output directory are refused: exit non-zero, nothing solved or written. So are missing or malformed job files, unknown sensor "
     "data and missing datasets. Any other line solves exactly once: the dataset of the directory (the job's path made absolute), with the named sensor data, the given paths to read or keep preconditioner and solver state (the "
     "last of a repeated option), verbosity 0 with --quiet, 2 with --verbose, else 1, and covariance unless --no_covariance; then exits 0. Its result is saved in the output directory as harm_SOFTWARE_VERSION_TAG_JOBID_DATASET.nc with "
     "these as attributes (parts not given are empty), and one residual file per series. Unless quiet, the two directories are logged (to the log file if given). Result display tools read these lines alike. On data that parameters explain "
     "exactly, those come out, also when starting from a kept preconditioner (file or directory) or solver state; the covariance is zero exactly with --no_covariance.",
     ["inputs", "configurations"], "every sequence of options in any order, spelling, repetition and combination, every existing, missing or malformed job file, dataset and sensor name, every software description with and without job and dataset name",
     "No test runs the command; option combinations, their order and the passing on of each value are combinatorial.",
     [CLI + "full_eiv_solver.py", CLI + "common.py", CLI + "HarmonisationOp.py", "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py"],
     [("options", CLI + "common.py: parse_cmdline, read_parsed_cmdline"), ("job files", CLI + "common.py: read_job_file"), ("run", CLI + "HarmonisationOp.py: run")],
     "TLC: reading option by option agrees with the line as a whole for every line within bounds (CliMC); these and random lines are run through the real entry point with a recording stand-in for the solver, and, on small exact "
     "data, with the real solver; TLC judges each recorded run. Abbreviated options are not covered; --mode is read but has no effect in this version.", (), ["full_eiv_solver", "HarmonisationOp.run"])

K = EIV
prop("P23", "Krylov solvers return the solution their stop reason claims",
     "For dense double-precision systems far from singular: LSMRFramework(A).solve(b) returns, and keeps as .x, the x minimising (b-Ax)'M(b-Ax) + damp^2 x'N^-1 x (M, N positive diagonal operators, default identity; A of any shape); "
     "if several do and N is the identity, the shortest. Minres(A).solve(b) keeps as .x the solution of (A - shift I)x = b for symmetric A, any positive-definite preconditioner; for singular A - shift I the residual is least. "
     "Stopped by itnlim = 1, x is the multiple of N A'Mb (Minres: preconditioner times b) at which the residual of the normal equations (Minres: the residual) in the norm of N (of the preconditioner) is least. "
     "The reported norms of residual, normal residual and x (LSMR; Minres: of the residual) are those of x. itn is at most itnlim; the iteration limit is the stop reason if x does not solve the system, and only after itnlim iterations; "
     "LSMR's reasons 1 and 4 are given only if Ax = b; a right-hand side of zero (Minres) gives x = 0 and reason 0; Minres is converged exactly if it solved a nonzero system. A matrix or preconditioner that is "
     "not symmetric (checks on) or a preconditioner with b'Pb < 0 is refused by Minres: not converged, x = 0, reason 7, 8 or 9. The arguments are left alone, printing and storing iterates change nothing, the stored ones lead from 0 to x, the k-th being what itnlim = k gives (by default itnlim is the lesser dimension; Minres: 5 n), and a solver can be used again.",
     ["inputs", "configurations"], "every system, right-hand side, damping, shift, weights, preconditioner and iteration limit", "There are no tests of the solvers; breakdowns depend on exact structure of the system.",
     [K + "pykrylov_lsmr.py", K + "pykrylov_minres.py", K + "pykrylov_tools_utils.py"],
     [("least squares", K + "pykrylov_lsmr.py: solve"), ("symmetric", K + "pykrylov_minres.py: solve"), ("refusals", K + "pykrylov_tools_utils.py: check_symmetric")],
     "TLC: exact iterates of every system with two unknowns within bounds (KrylovMC): optimal, finite termination; these and random integer systems with up to eight unknowns are solved by the real code; TLC checks the recorded "
     "solutions exactly against the normal equations.", (), ["LSMRFramework.solve", "Minres.solve"])

prop("P24", "Plots and diagnostics of a harmonisation show the data they are labelled with",
     "A viewer of a dataset and a result gives, per match-up in the dataset's order, the nominal measurands of either sensor; the harmonised ones: sensor function with the result's parameters of that sensor, adjusted; "
     "and three K residuals: measurand of sensor 2 minus that of sensor 1 minus the adjustment factor, both nominal, both harmonised, or nominal sensor 2 and harmonised sensor 1. "
     "Every plot has one series per match-up series, labelled with its two sensors, of all of that series' points: residuals against the time of sensor 2, sensor 1 against sensor 2, monthly means at the first of each "
     "month with data, or means with standard deviations in the non-empty ones of 50 equal bins over the range of a sensor 2 variable or additional variable, of those series that have it, in a file for each and one for all. Above 10000 match-ups, points are sampled, "
     "each series in proportion to its size, each point one match-up. The number of samples stated is that of the dataset. The plotting command writes exactly the plots of its list. "
     "The comparison command plots, per sensor, nominal minus harmonised measurand over the range of its data, with two standard uncertainties from its block of the parameter covariance. Dataset and result stay as they were.",
     ["inputs", "configurations", "histories"], "every dataset, sensor data and result, every sequence of requests", "Nothing tests plots; the existing code mislabelled and crashed for anything but simple datasets.",
     [HR.split("harmonisationIO")[0] + "harmonisationVis/HarmonisationVis.py", "harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py", "harmonisation_eiv/harmonisation/core/utils/plots.py",
      CLI + "HarmonisationPlottingOp.py", CLI + "HarmonisationCompPlottingOp.py"],
     [("residuals", HR.split("harmonisationIO")[0] + "harmonisationVis/HarmonisationVis.py"), ("series", "harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py")],
     "TLC: sequences of requests to a viewer that keeps what it computed (PlotsMC); each is made of the real viewer on random datasets, and both commands are run; what reaches the plotting library (a recording stand-in, as "
     "matplotlib is not installed) is judged by TLC. Series of one pair share the file of an individual binned plot.", (), ["HarmonisationVis", "tools/harm_plot.py", "tools/harm_comp_plot.py"])

prop("P25", "Updated AVHRR match-up files hold the valid match-ups in the newest format",
     "From one original AVHRR match-up file (known sensors with the channel at 3.7, 11 or 12 um; at least one valid match-up), six files of its name are written, for 4 and 5 variables per sensor (the reference, "
     "told by missing target counts, has one) and each of RSW_, R_W_, R___, into folders named by channel, variables and kind. Every file obeys the newest format and holds just the valid match-ups, in order: those "
     "without a missing scan-line uncertainty of space or target counts and, where a limit is given, whose sensor 2 brightness temperature reaches it. Values, K, Kr, Ks, times, sensor names, the renamed "
     "angles and places, the orbit temperature where it is no variable, and the index of each match-up in the original are the original's; nominal measurands are the radiances of the brightness temperatures in that channel. "
     "RSW_ and R_W_ average space and target counts of non-reference sensors: equal weights over the scan lines half a second apart that are used, uncertainties from the original's scan lines, no random one besides; only RSW_ keeps "
     "systematic uncertainties (the reference has none). R___ has no matrices, none systematic, and the mean of each match-up's scan-line uncertainties. Unknown sensors and channels are refused, nothing written. The original stays as it was.",
     ["inputs", "configurations"], "every original file: match-ups, overlap of their scan lines, invalid ones, channels, sensors, limits", "The two tests check the valid-match-up mask on one array; nothing runs the conversion, which mixed up channels, folders and measurands.",
     ["tools/AVHRR_to_updated_spec.py", "tools/W_matrix_functions.py", "tools/generate_w_matrices.py", "tools/convert_bt_to_radiance.py"],
     [("selection and variables", "tools/AVHRR_to_updated_spec.py"), ("weights", "tools/W_matrix_functions.py"), ("radiances", "tools/convert_bt_to_radiance.py")],
     "TLC: all small original files, each of the six files obeys the format, gives its matrices back and keeps each valid match-up once (ConvertMC); these and random files are converted by the real tool, TLC compares "
     "everything written. Brightness temperatures are points where Planck's law is exact.", (), ["AVHRR_to_updated_spec.main", "tools/AVHRR_to_updated_spec.py"])

prop("P26", "Weights added to microwave match-up files describe each sensor's scan lines",
     "Every file of a folder of microwave match-ups is written under its name with everything it had (values, K, Kr, Ks, times, additional variables, attributes), its uncertainty types set (reference: independent; otherwise the two calibration variables averaged, "
     "the others of the calibration averaged and systematic, then one independent and one systematic: 11 variables for AMSU-B, 9 for MHS), and random uncertainties of averaged variables zero. Each sensor other than the reference "
     "has one weight matrix made from its own times: seven weights 1,2,3,4,3,2,1 sixteenths over its scan lines, 8/3 seconds apart, match-ups sharing the lines they both use; and three uncertainty "
     "matrices, one value per scan line used: the random uncertainty that the first match-up of the file given has for its first, second and third variable, the third for all of the averaged and systematic ones. Weights and uncertainties of sensor 1 and 2 are not mixed up. "
     "A sensor that is not known, and the reference as sensor 2, is refused. Files given stay as they were.",
     ["inputs", "configurations"], "every folder of files, every pair of sensors, all scan lines of either", "Nothing tests this tool; it read the times of sensor 1 for sensor 2 and mixed up uncertainty lengths.",
     ["tools/MW_add_W_matrices.py", "tools/W_matrix_functions.py", "tools/generate_w_matrices.py"],
     [("matrices", "tools/MW_add_W_matrices.py")],
     "TLC: every pair of sensors and small pattern of scan lines, folders in every order up to one refused; the real tool converts these and random folders, TLC compares everything written.", (), ["MW_add_W_matrices.main", "tools/MW_add_W_matrices.py"])

prop("P27", "Simulated data in text files become the match-up files of each sensor pair",
     "A directory of simulated data (values, parameters, uncertainties) is converted to one file per sensor pair, named by the two sensors, in the format of match-up files, with exactly its own match-ups, in order: the variables of "
     "sensor 1 (of the reference, sensor 0, the first alone) and of sensor 2, K, the stated uncertainty of K, no platform uncertainty, and as times of both sensors the number of the match-up in the whole data. Per variable: R is independent, RS "
     "independent and systematic, MA averaged over the stated number of match-ups, its uncertainty, on each line used, in the uncertainty matrix and zero elsewhere; weights are equal, of the pair's own match-ups and of both sensors alike, the reference excepted, which has the stated reference "
     "uncertainty. Without averaged variables there are no matrices. Averages that differ in number or uncertainty, and missing text files, are refused. The true parameters are copied. The data stay as they were.",
     ["inputs", "configurations"], "every simulated data set: pairs, numbers of match-ups, kinds of uncertainty", "Nothing tests this tool, which could not be run.",
     ["tools/pmh2fiduceo.py", "tools/W_matrix_functions.py"],
     [("text files", "tools/pmh2fiduceo.py"), ("weights", "tools/W_matrix_functions.py")],
     "TLC: all small data sets, split between pairs without loss, matrices given back (ConvertMC); the real tool converts these and random ones, as a command too, TLC compares everything written. At least two match-ups in total.", (),
     ["pmh2fiduceo.run_conversion", "tools/pmh2fiduceo.py"])

prop("P28", "AVHRR channel temperatures and radiances are those of Planck's law, both ways",
     "For each known AVHRR or ATSR sensor and each of its channels at 3.7, 11 and 12 um, the radiance of a temperature is that of Planck's law at the channel's wave number for the temperature corrected with the channel's intercept and slope, and the temperature of a radiance "
     "is the inverse, so that converting there and back changes nothing. Scalars, and each element of arrays of one to three dimensions, are converted alike; in arrays, temperatures and radiances that are not positive, or not finite, become not a number, and only those. The shape is that given and the "
     "argument is not changed. Unknown sensors, and channels a sensor does not have, are refused.",
     ["inputs"], "all sensors and channels, every temperature and radiance", "Nothing tests this conversion; the inverse could not be called.",
     ["tools/convert_bt_to_radiance.py"], [("Planck's law", "tools/convert_bt_to_radiance.py")],
     "Coefficients of all channels are written down in the specification; the exact points of Planck's law, where its exponential is 1 + 2^j, are converted by the real code both ways and judged by TLC.", (), ["convertBT.temp2rad", "convertBT.rad2temp"])
