"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os

SRC = "src/openscm_twolayermodel/"
B, T, I, U, K, E, V = (SRC + f for f in ("base.py", "two_layer_model.py", "impulse_response_model.py",
                                        "utils.py", "constants.py", "errors.py", "_version.py"))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Two-layer temperatures follow the documented energy-balance equations",
     "In every two-layer run each surface and deep-ocean temperature is the forward-Euler update of the previous step under "
     "C dT/dt = F - (lambda0 - a T) T - efficacy*eta*(T - T_D) and C_D dT_D/dt = eta*(T - T_D), using the forcing at the start of the step, "
     "the model's own parameters, heat capacities depth x 1000 kg/m^3 x 4181 J/kg/K, and the run's time step. "
     "Nothing is clipped, smoothed or special-cased for any size, sign or pattern of forcing or any run length, and a numerically unstable run is seen as diverging, never as plausible values; forcing which is not a number is refused or seen as such, never made up.",
     ["inputs", "configurations"],
     "every physically meaningful parameter set (depths, feedback, state-dependence, efficacy, exchange; any units), every forcing series (any sign, size, length, zeros, plateaus) and every supported time step",
     "Tests check one hand-computed step through mocks and one RCMIP file with three parameter sets; a bug that depends on sign, size, plateaus, step index, run length or an unusual parameter combination is never sampled.",
     [T, B, K], [("TwoLayerModel._step / _calculate_next_temp_upper / _calculate_next_temp_lower", T), ("heat_capacity_upper / heat_capacity_lower", T)],
     [("_temp_upper_mag/_temp_lower_mag", "temperature trajectories", T), ("_timestep_idx", "current step", T)],
     ["run_scenarios output 'Surface Temperature|Upper' and '|Lower'", "state after step()"])

prop("C02", "Two-layer heat uptake closes the energy budget",
     "In every two-layer run the reported heat uptake of a step equals the rate at which the two layers gained heat over that step, and also equals "
     "F - (lambda0 - a T) T - (efficacy - 1)*eta*(T - T_D) at the start of that step. "
     "Summed over the run it equals the heat stored, C T + C_D T_D: energy is neither lost nor created.",
     ["inputs", "configurations"],
     "every parameter set including efficacy != 1 and a != 0, every forcing series, every time step",
     "Tests check one mocked heat-uptake value and a stored result file; no test relates heat uptake to stored heat or to the forcing budget for other inputs.",
     [T], [("TwoLayerModel._calculate_next_rndt", T), ("TwoLayerModel._step", T)],
     [("_rndt_mag", "heat uptake trajectory", T)], ["run_scenarios output 'Heat Uptake'"])

prop("C03", "Impulse-response boxes relax exponentially and add up",
     "In every impulse-response run each box temperature after a step is T exp(-dt/d) + q F (1 - exp(-dt/d)) of its own q and d, with F the forcing at the start of the step and dt the run's time step, whatever the size, sign, pattern or length of the forcing. "
     "The reported surface temperature is exactly the sum of the two reported boxes. Forcing which is not a number is refused or seen as such, never made up.",
     ["inputs", "configurations"],
     "every q1, q2, d1 < d2, efficacy, in any units; every forcing; every time step from days to decades",
     "Tests check one mocked step and one default-parameter RCMIP file.",
     [I], [("ImpulseResponseModel._calculate_next_temp / _step", I), ("_get_run_output_tss", I)],
     [("_temp1_mag/_temp2_mag", "box temperatures", I)], ["run_scenarios output 'Surface Temperature|Box 1', '|Box 2', 'Surface Temperature'"])

prop("C04", "Impulse-response heat uptake is the equivalent two-layer model's budget",
     "In every impulse-response run the reported heat uptake of a step is F - lambda0 T - (efficacy - 1)*eta*(T - T_D) evaluated at the start of the step, where lambda0, eta and the deep-ocean temperature T_D are those of the two-layer model equivalent to the current q1, q2, d1, d2 and efficacy. "
     "This holds for every efficacy (exactly one, arbitrarily close to one, below or above one) and every unit of the parameters.",
     ["inputs", "configurations"],
     "every q1, q2, d1 < d2, efficacy and unit choice, every forcing, parameters changed between runs",
     "Tests check a mocked value per efficacy branch and a default (efficacy 1) file; the efficacy != 1 branch is never compared with a two-layer budget.",
     [I, B], [("ImpulseResponseModel._calculate_next_rndt", I), ("_calculate_geoffroy_helper_parameters", B), ("get_two_layer_parameters", I)],
     [("_rndt_mag", "heat uptake", I)], ["run_scenarios output 'Heat Uptake'"])

prop("C05", "Both models describe the same physical system",
     "For any two-layer model without state dependence, the impulse-response model built from its converted parameters gives the exact solution of the two-layer equations for step-wise constant forcing (surface temperature and heat uptake), and vice versa from the impulse-response side. "
     "The two-layer model's own run approaches that same solution as the time step shrinks.",
     ["inputs", "configurations"],
     "every valid parameter set of either model (a = 0, efficacy any), every forcing series, both conversion directions",
     "Tests convert one parameter set and compare a short run within loose tolerance; other parameter ratios, efficacies and forcings are not sampled.",
     [T, I, B], [("get_impulse_response_parameters", T), ("get_two_layer_parameters", I), ("_calculate_geoffroy_helper_parameters", B)],
     [], ["run_scenarios outputs of a model and of its converted counterpart"])

prop("C06", "Parameter conversion between the two models is exact and reversible",
     "Converting two-layer parameters to impulse-response parameters and back returns the original values (and likewise starting from impulse-response parameters), efficacy is carried over unchanged, d1 < d2, q1 and q2 are positive and q1 + q2 = 1/lambda0; the results are accepted as constructor arguments of the other model. "
     "The conversion always reflects the model's current parameters, and a two-layer model with any non-zero state dependence, however small and in whatever unit, is refused with ValueError instead of converted.",
     ["inputs", "configurations", "histories"],
     "every valid parameter set of either model in any units, before and after parameter changes and runs",
     "Tests use one or two parameter sets; round-trips over ratios of scales, units, efficacies and after setters are not sampled.",
     [T, I, B], [("get_impulse_response_parameters", T), ("get_two_layer_parameters", I), ("_calculate_geoffroy_helper_parameters", B)],
     [], ["the returned dicts"])

prop("C07", "Results do not depend on the units inputs are given in",
     "Giving any parameter, the time step, the forcing or the scenario data in any other dimensionally compatible unit (same physical quantity) gives the same physical temperatures, heat uptake and converted parameters, up to rounding. "
     "Result units are always delta_degC and W/m^2.",
     ["inputs", "configurations"],
     "every combination of compatible units for every quantity of both models and for every scenario row",
     "Tests set most quantities in the model's own unit; cross-unit arithmetic (especially in conversions and heat uptake) is sampled for a single unit.",
     [B, T, I], [("property setters' .to(unit).magnitude", T), ("set_drivers(values * ur(unit))", B)],
     [("_*_mag", "magnitudes in model units", T)], ["run_scenarios output", "get_*_parameters output"])

prop("C08", "Invalid quantities are rejected, named, and leave the model untouched",
     "Assigning (in the constructor or later) a value that is not a pint quantity raises TypeError, and one with incompatible dimensions raises UnitError, both naming the quantity; forcing that is not one-dimensional raises AssertionError, and scenario data whose driver has incompatible units raises UnitError (a ValueError). "
     "After a rejected assignment every parameter and every result of the model is as it was before. "
     "A quantity made with another unit registry is either refused in that way or taken: runs always use the parameters the model shows.",
     ["inputs", "configurations", "histories"],
     "every settable quantity of both models, every wrong type or dimension, in the constructor, by assignment and through set_drivers, at any point of the model's life",
     "Tests try one wrong type and one wrong unit per attribute, and do not check what the model does afterwards.",
     [B, T, I, E], [("_assert_is_pint_quantity_with_units", B), ("set_drivers", B)],
     [], ["exception type and text", "parameters and run output afterwards"])

prop("C09", "Runs are causal and start from zero",
     "Every run's first temperatures and heat uptake are exactly zero; output at time i depends only on forcing before i, so changing the forcing from index k onwards leaves outputs up to and including index k unchanged, the last forcing value affects nothing, and a truncated scenario gives the truncated result. "
     "A change of forcing at k does show up at k + 1.",
     ["inputs", "configurations"],
     "both models, every parameter set, forcing series, change position k, change size and truncation length",
     "Tests note the first value and mock one step; non-interference over arbitrary positions is a two-run property they do not sample.",
     [T, I, B], [("_step index arithmetic (erf[idx-1])", T), ("_step", I)],
     [("_timestep_idx", "current step", T)], ["paired run_scenarios outputs"])

prop("C10", "Scenarios in one batch do not influence each other",
     "The result for a scenario is the same whether it is run alone or together with any others, in any row order, next to scenarios with other units, lengths, start dates or time resolutions, or with no data at all. "
     "The progress bar is shown exactly when asked for (also by default), and showing or hiding it changes nothing.",
     ["inputs", "histories", "configurations"],
     "both models, every set and order of scenarios (mixed units, lengths, axes, metadata), progress on or off",
     "Tests run one or two fixed scenarios together and never compare against separate runs.",
     [B], [("TwoLayerVariant.run_scenarios loop: per-row dropna, set_drivers, reset, run", B), ("_select_timestep", B)],
     [], ["run_scenarios output per scenario"])

prop("C11", "Output is complete, correctly labelled and aligned",
     "run_scenarios returns, for every matching World driver row, that row unchanged plus exactly one series per model output variable, on the same time points, with the same metadata, the right variable name and unit, the model's name as climate_model and a run_idx unique to that scenario; nothing else is returned. "
     "Rows of other variables or regions are not run, time points without driver data have no output, matching rows without any data are left out, and the absence of any matching row with data raises ValueError.",
     ["inputs", "configurations"],
     "every number of scenarios, metadata columns, time axes (ragged, monthly, yearly), extra variables and regions, driver variable names",
     "Tests look at one or two scenarios with fixed metadata and axes.",
     [B, T, I], [("run_scenarios filter / driver metadata / pd.concat", B), ("_create_ts", B), ("_get_run_output_tss", T), ("_get_run_output_tss", I)],
     [], ["run_scenarios output meta and values"])

prop("C12", "Output metadata records the parameters that produced it",
     "Every output row carries the value and unit of each model parameter as last set by the user before the run; rebuilding a model from those columns alone and rerunning the output's own driver rows reproduces the output. "
     "This stays true when parameters are changed between runs of the same model.",
     ["inputs", "histories", "configurations"],
     "both models, every parameter set and unit, any sequence of parameter changes and runs",
     "Tests check the columns of one run with default parameters.",
     [B, T, I], [("save_paras_meta in run_scenarios", B), ("_save_paras", T), ("_save_paras", I)],
     [], ["parameter columns of run_scenarios output"])

prop("C13", "The time step follows each scenario's own time axis",
     "A scenario with consecutive yearly points is integrated with a step of exactly one year and one with consecutive monthly points with exactly one twelfth of a year, whatever the calendar position, start year, length or company in the batch. "
     "Any other spacing (gaps, quarterly, weekly, daily, multi-yearly, mixed) raises NotImplementedError and is never silently integrated.",
     ["inputs", "configurations"],
     "both models, every yearly and monthly axis (any start, length, day of month, leap years, distant years) and irregular or unsupported axes, alone or batched",
     "Tests use one yearly, one monthly and one refused axis.",
     [B], [("TwoLayerVariant._select_timestep", B), ("delta_t setter", B)],
     [("_delta_t", "time step", B)], ["delta_t after the run", "size of the first response in the output"])

prop("C14", "A reused model behaves like a fresh one",
     "After any history of parameter changes, rejected assignments, driver changes (also of one and the same forcing quantity, handed over again), partial or complete runs, failed runs and conversions, a model gives the same results as a new model constructed with the current parameters. "
     "Earlier scenarios, parameters or errors leave no trace.",
     ["histories", "inputs"],
     "every sequence of public operations on one model instance, both models",
     "Tests use an instance for one or two operations; a stale cached value needs a particular order of operations.",
     [B, T, I], [("property setters recompute magnitudes", T), ("_reset reinitialises state", T), ("_reset", I)],
     [("_heat_capacity_*_mag, _*_mag", "derived state", T)], ["run_scenarios / run output after each operation"])

prop("C15", "Running a model never alters what the caller passed in or got earlier",
     "Scenarios (ScmRun or DataFrame), forcing arrays, parameter quantities and results returned earlier are left exactly as they were by any operation on a model, successful or failing, and read-only inputs are accepted. "
     "Changing a returned result afterwards does not affect the model or later results.",
     ["inputs", "histories"],
     "every input container and content, both models, repeated runs, failing runs",
     "Tests do not compare inputs before and after.",
     [B], [("_ensure_scenarios_are_scmrun copies", B), ("base.copy() in _create_ts", B)],
     [], ["deep snapshots of inputs and earlier outputs"])

prop("C16", "Model instances are independent of each other",
     "Any number of model instances (same or different class) constructed, configured, stepped or run in any interleaving, or in different threads, each give what they would give alone. "
     "Nothing set on one instance, including via its defaults, is visible in another.",
     ["schedules", "histories"],
     "every interleaving of operations of several instances, in one thread or several",
     "Tests use one instance at a time.",
     [B, T, I], [("all state lives on self; defaults are never mutated", T), ("ImpulseResponseModel.__init__", I)],
     [], ["state after each interleaved step", "outputs of threaded runs"])

prop("C17", "Stepping lifecycle: reset, step and run agree",
     "reset before drivers are set raises ModelStateError; after reset nothing of an earlier run remains, each step fills exactly the next time point and leaves the others as they were, and run gives exactly what as many single steps as there are drivers give. "
     "Stepping past the end raises instead of wrapping around or overwriting results, and reset at any point allows a clean new run.",
     ["histories", "schedules"],
     "every sequence of set_drivers, reset, step and run with drivers of any length, both models",
     "Tests step once from a mocked state and call each method in the one intended order.",
     [B, T, I], [("_reset / _step / _run", T), ("_reset / _step / _run", I)],
     [("_timestep_idx", "nan before the first step, then index of last filled point", T)], ["state after each operation"])

prop("C18", "Equilibrium warming and climate sensitivity",
     "Under constant forcing F a run without state dependence rises monotonically (stable step) to F/lambda0, or F*(q1+q2) for the impulse-response model, never overshooting, independently of depths, exchange and efficacy, with heat uptake vanishing and the deep ocean never warmer than the surface; with state dependence it settles at the stable root of F = (lambda0 - a T) T. "
     "convert_lambda_to_ecs returns -f2x/lambda for any quantities in any units (f2x = 3.74 W/m^2 by default), agrees with such an equilibrium, and raises TypeError for anything that is not a quantity.",
     ["inputs", "configurations"],
     "every stable parameter set and constant forcing (either sign), both models; every lambda and f2x in every unit",
     "Tests check two ECS values and never run to equilibrium.",
     [T, I, U], [("_calculate_next_temp_upper", T), ("_calculate_next_temp", I), ("convert_lambda_to_ecs", U)],
     [], ["final values of long runs", "convert_lambda_to_ecs result"])

prop("C19", "Response is linear, time-invariant and sign-symmetric",
     "Without state dependence the response to a combination of forcings is the same combination of the separate responses, in both models and for all output variables; delaying the forcing by k steps of zero forcing delays every output by exactly k steps, with or without state dependence. "
     "With state dependence, reversing the sign of both forcing and a reverses every output.",
     ["inputs", "configurations"],
     "every parameter set, pair of forcings, coefficients and delays",
     "These relate several runs over arbitrary inputs; tests only look at single runs.",
     [T, I], [("_calculate_next_*", T), ("_calculate_next_*", I)],
     [], ["sets of run outputs"])

prop("C20", "Limiting cases and parameter monotonicity are physical",
     "With no exchange (eta = 0) the two-layer model is a single-layer model and its deep ocean stays at zero; with a very deep lower layer the deep ocean stays cold and the surface follows the one-layer model with feedback lambda0 + efficacy*eta. "
     "Under constant positive forcing with a stable step, larger feedback, larger efficacy, deeper upper or deeper lower layer never gives a warmer surface at any time, and a larger state-dependence a never a cooler one.",
     ["inputs", "configurations"],
     "every stable parameter set and every increase of one parameter",
     "Order relations between runs with different parameters; no test runs these.",
     [T], [("_calculate_next_temp_upper / _calculate_next_temp_lower", T)],
     [], ["sets of run outputs"])

prop("C21", "The short time scale is always the first",
     "An impulse-response model can never be constructed with, nor run with, d1 >= d2: construction raises ValueError, and after a later change of d1 or d2 to such an order resetting or running scenarios raises ModelStateError, compared as physical times whatever the units. "
     "Every properly ordered pair is accepted, however the order was reached.",
     ["inputs", "histories", "configurations"],
     "every pair of time scales in every pair of time units, at construction and after any sequence of changes",
     "Tests construct one wrong pair in the same unit.",
     [I], [("ImpulseResponseModel.__init__ / _reset ordering check", I)],
     [], ["exceptions of constructor, reset and run_scenarios"])

prop("C22", "Results do not depend on how scenarios are handed over",
     "The same scenarios given as ScmRun, as wide DataFrame (indexed or not), as long DataFrame or as a csv file path, with rows, columns or time points in any order and with any irrelevant extra data, give the same results.",
     ["inputs", "configurations"],
     "every scenario set in every supported container and order, both models",
     "Tests pass ScmRun objects in a fixed order only.",
     [B], [("_ensure_scenarios_are_scmrun", B), ("driver.filter(variable, region)", B)],
     [], ["run_scenarios output"])

prop("C23", "Reference results are reproduced",
     "With default parameters (50 m, 1200 m, 3.74/3 W/m^2/K, 0, 1, 0.8 W/m^2/K; and 0.3, 0.4 K/(W/m^2), 9 yr, 400 yr, 1; time step of direct runs one year and one month) and the documented variations, the RCMIP forcing pathways give the published reference temperatures and heat uptake, whether run together, separately, in another order, in other units or after other work on the same model.",
     ["inputs", "histories", "configurations"],
     "all reference scenarios in every subset, order, unit and model history",
     "Tests compare the whole file run once, in one order, with a fresh model.",
     [T, I, B, K], [("default arguments", T), ("default arguments", I), ("constants", K)],
     [], ["run_scenarios output against recorded reference results"])

prop("C24", "The reported version identifies the code",
     "Run from a git checkout, the package version is the nearest tag, exactly that tag when the checkout is clean and on it, otherwise with the number of commits since it and the commit id, and marked dirty exactly when tracked files differ; with no tag it is 0+untagged with the same information. "
     "From an exported archive it is the tag recorded there, in a directory named after the package and version it is that version, and otherwise it says that it is unknown instead of inventing a version. The directory and repository the process works in, and git's environment variables for them, do not matter.",
     ["histories", "configurations", "fault_sequences"],
     "every git history (tags, annotated or lightweight, distance, dirty state, untagged), archive keyword sets and missing git",
     "No test covers version identification.",
     [V], [("git_pieces_from_vcs / render_pep440 / git_versions_from_keywords", V)],
     [], ["get_versions() in scratch checkouts"])

prop("C25", "Refining the time step is consistent",
     "The impulse-response temperatures at common times are the same when each step is split into any number of equal sub-steps with the same forcing, including yearly against monthly scenarios. "
     "The two-layer model's error against the exact solution of its equations shrinks in proportion to the time step.",
     ["inputs", "configurations"],
     "every parameter set, forcing and subdivision",
     "Tests never compare runs with different time steps.",
     [T, I, B], [("_calculate_next_temp", I), ("_calculate_next_temp_upper", T), ("delta_t", B)],
     [("_delta_t_mag", "time step in model units", B)], ["sets of run outputs"])

prop("C26", "Runs are reproducible and leave the process as it was",
     "The same work (models, parameters, forcing, in the same order) gives bit-identical results and labels every time: repeated in one process, and in other processes whatever the hash seed, random seeds, time zone, locale, working directory, warning filters, numpy error settings or optimisation level. "
     "Importing the package or using its models never alters process-wide state: random generators, numpy and pandas settings, warning filters, environment, working directory and files, locale, signal handlers, threads, logging or unit registry settings, module search path and the functions of other packages; nothing is printed to standard output, nor, without a progress bar, anything at all, and the bar has no influence on the results.",
     ["inputs", "configurations", "histories"],
     "every run in every process environment and after any earlier use",
     "Tests run once, in one process and one environment, and look at results only.",
     [B, T, I, U], [("run / step / run_scenarios", B), ("step functions", T), ("step functions", I), ("convert_lambda_to_ecs", U)],
     [], ["results of the same job in several processes", "snapshots of process-wide state"])

prop("C27", "An interrupted operation does no lasting harm",
     "When an operation is interrupted by an exception at any point (keyboard interrupt, out of memory, a time-out, a warning turned into an error), it never returns a partial result as if complete; "
     "the caller's objects, the model's parameters, process-wide state and other models are as before; and the model can be used again at once, giving what a fresh model gives.",
     ["crash_points", "histories", "inputs"],
     "every operation of both models and every point in it at which an exception can be delivered, repeatedly",
     "Tests never interrupt anything.",
     [B, T, I], [("run_scenarios loop", B), ("reset / step / run", T), ("reset / step / run and heat uptake", I)],
     [("_timestep_idx", "current step", T)], ["exception or result of the operation", "parameters", "results of later operations"])

prop("C28", "Models let go of what they no longer need",
     "Inputs and results are freed once the caller drops them, also while the model lives: a model holds its latest drivers, parameters and series only. A model no longer referenced is freed. "
     "However many runs, parameter changes and conversions are made, with one model or many, memory, open files and threads do not grow.",
     ["histories", "inputs"],
     "every sequence of operations on any number of models, for any number of repetitions",
     "Leaks show after many runs and in no result; tests run once and look at results.",
     [B, T, I], [("run_scenarios", B), ("erf setter", B), ("get_two_layer_parameters", I)],
     [], ["weak references to inputs, results and models", "counts of live objects and memory blocks"])

prop("C29", "Results are self-contained and can be combined",
     "Results of any runs which differ in model, scenario or parameters, however little, can be appended to each other without conflict or loss: every series of every run is found again in the combination exactly once, by model name and parameter columns, with its labels, time points and values. "
     "The same holds after writing to and reading from a file, and results convert to any other unit of temperature difference or heat flux by its factor.",
     ["inputs", "histories", "configurations"],
     "every set of runs of any number of models with different parameters, and every order of combining them",
     "The documentation's notebooks rely on this for a few values; no test combines results.",
     [B, T, I], [("run_scenarios metadata", B), ("_save_paras / _name / output units", T), ("_save_paras / _name / output units", I)],
     [], ["run_scenarios outputs, appended, stored, converted"])

prop("C30", "Models built on the base classes get the same interface",
     "A model class which derives from the package's base classes and implements their abstract methods (or derives from one of the two models) is run by run_scenarios like the built-in ones: for each matching scenario with data exactly once it gets the time step and the drivers, then reset, as many steps as there are points, and is asked for its output series with the driver row, "
     "which are returned, all and unaltered, under its own name with its own parameters. run, step and reset do what the class implements and nothing else, exceptions raised there reach the caller unaltered, and a class with an abstract method left out cannot be instantiated.",
     ["inputs", "configurations", "fault_sequences"],
     "every class implementing the abstract methods and every batch of scenarios",
     "The tests only know the two built-in models.",
     [B], [("Model", B), ("TwoLayerVariant.run_scenarios", B)],
     [], ["calls received by the model", "run_scenarios output"])

prop("C31", "Number formats of inputs do not limit the precision of results",
     "Results are always double precision, and those of the same values given as doubles: whether forcing comes as signed integers of any size, half, single or double precision, in any byte order and memory layout, as list or array; "
     "whether parameters and time steps are Python or (64-bit) numpy integers or floats, scalars or zero-dimensional arrays; and whether scenario data are stored as integers, single precision, objects or text. Nothing is rounded to the precision of the input or overflows its type, in runs, conversions between the models or climate sensitivity "
     "(single-precision parameters cost no more than single precision).",
     ["inputs", "configurations"],
     "every number format and memory layout of forcing, parameters and scenario data",
     "The tests use Python floats and default numpy arrays.",
     [B, T, I], [("erf / delta_t setters", B), ("_reset (result arrays)", T), ("get_two_layer_parameters", I)],
     [], ["results' values and types", "converted parameters", "recorded parameters"])

prop("C32", "A model shows what it was given and uses what it shows",
     "At any point of a model's life each parameter, the time step and the forcing read back as the quantity given last (same number, same unit), or as their documented default (also 50 m, 1200 m, ...; time step one year for the two-layer, one month for the impulse-response model); heat capacities are read-only and always those of the current depths. "
     "A run uses exactly what the model shows, after run_scenarios the model shows the forcing and time step of a scenario it has just run, and reading attributes changes nothing. Constructor arguments may be given by position in the documented order or by keyword.",
     ["inputs", "configurations", "histories"],
     "every sequence of assignments and runs, unit and way of passing arguments",
     "The tests read a few attributes back right after construction.",
     [B, T, I, U], [("property getters and setters", B), ("heat_capacity_upper, heat_capacity_lower", T), ("__init__ argument order", I)],
     [("_du, _d1, ... and their _mag twins", "parameters as given and as used", T)], ["attributes", "state after runs"])

prop("C33", "Work takes time and memory in proportion to its size",
     "The processor time and peak memory of a run are proportional to its number of steps, time points and scenarios, however many: the cost per step, point and scenario stays the same (within a factor of three from a few to very many). "
     "The thousandth use of a model (run, parameter change, conversion, scenario) costs what the first did, and so does the thousandth model.",
     ["inputs", "histories"],
     "every length of run, size of table and number of uses",
     "Tests run short series a few times and measure nothing.",
     [B, T, I], [("_run / _step", T), ("run_scenarios", B), ("_step", I)],
     [], ["processor time per unit of work", "peak memory per step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
