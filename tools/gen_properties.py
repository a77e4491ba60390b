"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
B = "src/openscm_twolayermodel/base.py"
T = "src/openscm_twolayermodel/two_layer_model.py"
I = "src/openscm_twolayermodel/impulse_response_model.py"
E = "src/openscm_twolayermodel/errors.py"
U = "src/openscm_twolayermodel/utils.py"
K = "src/openscm_twolayermodel/constants.py"
V = "src/openscm_twolayermodel/_version.py"
N = "src/openscm_twolayermodel/__init__.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


ST2 = [("upper/lower temperatures, heat uptake", "result series since the last reset", T),
       ("time step index", "position in the run", T),
       ("parameter and driver magnitudes", "unit-converted copies made by the setters", T)]
STI = [("box temperatures, heat uptake", "result series since the last reset", I),
       ("time step index", "position in the run", I)]

prop("C01", "Two-layer trajectories follow the documented forward-difference equations",
     "In every history of setting parameters, time step and drivers, resetting and stepping, each two-layer time step advances the upper and lower temperatures by exactly the documented forward-difference energy balance, including efficacy and the state-dependent feedback, from the previous step's temperatures, the previous driver value, and the parameters, time step and drivers in force at that step. The first value of every run is zero, and values not yet reached stay undefined (NaN). A value once computed is never altered by later steps.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of constructor, setter, driver, reset, step and run calls, with rejected and interrupted calls in between, for every valid parameter value, time step and driver",
     "tests step one default model four times and compare with the same private helper functions; no test changes parameters during or between runs, uses extreme values, or steps after a failed call",
     [T, B], [("per-step update", T + ":_step"), ("next temperature helpers", T + ":_calculate_next_temp_upper/_lower"), ("setters that refresh the magnitudes", T)],
     ["the temperature series after each operation"], ST2)

prop("C02", "Impulse-response trajectories follow the exact two-timescale solution",
     "In every history of setting parameters, time step and drivers, resetting and stepping, each impulse-response time step relaxes each box exponentially over one time step, with that box's own timescale and sensitivity, towards sensitivity times the previous driver value, using the parameters in force at that step; the reported surface temperature is the sum of the boxes. The first value of every run is zero, and values not yet reached stay undefined (NaN). A value once computed is never altered by later steps.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of constructor, setter, driver, reset, step and run calls, with rejected and interrupted calls in between, for every valid parameter value, time step and driver",
     "tests compare four steps of a default model with the same private helper function; no test changes parameters during or between runs or uses extreme timescales",
     [I, B], [("per-step update", I + ":_step"), ("exponential relaxation", I + ":_calculate_next_temp"), ("setters", I)],
     ["the box temperature series after each operation", "the surface temperature rows of run_scenarios"], STI)

prop("C03", "Reported heat uptake closes the energy budget at every step",
     "At every step of every run of either model, reported heat uptake equals the previous driver value minus the radiative response to the previous surface temperature minus the efficacy correction to deep-ocean heat exchange; for the two-layer model it also equals the rate of change of the heat held in the two layers, so that uptake accumulated over a run equals the heat stored. This holds whatever the parameters, the units they are given in, the time step, and the re-parameterisations between steps.",
     ["histories", "inputs", "configurations"],
     "every run of either model under any history of re-parameterisation, with annual or monthly or directly set time steps",
     "tests compare the heat uptake with the same private helper, for one parameter set in default units, and compare the two models only to 0.1 W/m^2",
     [T, I, B], [("two-layer heat uptake", T + ":_calculate_next_rndt"), ("impulse response heat uptake", I + ":_calculate_next_rndt"), ("layer heat capacities", T + ":heat_capacity_upper/_lower")],
     ["the heat uptake series against temperatures and drivers"], ST2 + STI)

prop("C04", "A reset run depends only on current parameters, time step and drivers",
     "After any history of use - earlier runs, partial runs, overruns, parameter changes, rejected calls, interrupted calls, scenario runs - resetting a model and running it gives exactly the results of a freshly built model with the same parameters, time step and drivers. Reset leaves no trace of an earlier run and may be repeated.",
     ["histories", "fault_sequences"],
     "every history of public operations and injected failures before the final set-drivers/reset/run",
     "tests reset one model once and look only for NaN; reuse of one model over many parameter settings, which the notebooks rely on, is never compared with fresh models",
     [T, I, B], [("reset", T + ":_reset, " + I + ":_reset"), ("setters refresh derived values", T)],
     ["full result series of the reused model against a fresh model"], ST2 + STI)

prop("C05", "A scenario's result does not depend on the rest of the batch or earlier runs",
     "Running many scenarios in one call gives, for each scenario, exactly the result of running that scenario alone on a fresh model with the same parameters, whatever the order, number, lengths, periods, units and values of the other scenarios and whatever ran before on the same model. If a scenario cannot be run on its own because its time axis is not regular, adding other scenarios to the call must not make it run.",
     ["histories", "inputs", "fault_sequences"],
     "every batch composition and order, every sequence of earlier scenario runs (failed and interrupted ones included) on the same model",
     "tests use two scenarios of equal period and unit and re-run them on the very model instance under test",
     [B, T, I], [("per-scenario driver set, reset and run", B + ":run_scenarios"), ("dropping missing years per scenario", B + ":run_scenarios"), ("time step choice", B + ":_select_timestep")],
     ["run_scenarios results per scenario"], [("time step", "left over from earlier calls", B)])

prop("C06", "Interrupted operations never leave wrong results and can be retried",
     "If any operation is stopped at an arbitrary point by an interrupt, a failed allocation or an error from a library, it raises that error instead of returning a result, and no result value left in the model - then or after stepping on - is a finite number other than the one an undisturbed run gives; every parameter and the time step are what they were before or what the operation sets them to. Retrying the operation (for a run: reset and run again) gives exactly the undisturbed result, and everything done afterwards behaves as if the interruption had not happened.",
     ["fault_sequences", "crash_points", "histories"],
     "every instruction at which an exception can strike in any public operation, singly or repeatedly, in any history",
     "no test interrupts anything; crash points lie between any two instructions of the package",
     [B, T, I], [("series start as NaN and are written one by one", T + ":_reset/_step"), ("run results assembled only at the end", B + ":run_scenarios"), ("validation before assignment", B)],
     ["result series after an injected exception", "results of the retried operation"], ST2 + STI)

prop("C07", "Separate model instances never influence each other",
     "Two or more models - of either kind, built separately, built from one another's converted parameters, or copied - used in any interleaving, including from several threads that are preempted at any instruction, each produce exactly the results they produce when used alone. Sharing inputs (a scenario set, driver arrays, parameter quantities, class defaults) between models does not change this.",
     ["schedules", "histories"],
     "every interleaving of the operations of up to four clients, down to single instructions of the package, each with its own models and with shared inputs",
     "all tests are single-threaded and never use two models alternately",
     [B, T, I, K], [("all run state is held per instance", T + ":__init__, " + I + ":__init__"), ("scenarios are copied before use", B + ":_ensure_scenarios_are_scmrun")],
     ["operation results per client, interleaved against alone"], ST2 + STI)

prop("C08", "Inputs are never modified, and results are not tied to inputs",
     "No operation, whether it succeeds, fails or is interrupted, modifies what the caller passed in: scenario sets, data frames, driver arrays, parameter quantities, nor the package's defaults and constants. Results handed out are independent: changing a returned result or a returned parameter set alters neither the inputs nor the model nor any later result, and later use of the model or changes to the input scenarios do not alter results already returned.",
     ["histories", "fault_sequences", "inputs"],
     "every operation with every input form, at every instruction at which it may fail, followed by any modification of results or inputs by the caller",
     "tests never look at the inputs after a call and never modify a result",
     [B, T, I], [("copying of scenarios", B + ":_ensure_scenarios_are_scmrun"), ("copying of the base series", B + ":_create_ts")],
     ["fingerprints of all inputs and defaults before and after", "earlier results after later operations"])

prop("C09", "Rejected input raises the documented error and changes nothing",
     "A parameter, time step or driver array that is not a quantity is rejected with a TypeError, one with incompatible units with a unit error (a ValueError), a driver array with more than one dimension with an AssertionError, a reset without usable drivers with a model-state error, reversed timescales at construction with a ValueError, conversion with non-zero state dependence with a ValueError, and scenarios without world data for the driver with a ValueError. After a rejected setting the model's parameters, drivers and results are exactly what they were, and it keeps working.",
     ["histories", "inputs", "fault_sequences"],
     "every kind of invalid argument at every point of every history, repeatedly, for every parameter",
     "tests check the error of single bad constructor arguments, never what the model does afterwards or a rejection in mid-run",
     [B, T, I, E, U], [("validation before assignment", B + ":_assert_is_pint_quantity_with_units"), ("shape check", B + ":set_drivers"), ("driver check at reset", T + ":_reset, " + I + ":_reset")],
     ["exception type", "parameters, drivers and results after the rejection"])

prop("C10", "Results do not depend on the units in which values are expressed",
     "Giving the same physical parameter values, time step and drivers in other compatible units, in any mix and changing at any time, gives the same temperatures, heat uptake, derived heat capacities and converted parameters (up to rounding). This includes models built directly from converted parameters and scenarios that state their forcing in different units within one batch.",
     ["histories", "inputs", "configurations"],
     "two replicas receive the same command history, one in base units and one in arbitrary compatible units",
     "tests use one rescaled driver and default parameter units only",
     [B, T, I], [("conversion in the setters", T + ", " + I), ("per-scenario unit", B + ":run_scenarios"), ("heat uptake units", I + ":_calculate_next_rndt")],
     ["all results of both replicas after each command"])

prop("C11", "Parameter conversion reflects current parameters and round-trips",
     "At any point of any history, converting a two-layer model without state dependence gives an impulse-response parameter set with the same timescales and modal sensitivities as the two-layer equations with the current parameters, converting an impulse-response model gives two-layer parameters whose equations have the current timescales and sensitivities and the current efficacy, and converting there and back returns the original parameters. Heat capacities always match the current layer depths. Conversion leaves the model untouched. A two-layer model with state-dependent feedback (a not zero, however small) is refused conversion.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "every history of re-parameterisation (valid, rejected, interrupted and retried) of either model before a conversion, over the physically sensible parameter range",
     "tests convert two fixed freshly built models with the same formulas written out again",
     [B, T, I], [("conversion", T + ":get_impulse_response_parameters, " + I + ":get_two_layer_parameters"), ("helper parameters", B + ":_calculate_geoffroy_helper_parameters")],
     ["converted parameters against an eigenvalue analysis"])

prop("C12", "Two-layer model and converted impulse-response model agree",
     "For a two-layer model without state dependence, after any history, the impulse-response model built from its converted parameters and driven by the same forcing gives at every step the exact solution of the two-layer equations for stepwise constant forcing, in total temperature and in heat uptake, for any efficacy. The two-layer model itself converges to that solution as its time step shrinks.",
     ["histories", "inputs", "configurations"],
     "every parameter set in the physically sensible range, reached by any history of re-parameterisation, and every forcing series, with annual and monthly axes",
     "one test compares three parameter sets under one forcing to 0.1 K and 0.1 W/m^2",
     [B, T, I], [("conversion", T + ":get_impulse_response_parameters"), ("exact exponential steps", I + ":_calculate_next_temp"), ("forward differencing", T + ":_step")],
     ["both models' temperature and heat uptake series against a matrix-exponential solution"])

prop("C13", "Scenario results are complete and labelled with what produced them",
     "A scenario run returns, for each world driver series, exactly that driver series unchanged plus one series for each model output, on exactly the driver's own time points, with the output's name and unit, all the driver's metadata, the model's name as climate model, the parameter values (with units) in force during that call, and a run index shared within one scenario and different between scenarios. Nothing is lost, duplicated or mixed between scenarios, also when the same model is re-parameterised and run again.",
     ["histories", "inputs", "configurations"],
     "every batch (with arbitrary metadata columns, units, periods, repeated values) in every history of re-parameterisation, failed and interrupted calls",
     "tests look at the unit and climate model of one or two scenarios with identical metadata columns",
     [B, T, I], [("metadata assembly", B + ":run_scenarios"), ("output series", T + ":_get_run_output_tss, " + I + ":_get_run_output_tss")],
     ["all rows and metadata of the returned scenario set"])

prop("C14", "The time step follows each scenario set's own time axis",
     "Each scenario run steps with exactly one year for annual series and one month (a twelfth of a year) for monthly series, whatever time step was set or used before, and afterwards the model reports that time step. A set of series whose time axis is neither is refused without returning results, and a refusal does not disturb later runs; where no time step can be decided, the time step stays as it was.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of annual, monthly and irregular scenario sets on one model, with interrupted and refused calls and direct time step changes in between",
     "one test runs one annual and one monthly version of a single scenario",
     [B], [("time step choice", B + ":_select_timestep"), ("time step setter", B + ":delta_t")],
     ["time step after the call", "the step implied by the returned series"], [("time step", "seconds or years per step, kept on the model", B)])

prop("C15", "Results do not depend on progress display, clock, terminal or process",
     "With the progress display on or off, with a terminal that fails, blocks short or is closed, with a clock that stalls or jumps, under any string-hash seed, and with any global random state, a scenario run either raises the terminal's error or returns exactly the same results, and never changes global random state. After such a failure the model gives the same results as before.",
     ["configurations", "fault_sequences", "schedules"],
     "every combination and timing of display, terminal-write, clock and hash-seed faults during scenario runs",
     "tests run with one hash seed, a real clock and a working terminal",
     [B], [("progress bar", B + ":run_scenarios")],
     ["results under simulated environments against a quiet environment"])

prop("C16", "Scenarios from any source are read afresh, completely, or not at all",
     "Scenarios given as a scenario set, data frame or file path with the same content give the same results, and each run from a path reflects the file's content at that time. If reading fails part-way or the file is missing, the run raises and returns nothing, and a later run after the file is restored gives the correct results.",
     ["fault_sequences", "crash_points", "histories"],
     "every sequence of file replacement, truncation by a crashed writer, read errors, short reads and retries between scenario runs",
     "tests only pass in-memory scenario sets",
     [B], [("conversion of scenarios", B + ":_ensure_scenarios_are_scmrun")],
     ["results of runs from a simulated disk against runs from memory"])

prop("C17", "Only world data of the requested driver influences a run",
     "In a scenario set that also holds other variables, other regions or other driver variables, exactly the world series of the requested driver variable are run, and adding, changing, corrupting or removing any other series never changes their results. If there is no such series the run is refused with a ValueError and the model can still be used.",
     ["inputs", "histories", "fault_sequences"],
     "every mix of unrelated series (including ones with missing or absurd values or foreign units) around the driver series, in any history",
     "tests filter two drivers of the same shape, and one wrong region, in isolation",
     [B], [("driver filter", B + ":run_scenarios")],
     ["set of scenarios returned and their values, with and without the noise"])

prop("C18", "Once forcing stops changing, models settle at equilibrium",
     "From any state reached by any history, once forcing is held constant a stable two-layer or impulse-response model reaches, within a number of steps fixed by its slowest timescale, the equilibrium at which radiative response balances forcing, with all layers in balance and heat uptake going to zero; with forcing zero throughout it stays exactly at zero. Starting from rest, warming under constant positive forcing is monotonic and never exceeds equilibrium.",
     ["histories", "inputs", "fault_sequences"],
     "every stable parameter set, every disturbed forcing prefix (interruptions and re-parameterisations included), every constant final forcing",
     "no test runs to equilibrium",
     [T, I], [("step updates", T + ":_step, " + I + ":_step")],
     ["distance from equilibrium after the bound"], ST2 + STI)

prop("C19", "Results depend only on past drivers",
     "Temperatures and heat uptake at a step depend only on driver values before that step: changing, corrupting or extending the driver series from some point on leaves all earlier results, and the result at that point, exactly as they were, so the last driver value has no effect at all. Stepping one at a time, in any grouping, gives the same results as one run.",
     ["inputs", "histories", "fault_sequences"],
     "every driver series and every point at which its remainder is changed, corrupted, truncated or extended, for direct runs and scenario runs",
     "tests never compare runs with differing drivers",
     [T, I], [("use of the previous driver value", T + ":_step, " + I + ":_step")],
     ["results of paired runs up to the point of change"])

prop("C20", "The package imports and reports its version whatever git does",
     "Importing the package and reading its version never fails: if git is missing, cannot be started, exits with an error or is cut off at any of its invocations, the version falls back to the one in the name of the unpacked directory (openscm_twolayermodel-VERSION) or else to an unknown version, and otherwise it is the closest version tag with commit distance, commit and dirty marks rendered as documented; in a git archive it is the version tag recorded in the archive. A failing git never yields a version that claims to be a clean tagged release.",
     ["fault_sequences", "configurations"],
     "every sequence of outcomes of the git invocations (start failures, error exits, empty or undecodable output, any tags, distance, commit and dirty state), in a working tree, an unpacked directory or an archive",
     "the test suite imports the package once, in one working tree with a working git",
     [V, N], [("git queries", V + ":git_pieces_from_vcs"), ("fall-backs", V + ":get_versions"), ("command runner", V + ":run_command")],
     ["import outcome and version under a simulated git"])

prop("C21", "Climate sensitivity conversion is minus forcing over lambda in any units",
     "Converting a feedback parameter to equilibrium climate sensitivity returns minus the doubling forcing divided by the feedback parameter, for every pair of quantities in any units, and rejects non-quantities with a TypeError.",
     ["inputs"], "every pair of quantities",
     "tests sample a dozen values in two units",
     [U], [("conversion", U + ":convert_lambda_to_ecs")], ["return value"])

prop("C22", "README dependency list equals the packaged dependency list",
     "The dependency list shown to users in the README is the one the package installs with.",
     ["configurations"], "every state of the two lists",
     "only a separate script in continuous integration compares them",
     ["setup.py", "README.rst", "scripts/check_requirements_in_readme.py"], [("comparison script", "scripts/check_requirements_in_readme.py")], ["the two lists"])

prop("C23", "Saved or copied models continue exactly where the original stood",
     "At any point of any history, also in the middle of a run or after an interrupted operation, a model that is deep-copied, or pickled and loaded again in the same or in a newly started process (with the unit registry the package uses set as pint's application registry, as pint requires), reports the same parameters, time step, drivers and results as the original, and continued with the same operations gives the same results and errors. Saving or copying changes nothing in the original, and from then on neither influences the other.",
     ["histories", "crash_points", "fault_sequences"],
     "every history, every point of it at which models are saved or copied, every point at which the process dies and is started again from what was saved",
     "no test copies or pickles a model, although parameter sweeps over process pools and checkpointed runs rely on it",
     [B, T, I], [("all state is held in plain attributes of the instance", T + ":__init__, " + I + ":__init__"), ("setters keep value and magnitude together", B + ", " + T + ", " + I)],
     ["reported values and operation results of loaded and copied models against an uninterrupted execution"], ST2 + STI)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
