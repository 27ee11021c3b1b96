"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
A = "src/ciceroscm/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                     "observe_at": observe or [], "hook_needed": None}}
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A parallel ensemble equals running every member alone, in order",
  "Running an ensemble of scenarios and configurations returns exactly one row for every scenario, configuration and requested variable that the model has (none lost, repeated or mislabelled), ordered by scenario as given, then configuration as given, then variable as requested. Each row holds the values obtained by running that scenario with that configuration alone on a newly made model; parameters a configuration leaves out have their default values. This holds for every number of workers, however the work is split over them and in whatever order they finish.",
  ["schedules", "inputs", "configurations"],
  "every scenario list, configuration list and variable list, every worker count from 1 up, every assignment of work to worker processes (reused or new), every completion order and relative speed",
  "The tests run one or two fixed ensembles with one worker count each on real processes, where the operating system picks the schedule, and compare few values.",
  [A+"parallel/cscmparwrapper.py", A+"parallel/_parallel_process.py", A+"parallel/distributionrun.py"],
  [("run_ciceroscm_parallel", A+"parallel/cscmparwrapper.py: batching of configurations over workers"),
   ("_run_parallel", A+"parallel/_parallel_process.py: submit, wait, collect in submission order"),
   ("CSCMParWrapper.run_over_cfgs", A+"parallel/cscmparwrapper.py: one model instance reused for the members of a batch")],
  [("CSCMParWrapper.cscm", "model instance shared by the members of a batch", A+"parallel/cscmparwrapper.py")],
  ["data frame returned by run_ciceroscm_parallel and DistributionRun.run_over_distribution"])
p("C02", "An ensemble run under failures is complete or raises an error",
  "If a member of an ensemble run fails, a worker process dies, or work or results cannot be handed over between processes, the ensemble run ends with an error; it never returns a table with missing, repeated or altered rows and never waits forever. A run that does return is complete and correct. After the failure has gone, the same call in the same process gives the complete and correct result.",
  ["fault_sequences", "crash_points", "schedules"],
  "every member and every point of its calculation at which it can fail, every moment a worker can die, every hand-over that can fail, for every schedule and worker count",
  "No test makes a member or worker of an ensemble fail.",
  [A+"parallel/_parallel_process.py", A+"parallel/cscmparwrapper.py"],
  [("_run_parallel", A+"parallel/_parallel_process.py: error of the first failed job is raised again"),
   ("run_ciceroscm_parallel", A+"parallel/cscmparwrapper.py: pool used as context manager, results joined")],
  None, ["return value or exception of run_ciceroscm_parallel"])
p("C03", "The job runner returns each job's own result once, in order",
  "The generic job runner gives one result for each configuration, at the position of that configuration, being what the function returned for it (whatever that value is), and calls the function exactly once for each. This holds with or without a pool, for any numbers of jobs to do first serially and first in parallel, for jobs finishing in any order, for configurations passed as single argument or as keywords. If a job fails, a worker dies or the time limit passes, it raises that error instead of returning.",
  ["schedules", "fault_sequences", "inputs"],
  "every number of jobs, split into front serial, front parallel and rest, every completion order, every failing job and time limit",
  "The test suite has no test of the job runner on its own; the ensemble tests always use zero front jobs and a pool.",
  [A+"parallel/_parallel_process.py"],
  [("_parallel_process", A+"parallel/_parallel_process.py: front serial, front parallel, rest"),
   ("_run_parallel", A+"parallel/_parallel_process.py: as_completed with time limit, results in order of submission")],
  None, ["return value or exception of _parallel_process", "calls of the job function"])
p("C04", "A reused model instance gives the same results as a new one",
  "Running a model instance again gives the same results as running a newly made instance of the same scenario with the same parameter values, whatever runs were done on it before, whether they succeeded or failed and whatever form of output they asked for; thermal and emission parameters that are not given have their defaults, carbon cycle parameters that are not given keep the value last given to that instance. Results contain nothing from earlier runs. Results that were handed out are not changed by later runs, and changing them does not change later runs.",
  ["histories", "inputs", "configurations"],
  "every sequence of runs (with any parameters, output forms, rejected parameters) on one or several instances, every use the caller makes of results in between",
  "The tests reuse an instance in a handful of fixed sequences, most tests make a new instance for each run.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"carbon_cycle/carbon_cycle_mod.py", A+"carbon_cycle/carbon_cycle_mod_box.py", A+"carbon_cycle/carbon_cycle_abstract.py", A+"thermal_model/"],
  [("CICEROSCM.initialise_output_arrays", A+"ciceroscm.py"),
   ("ConcentrationsEmissionsHandler.reset_with_new_pams", A+"concentrations_emissions_handler.py"),
   ("reset_co2_hold", A+"carbon_cycle/carbon_cycle_mod.py, carbon_cycle_mod_box.py")],
  [("results", "results of the last run", A+"ciceroscm.py"), ("pamset", "parameters in use", A+"concentrations_emissions_handler.py"), ("co2_hold", "carbon cycle state", A+"carbon_cycle/carbon_cycle_mod.py")],
  ["CICEROSCM.results after each run", "output files"])
p("C05", "A run interrupted at any point leaves the instance usable",
  "If a run is broken off at any point by an interrupt, by running out of memory or by an input/output error, the error reaches the caller, and the next run of the same instance has exactly the results of a newly made instance with the same parameters (a carbon cycle parameter that is not given has the value last given to the instance; if the interrupted run gave it, either the value before or that one). Other instances and results handed out before are not affected.",
  ["crash_points", "fault_sequences", "histories"],
  "every program point of a run at which the interruption can hit, every kind of interruption, every history of runs before and after",
  "No test interrupts a run.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"carbon_cycle/", A+"thermal_model/"],
  [("CICEROSCM._run", A+"ciceroscm.py: all run state is set anew at the start of a run"),
   ("reset_with_new_pams", A+"concentrations_emissions_handler.py")],
  None, ["exception of the interrupted run", "CICEROSCM.results of the next run"])
p("C06", "Model instances used in concurrent threads do not affect each other",
  "Threads that each make and run their own model instances, serial ensembles or parameter samples get the results they would get alone, also when they share the input tables or write to the same folder under different names. This holds for every interleaving of the threads.",
  ["schedules", "histories"],
  "every interleaving of up to several threads, each with any sequence of model runs",
  "No test uses threads, and a test cannot choose the interleaving.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"input_handler.py", A+"_utils.py", A+"thermal_model/", A+"carbon_cycle/", A+"parallel/"],
  [("no shared mutable state", "instances copy class and module level defaults: "+A+"_utils.py cut_and_check_pamset, thermal_model/abstract_thermal_model.py, carbon_cycle/common_carbon_cycle_functions.py")],
  [("thermal_model_required_pamset, carbon_cycle_model_required_pamset", "defaults shared by all instances", A+"thermal_model/, carbon_cycle/")],
  ["CICEROSCM.results and output files of each thread"])
p("C07", "Input tables and parameters of the caller are never changed",
  "The model never changes the input tables (emissions, concentrations, gas parameters, natural emissions, forcing, perturbations) nor any parameters or configurations the caller passed in (neither values nor which of them there are; the scenario dictionary itself may get further entries), at no moment, neither when making an instance, running it, running an ensemble, nor when any of these fails or is interrupted part-way. Making several instances from the same tables therefore always gives the same results, with perturbations applied exactly once. Reading variables from results changes neither them nor the inputs.",
  ["histories", "crash_points", "inputs"],
  "every scenario form and sequence of instances, runs and ensembles on shared tables, every point at which one is interrupted",
  "The tests mostly pass file names, or tables that are not looked at afterwards.",
  [A+"concentrations_emissions_handler.py", A+"perturbations.py", A+"input_handler.py", A+"parallel/cscmparwrapper.py"],
  [("perturb_emissions on a copy", A+"concentrations_emissions_handler.py"), ("InputHandler.get_data", A+"input_handler.py: returns the caller's table itself")],
  [("df_gas, emis, conc_in, nat_emis_*", "references to the caller's tables", A+"concentrations_emissions_handler.py")],
  ["caller's data frames, arrays, dictionaries and lists"])
p("C08", "Output files of a finished run are complete and correct",
  "When a run that writes files returns without error, every output file for that kind of run is present under the requested folder and prefix and holds all years and the values of that run (to the digits written), replacing older content, and no file outside that prefix is touched. Plots, if asked for, are made too and show the values of that run for all years. If a file cannot be opened or fully written the run raises an error. When the cause is gone, running again gives complete and correct files.",
  ["fault_sequences", "crash_points", "histories"],
  "every file and every byte position at which opening, writing, flushing or closing can fail, every earlier content of the folder, every sequence of runs with the same or different prefixes",
  "The tests write to an empty folder without errors and compare a few columns.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"make_plots.py"],
  [("CICEROSCM.write_data_to_file", A+"ciceroscm.py"), ("write_output_to_files", A+"concentrations_emissions_handler.py")],
  None, ["files in the output folder", "exception of the run"])
p("C09", "A saved ensemble configuration is loaded back exactly or refused",
  "An ensemble of configurations written to a file and loaded again, any number of times, has the same configurations in the same order with the same values, and the same meta information. A file that was not completely written, because of a write error or a crash during saving, is refused with an error when loaded: loading never gives anything but an ensemble that was saved under that name. A failed save raises an error, and saving again afterwards works.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of sampling, saving, loading and saving again (whole or in chunks, with or without meta information), every write error, and every crash point with any part of the unsynchronised data lost",
  "The tests write and read one file without errors.",
  [A+"parallel/distributionrun.py", A+"parallel/_configdistro.py"],
  [("DistributionRun.__init__", A+"parallel/distributionrun.py: load"), ("DistributionRun.write_configs_to_json", A+"parallel/distributionrun.py"), ("_ConfigDistro.make_single_config_list", A+"parallel/_configdistro.py")],
  [("json file", "saved configurations and meta information", "file system")],
  ["DistributionRun.cfgs and meta_info after loading"])
p("C10", "Sampled ensembles are well-formed for every random outcome",
  "For whatever numbers the random generator delivers, a sampled ensemble has exactly the requested number of configurations with distinct identifiers; each holds every fixed parameter with its fixed value and every sampled parameter with its own sample, in the parameter group of the model part that uses it. Latin hypercube samples lie within the prior and each of the equal slices of each parameter's prior holds exactly one; gaussian samples have the prior's mean and spread. Splitting in chunks only partitions the list, and successive samples are independent draws.",
  ["inputs", "configurations", "histories"],
  "every sequence of random numbers including the extreme values of the generator, every prior, set of fixed values, method, sample size and chunk size",
  "The tests check sizes and ranges of a few samples from an uncontrolled random generator.",
  [A+"parallel/_configdistro.py"],
  [("_ConfigDistro.make_config_lists", A+"parallel/_configdistro.py"), ("get_samples_from_distro_latin / _gaussian", A+"parallel/_configdistro.py")],
  None, ["return value of _ConfigDistro.make_config_lists", "configuration files"])
p("C11", "Failing or incomplete input files never become results",
  "If an input file cannot be opened, fails while being read, or lacks years or records the run needs, making or running the model raises an error; it never goes on with other, partial or default data in its place (except that, as documented, a natural emissions file that does not exist is looked for in input_OTHER/NATEMIS of the working directory). A file that ends early ends after a complete record; the lists of gases and of perturbations have no records the run needs, they define the run. If making and running succeed, results are those from the complete files, however the reads are split up. Once an instance is made, changing or removing the input files does not change its results.",
  ["fault_sequences", "inputs", "histories"],
  "every input file of every kind of run, every read at which it fails, every record boundary at which it ends early, every moment between opening and running at which it changes",
  "The tests only use complete files, apart from one missing file.",
  [A+"input_handler.py", A+"concentrations_emissions_handler.py", A+"formattingtools/reformat_inputdata_to_cscm_format.py"],
  [("check_inputfiles", A+"input_handler.py"), ("InputHandler.get_data and read methods", A+"input_handler.py"), ("read_data_on_year_row", A+"input_handler.py: length check by set_axis")],
  None, ["exception when making or running the model", "CICEROSCM.results"])
p("C12", "Results do not depend on process, clock, hashing or random state",
  "Runs and ensembles with the same inputs and parameters have the same results, in content and layout, in every process and at every time: they do not depend on hash randomisation, the clock, the working directory, environment, processor count, process id or the state of random generators, and runs do not disturb the random generator state of the caller.",
  ["configurations", "schedules", "histories"],
  "every hash seed, clock value and jump, random generator state, working directory, processor count and process identity",
  "A test run has one environment, and passes in it or not.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"perturbations.py", A+"parallel/"],
  [("no use of clock or random numbers in the model", A+"ciceroscm.py, concentrations_emissions_handler.py, thermal_model/, carbon_cycle/"), ("set operations only used for look-up", A+"perturbations.py, concentrations_emissions_handler.py add_results_to_dict")],
  None, ["CICEROSCM.results, ensemble data frames"])
p("C13", "Runs and ensembles leave the process as they found it",
  "Making and running models, running ensembles and sampling, saving and loading configurations, whether they succeed, are rejected, fail or are interrupted, leave the process as it was: working directory, environment variables, numpy, pandas and warning settings, logging, signal handlers and recursion limit are unchanged; no file handle, thread, worker process or unfinished job is left behind; no files are made other than the requested output; instances the caller has dropped are not kept alive, and memory held by the package does not grow with the number of runs.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of operations, every point at which one fails or is interrupted, every file, worker and hand-over fault",
  "The tests never look at the process around the calls, and no test makes a run or ensemble fail half way.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"input_handler.py", A+"parallel/", A+"thermal_model/", A+"carbon_cycle/"],
  [("pool used as context manager", A+"parallel/cscmparwrapper.py run_ciceroscm_parallel"), ("files opened in with blocks", A+"input_handler.py, parallel/distributionrun.py"), ("np.errstate and similar only as context", A+"thermal_model/, carbon_cycle/")],
  None, ["process settings, open files, threads, pools, files, module level data"])
p("C14", "A copied or pickled model instance behaves as the original",
  "A deep copy of a model instance, or one that was pickled and loaded in the same or another process, at any time, before or after any runs (successful, rejected or interrupted), has the same results in every later run as the original would have, including carbon cycle parameters given to the original before; it holds the results the original held. Original and copies are independent afterwards: running or failing one, or changing its results, does not affect the others.",
  ["histories", "crash_points"],
  "every history of runs, failures, copies and hand-overs between processes on any number of originals and copies",
  "No test copies or pickles a model instance.",
  [A+"ciceroscm.py", A+"concentrations_emissions_handler.py", A+"carbon_cycle/", A+"thermal_model/"],
  [("plain instance attributes only", A+"ciceroscm.py, concentrations_emissions_handler.py, carbon_cycle/carbon_cycle_abstract.py")],
  [("ce_handler, carbon_cycle, results", "all state of an instance is reachable from its attributes", A+"ciceroscm.py")],
  ["CICEROSCM.results and output files of originals and copies"])
p("C15", "A carbon cycle model used alone does not remember earlier calculations",
  "A carbon cycle model made on its own and set back (reset_co2_hold) gives, for the same emissions and parameters, the same concentrations, back-calculated emissions, fluxes, airborne fractions and output tables as a newly made one, whatever was calculated with it before and whether that succeeded, was rejected or was interrupted; parameters that are not given keep the value last given. After emissions were back-calculated from concentrations the model is in the state of having run those emissions forward. Other models are not affected.",
  ["histories", "crash_points", "inputs"],
  "every sequence of forward years, back-calculations, outputs, parameter changes (accepted or rejected), resets and interruptions on any number of models",
  "The tests do one or two fixed calculations on a new model.",
  [A+"carbon_cycle/"],
  [("reset_co2_hold", A+"carbon_cycle/carbon_cycle_mod.py, carbon_cycle_mod_box.py"), ("back_calculate_emissions, guess_iteration", A+"carbon_cycle/carbon_cycle_abstract.py"), ("restore_start_pamset", A+"carbon_cycle/")],
  [("co2_hold", "carbon pools, history of emissions", A+"carbon_cycle/")],
  ["return values of co2em2conc, back_calculate_emissions, get_carbon_cycle_output and flux functions"])
p("C16", "Models stepped year by year are independent and can be saved in the middle",
  "A thermal model, a carbon cycle model or a concentrations and emissions handler coupled to a thermal model that a caller steps year by year gives in every year what the same inputs give to a new model alone: whatever other models in the process are stepped, run, made or interrupted in between, and whether the model is the original, a deep or pickled copy made between two years that goes on with the same or other inputs, or was restored (in the same or a new process) from a state pickled earlier after a crash or an interrupted year. Arrays and dictionaries given as inputs are not changed or kept, and values handed out for a year stay as they were.",
  ["histories", "crash_points", "schedules", "inputs"],
  "every interleaving of years of any number of models in any number of processes, with copies, saved states, crashes and interruptions at any point",
  "The tests step single models and make no copies.",
  [A+"thermal_model/", A+"carbon_cycle/", A+"concentrations_emissions_handler.py"],
  [("energy_budget, set_feedback_gregory", A+"thermal_model/"), ("co2em2conc", A+"carbon_cycle/"), ("emi2conc, conc2forc, add_results_to_dict", A+"concentrations_emissions_handler.py")],
  [("layer temperatures, forcing of the year before", "thermal state", A+"thermal_model/"), ("co2_hold", "carbon pools", A+"carbon_cycle/"), ("conc, forc, emis arrays", "handler state", A+"concentrations_emissions_handler.py")],
  ["values returned in every year, output tables at the end", "inputs the caller keeps"])
# not claimed: pure functions of their inputs
p("C20", "The thermal models conserve energy",
  "Over any run the heat taken up by the ocean equals the time integral of the radiative imbalance.",
  ["inputs", "configurations"], "every forcing and parameter set",
  "Tests compare with stored results.", [A+"thermal_model/"], [("energy_budget", A+"thermal_model/upwelling_diffusion_model.py")])
p("C21", "Total forcing is the sum of the component forcings",
  "In every year the total forcing equals the sum of the forcings of all components, and equals the mean of the two hemispheric forcings without the sun.",
  ["inputs"], "every emission and concentration input", "Tests compare a few sums.", [A+"concentrations_emissions_handler.py"], [("conc2forc", A+"concentrations_emissions_handler.py")])
p("C22", "Later inputs do not change earlier results",
  "Extending a run to a later end year, or changing inputs after some year, does not change results of years before.",
  ["inputs"], "every input and year", "Tests use fixed year ranges.", [A+"ciceroscm.py"], [("year loop", A+"ciceroscm.py _run")])
p("C23", "Without pattern effect parameter the feedback is constant",
  "With a zero pattern effect parameter results do not depend on the aerosol share of the forcing.",
  ["inputs"], "every forcing", "Tests use one case.", [A+"thermal_model/"], [("set_feedback_gregory", A+"thermal_model/")])
p("C24", "Back-calculated emissions reproduce the concentrations",
  "Running the carbon cycle with the emissions back-calculated from a concentration pathway gives that pathway.",
  ["inputs"], "every concentration pathway and carbon cycle parameter set", "Tests use one pathway.", [A+"carbon_cycle/"], [("back_calculate_emissions", A+"carbon_cycle/carbon_cycle_abstract.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
