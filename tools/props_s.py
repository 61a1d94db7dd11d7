# Property texts: sampling core (sampler, pools, storages)
SAMPLER = "mlmc/sampler.py"
POOL = "mlmc/sampling_pool.py"
PBS = "mlmc/sampling_pool_pbs.py"
JOB = "mlmc/tool/pbs_job.py"
STO = "mlmc/sample_storage.py"
HDF = "mlmc/sample_storage_hdf.py"
H5 = "mlmc/tool/hdf5.py"


def P(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


PROPS = [
P("S01", "Levels form a telescoping chain of fine/coarse simulation pairs",
  "For any list of level parameters, level l simulates with the l-th parameters as the fine step and the (l-1)-th as the coarse step, and level 0 has no real coarse simulation. "
  "Every level's simulation knows its own level number and the one result format, so the fine simulation of level l-1 and the coarse one of level l are the same model.",
  ["inputs", "configurations"], "all lists of level parameters, any number of levels",
  "Tests use one to three levels with fixed steps; a shifted or swapped pairing on deeper levels still yields numbers and only biases the estimate.",
  [SAMPLER, "mlmc/level_simulation.py", "mlmc/sim/simulation.py"],
  [("level simulation construction", SAMPLER + " Sampler.__init__ / _create_level_simulations")]),
P("S02", "Sample ids are unique and numbering continues after a restart",
  "Every sample ever scheduled in one storage gets a different id that names its level and its running number on that level. "
  "Numbering continues from the number of samples already recorded as scheduled on that level, within a run and after reopening the storage.",
  ["histories", "inputs"], "all sequences of target changes, scheduling rounds and restarts",
  "A collision needs a specific history (several scheduling rounds, restart, many levels); tests look at one round.",
  [SAMPLER], [("id formatting and running counter", SAMPLER + " Sampler.schedule_samples, Sampler.__init__")]),
P("S03", "What is scheduled is exactly what is recorded, up to the target",
  "One scheduling call on each level hands over exactly the target number minus the number already scheduled samples, each with the simulation of its own level. "
  "The storage records for that level exactly the ids that were handed to the pool.",
  ["histories", "inputs"], "all targets, level counts and prior schedule states",
  "Tests check total counts on two levels; a dropped, doubled or misrouted id only shows in specific target sequences.",
  [SAMPLER], [("batch computation and recording", SAMPLER + " Sampler.schedule_samples")]),
P("S04", "Every polled batch is stored and polling ends only when nothing runs",
  "Whenever the sampler collects finished samples from the pool, the successful results, the failures and the measured times of that poll are all passed to the storage. "
  "Waiting ends only when the pool reports no running sample or the time limit has expired, and the remaining number is what the caller gets.",
  ["schedules", "histories"], "all interleavings of sample completion with polling",
  "A lost batch appears only when samples finish between particular polls.",
  [SAMPLER], [("poll loop", SAMPLER + " Sampler.ask_sampling_pool_for_samples"), ("storing", SAMPLER + " Sampler._store_samples")]),
P("S05", "The random seed depends on the sample id only, in every pool",
  "The seed a sample's simulation receives is a deterministic function of its complete sample id and of nothing else. "
  "Serial, process, thread and batch-system pools give the same sample the same seed, so a repeated or renewed sample repeats its input.",
  ["schedules", "configurations", "inputs"], "all sample ids, pools, worker counts, execution orders",
  "Tests never compare seeds across pools, processes or runs; statistics look fine with wrong seeds.",
  [POOL, PBS, JOB], [("seed computation", POOL + " SamplingPool.compute_seed / calculate_sample"), ("seed transport", PBS + " schedule_sample; " + JOB + " calculate_samples")]),
P("S06", "One failing sample never stops sampling and is reported exactly once",
  "Any error in a sample's calculation or in its workspace preparation ends as one failed record with a non-empty message under that sample's id and level, and the other samples go on. "
  "A result whose fine and coarse lengths do not fit the declared result format counts as failed; every calculated sample is reported exactly once, either as successful with its (fine, coarse) pair or as failed.",
  ["fault_sequences", "inputs"], "all exceptions and malformed results at any sample, in serial, thread and process pools",
  "Tests inject one kind of failure in one pool; error paths in callbacks and file handling stay unexecuted.",
  [POOL], [("sample calculation with error capture", POOL + " SamplingPool.calculate_sample"), ("hand-over", POOL + " OneProcessPool.schedule_sample, ProcessPool.result_callback")]),
P("S07", "No finished sample is lost or repeated between worker callback and collector",
  "A sample that finishes at any moment, also while results are being collected, is returned by exactly one collection. "
  "The reported number of running samples is the number scheduled minus the number returned so far.",
  ["schedules"], "all interleavings of worker callbacks with collection",
  "The losing window is a few instructions wide; tests hit it only by luck.",
  [POOL], [("result queues", POOL + " OneProcessPool.get_finished, _save_failed/_save_successful")]),
P("S08", "Cleaning never deletes anything but the finished sample's own workspace",
  "Removing a sample's workspace deletes only the directory of that sample below the pool's output directory. "
  "The first successful ones and the failed ones are copied to the archive directories before deletion; with debugging on, neither a successful sample's workspace nor existing output is deleted.",
  ["inputs", "configurations"], "all samples, pools and settings of clean and debug",
  "Tests do not compare directory trees; a wrong path deletes user data only in specific settings.",
  [POOL, JOB], [("clean-up", POOL + " SamplingPool.move_successful_rm, move_failed_rm, remove_sample_dir"), ("worker clean-up", JOB + " PbsJob.calculate_samples")]),
P("S09", "Stored batches are appended in order under their own level",
  "Saving a batch of finished samples appends every one of its ids, result pairs or failure messages behind what is already stored on the batch's level and changes nothing stored before. "
  "The i-th stored successful id always belongs to the i-th stored result pair.",
  ["histories", "inputs"], "all sequences of batches over all levels, batch sizes and result lengths",
  "Tests append a few equally sized batches; off-by-one offsets and id/value misalignment depend on history.",
  [STO, HDF, H5], [("append to datasets", H5 + " LevelGroup._append_dataset, append_successful, append_failed"), ("routing", HDF + " SampleStorageHDF.save_samples")]),
P("S10", "Reopening an existing storage file never destroys stored data",
  "Opening an existing sample file for continuing or for reading keeps all stored samples, ids, failures, costs and the header. "
  "Level datasets are only ever created when missing and only ever grow.",
  ["histories", "crash_points"], "all sequences of closing, crashing and reopening",
  "Tests reopen a fresh file once; destruction needs an existing file with data and a particular entry path.",
  [HDF, H5], [("file opening", H5 + " HDF5.*, LevelGroup.*"), ("append flag", HDF + " SampleStorageHDF.__init__, save_global_data")]),
P("S11", "Continuing with a different result format is refused",
  "When results are already stored, starting with a result format that differs in any quantity's name, unit, shape, times or locations raises an error before anything is overwritten; an equal format is accepted. "
  "The stored format is read back as it was saved, for named and for point locations.",
  ["inputs", "histories"], "all pairs of stored and requested result formats",
  "Tests compare one or two formats; asymmetric or partial comparison shows only for particular differences.",
  [HDF, "mlmc/quantity/quantity_spec.py", H5], [("format check", HDF + " SampleStorageHDF.save_result_format / load_result_format"), ("comparison", "mlmc/quantity/quantity_spec.py QuantitySpec.__eq__")]),
P("S12", "Unfinished samples are exactly the scheduled ones with no outcome",
  "After reopening, the unfinished samples are those recorded as scheduled on any level that are neither among the collected nor among the failed ones. "
  "A new sampler hands exactly this set to the pool for recovery.",
  ["histories", "crash_points"], "all histories of scheduling, collecting, failing and restarting",
  "Needs a storage with a mix of outcomes on several levels.",
  [SAMPLER, HDF, H5], [("set difference", H5 + " LevelGroup.get_unfinished_ids"), ("hand-over", SAMPLER + " Sampler._check_failed_samples / __init__")]),
P("S13", "Renewing failed samples repeats each with its own id and level",
  "Renewing schedules every failed sample of every level again, under its old id and with the simulation of its own level. "
  "The recorded failures are cleared only after all of them have been scheduled.",
  ["histories", "inputs"], "all sets of failed ids over all levels",
  "No test renews failures on several levels.",
  [SAMPLER, HDF, H5], [("renewal", SAMPLER + " Sampler.renew_failed_samples"), ("clearing", HDF + " SampleStorageHDF.clear_failed")]),
P("S14", "Sample targets never shrink and additions never overshoot the estimate",
  "Requesting targets per level raises a level's target to the requested number when it is larger and otherwise leaves it. "
  "Adding samples towards an estimated number requests on each level no fewer than already scheduled and never more than the estimate unless that many are scheduled already. "
  "Waiting for such a batch ends only when every level has finished the asked share of its scheduled samples.",
  ["histories", "inputs"], "all sequences of requests and estimates",
  "Tests call it once with increasing targets.",
  [SAMPLER], [("targets", SAMPLER + " Sampler.set_level_target_n_samples, process_adding_samples")]),
P("S15", "Cost per sample is total measured time over number of measured samples",
  "Every measured sample time is handed to the storage exactly once, under the sample's level. "
  "The cost per sample of a level is the sum of all saved times divided by the sum of the saved sample counts, over any number of saved batches and after reopening.",
  ["histories", "schedules"], "all sequences of polls and saved batches",
  "Costs are only used for planning; tests never check them over several batches.",
  [POOL, STO, HDF, H5], [("time accumulation", POOL + " OneProcessPool._save_running_time, get_finished"), ("cost sums", STO + " Memory.save_n_ops; " + HDF + " save_n_ops / get_n_ops")]),
P("S16", "Finished counts are collected plus failed, per level",
  "The number of finished samples of each level equals the number of its collected samples plus the number of its failed ones, after any sequence of saved batches, in both storages. "
  "Levels without any outcome count zero.",
  ["histories"], "all sequences of batches over levels, including all-failed ones",
  "Tests have no failed samples on most levels.",
  [STO, HDF, H5], [("counting", STO + " Memory.n_finished; " + HDF + " SampleStorageHDF.n_finished; " + H5 + " LevelGroup.n_items")]),
P("S17", "Reading samples returns every stored pair once in component-sample-pair order",
  "Reading a level in chunks returns all its stored samples exactly once, in stored order, as arrays indexed by component, sample and fine/coarse. "
  "Only on level 0 is the placeholder coarse column left out. A level with no stored sample reads as empty.",
  ["inputs", "histories"], "all sample counts, result sizes and chunk sizes",
  "Tests read small storages that fit one chunk.",
  [STO, HDF, H5], [("reading", STO + " Memory.sample_pairs_level, chunks; " + HDF + " sample_pairs_level; " + H5 + " LevelGroup.collected, chunks")]),
P("S19", "Initial sample targets form the requested sequence over the levels",
  "Explicit numbers given for three or more levels become the targets of the levels in order. Two numbers n0, nL give on level l of L+1 levels the rounded geometric interpolation n0^(1-l/L) nL^(l/L) "
  "(n0 for a single level), one number gives n0 with a default last number. The same rule is used by Sampler.set_initial_n_samples and estimator.determine_n_samples.",
  ["inputs", "configurations"], "all numbers of levels and requested numbers",
  "Tests set two equal or explicit numbers on one or two levels.",
  [SAMPLER, "mlmc/estimator.py"], [("initial targets", SAMPLER + " Sampler.set_initial_n_samples / sample_range"), ("function", "mlmc/estimator.py determine_n_samples")]),
P("S20", "Storage summaries describe exactly the stored data",
  "For any history the storage reports, for every level in level order, as many collected samples as it holds stored pairs of that level (zero where none is stored). "
  "The level ids, the number of levels, the level parameters and the scheduled sample ids it reports are those saved, per level and in order, in memory and in the HDF file.",
  ["inputs", "histories"], "all numbers of levels, sample counts and histories of saves",
  "Tests query full storages with samples on every level.",
  [STO, HDF, H5], [("summaries", STO + " Memory.get_n_collected, get_level_ids, get_n_levels, get_level_parameters; " + HDF + " same; " + H5 + " LevelGroup.collected_n_items, HDF5.level_parameters")]),
]
