# Property texts: PBS pool and worker
from props_s import P, PBS, JOB

PROPS = [
P("P01", "Every sample of a finished PBS job is reported exactly once",
  "When the queue reports a job as finished, every sample scheduled in it is returned once under its level: with its result if the worker stored one, with its error message if it stored a failure, "
  "and as failed otherwise. The job then stops being watched; no other watched job is dropped or skipped, whatever the order and number of jobs finishing in one poll.",
  ["schedules", "histories", "faults"], "all job sets, finishing orders, worker crash points and qstat failures",
  "No test runs a queue system with several jobs ending in one poll or a worker killed half-way.",
  [PBS, JOB], [("status polling", PBS + " SamplingPoolPBS._qstat_pbs_job"), ("collection", PBS + " SamplingPoolPBS._get_result_files"), ("file reading", JOB + " PbsJob.read_results")]),
P("P02", "Submitting a PBS job records it first and never loses or repeats samples",
  "Before a job is submitted, its schedule file and the sample-to-job map hold all of its samples (earlier entries kept). The pending list is emptied and the job number advanced only after a successful submission; "
  "samples waiting for submission and samples of unfinished jobs are counted as running. A pool started in an existing directory numbers its jobs behind all existing ones.",
  ["faults", "histories", "crash points"], "all submission failures, crash points around qsub and restarts",
  "qsub is not available to tests; a failing submission, a crash before or after it, or a second run in the directory is never exercised.",
  [PBS, JOB], [("submission", PBS + " SamplingPoolPBS.execute"), ("numbering", PBS + " SamplingPoolPBS._get_job_count"), ("running count", JOB + " PbsJob.get_job_n_running")]),
P("P03", "PBS master and worker agree on every shared file",
  "Each file exchanged between the sampling process and the job process (settings, schedule, level simulation, successes, failures, times, command arguments) is read with the same name, directory and field order it was written with. "
  "The worker stores every sample's outcome under the sample's own level and id before it starts the next sample, keeping what was stored earlier.",
  ["inputs", "configurations", "crash points"], "all levels, ids, debug settings and worker crash points",
  "Both sides run in different processes under a queue system; tests that need it are not run, and a swapped field is not a syntax error.",
  [JOB, PBS], [("worker loop", JOB + " PbsJob.calculate_samples"), ("settings file", JOB + " PbsJob._serialize_pbs_process / _deserialize_pbs_process"), ("level simulation file", PBS + " SamplingPoolPBS.serialize_level_sim")]),
P("P04", "After a restart, outcomes of earlier PBS jobs are collected exactly once",
  "After the sampling process crashed and was restarted, each sample recorded as scheduled but not finished whose outcome lies in the files of its job is returned by the next collection exactly once, as success or failure, under its level, and the job's time is added. "
  "Samples without outcome are not declared failed, and samples that had never been submitted do not abort the collection.",
  ["crash points", "histories"], "all crash points of the master, job sizes and sets of unfinished samples",
  "Recovery needs a crash between submission and collection with several samples per job; no test does that.",
  [PBS, JOB], [("recovery", PBS + " SamplingPoolPBS._collect_unfinished"), ("map lookup", JOB + " PbsJob.job_id_from_sample_id")]),
]
