#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (kept in step)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AR = "crates/astro-run/src/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, claimed=True,
         technique="property-based testing", note="", reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=observe, claimed=claimed,
                  technique=technique, note=note, reason=reason))


prop("C01", "Job graph executes each job once, after its dependencies, and completes",
     "In every accepted workflow that is not skipped, each job is started exactly once (or skipped exactly once by its condition), only after all the jobs it depends on have finished (whatever their outcome), and as soon as they have. The run returns once every job has finished, with a result for every job.",
     ["inputs", "schedules", "histories"],
     "all dependency graphs, all durations and outcomes of steps, all orders in which job results arrive and in which the job map is iterated",
     "The tests run two fixed graphs with instantly finishing jobs; duplicate starts and lost jobs only show for particular shapes combined with particular completion orders.",
     [AR + "workflow/mod.rs", AR + "workflow/job.rs"],
     [("waiting list and result channel", AR + "workflow/mod.rs: Workflow::run")],
     ["hook calls of plugins and runner", "Runner::run calls", "WorkflowRunResult"],
     technique="property-based testing on a virtual clock against an ordering/exactly-once oracle",
     note="Generated job graphs and step scripts; every hook and runner call recorded. Bounds: at most 9 jobs, scripted runner, single-threaded deterministic scheduler with seeded choices.")

prop("C02", "Step, job and workflow results follow the documented state machine",
     "Steps of a job run one after another in order; after a step fails only steps marked continue-on-error still run, after a step is cancelled none does, and every other step is reported as skipped. A job is Cancelled if a step was cancelled, else Failed if any step failed, else Succeeded; a workflow is Succeeded exactly if no job failed or was cancelled, and otherwise has the state of the last such job to complete. Step results carry the runner's exit code and every executed element a start time not after its completion time.",
     ["inputs", "histories"],
     "all combinations of step outcomes, exit codes, refusals by the runner and continue-on-error flags over jobs of any length",
     "The tests check a handful of fixed outcome sequences (one failure, one cancellation).",
     [AR + "workflow/job.rs", AR + "workflow/mod.rs", AR + "execution_context/mod.rs"],
     [("job state fold", AR + "workflow/job.rs: Job::run"), ("result translation", AR + "execution_context/mod.rs: ExecutionContext::run")],
     ["WorkflowRunResult", "Runner::run calls"],
     technique="property-based testing against a reference state machine",
     note="Generated outcome sequences compared field by field with an independent model.")

prop("C03", "Every observer sees the complete life cycle of workflow, jobs and steps in order",
     "Each plugin and the runner receive, for the workflow and for every job and step, each life-cycle notification exactly once and in the documented order: start notification, state changes ending in one terminal state, completion carrying the same result that is finally returned; skipped elements produce only their Skipped state. The workflow's start precedes and its completion follows everything about its jobs, and a job's start and completion enclose everything about its steps.",
     ["inputs", "schedules", "histories"],
     "all workflows, outcomes, skips and interleavings of concurrent jobs, with observers that may suspend",
     "The tests look at single events of one-step workflows; duplicated, missing or reordered notifications under concurrency, skips and failures are not sampled.",
     [AR + "execution_context/mod.rs", AR + "plugins/plugin_driver.rs", AR + "plugins/plugin.rs", AR + "workflow/job.rs", AR + "workflow/mod.rs"],
     [("call_on_* dispatch", AR + "execution_context/mod.rs"), ("PluginDriver", AR + "plugins/plugin_driver.rs")],
     ["hook calls of plugins and runner"],
     technique="property-based testing of recorded hook streams against a life-cycle grammar",
     note="The grammar is instantiated from the actual result, so the oracle does not depend on the execution model.")

prop("C04", "Step logs and the step result reach all observers complete, in order, unaltered",
     "Everything a runner writes to a step's stream before ending it is delivered to every plugin and to the runner's log hook exactly once, in order, with its text and its log/error type, and the first result set is the one reported; nothing is delivered that was not written. The stream never loses a wake-up: a consumer waiting for it always gets the next line or the end.",
     ["inputs", "schedules"],
     "all sequences of log lines and results, all interleavings of producers and consumer",
     "The tests write two lines and one result before anything reads the stream.",
     [AR + "stream.rs", AR + "execution_context/mod.rs"],
     [("shared log buffer with waker", AR + "stream.rs"), ("log loop", AR + "execution_context/mod.rs: ExecutionContext::run")],
     ["on_log hooks", "StreamReceiver"],
     technique="property-based testing: generated log scripts and producer/consumer interleavings against a sequential reference",
     note="Whole-workflow scripts on a virtual clock, operation-sequence tests of the stream itself with a counting waker, and multi-threaded producers.")

prop("C05", "Cancelling a job is accepted once, while it runs, and reaches all its steps",
     "Cancelling a job succeeds exactly if the job is running and has not been cancelled before; otherwise it returns an error and has no effect. An accepted cancellation is signalled once, promptly, to the running step and to every later step of that job and to no other job; the job's outcome is then what its steps report.",
     ["schedules", "histories"],
     "all instants of cancellation relative to the life of jobs and steps, repeated cancellations, all reactions of runners",
     "The tests cancel one single-step job at one instant.",
     [AR + "signals/mod.rs", AR + "signals/signal.rs", AR + "execution_context/mod.rs", AR + "astro_run.rs"],
     [("SignalManager", AR + "signals/mod.rs"), ("signal branch of the step loop", AR + "execution_context/mod.rs: ExecutionContext::run")],
     ["return value of cancel_job", "signals seen by steps", "WorkflowRunResult"],
     technique="property-based testing against a timed reference model",
     note="Cancellation instants are generated on the virtual clock; the model predicts acceptance, the instant each step is signalled, and every resulting state.")

prop("C06", "A step is told to stop exactly when its total running time reaches its timeout",
     "A step that is still running when its timeout (after all plugins have adjusted it) has elapsed since it began running is signalled a timeout at that moment, once, no matter how much it logs meanwhile; a step that ends earlier, or was already signalled a cancellation, is not. A step without a timeout gets 60 minutes.",
     ["inputs", "schedules"],
     "all timeouts, all log timings, all end times and cancellations",
     "The tests use one silent step with one timeout.",
     [AR + "execution_context/mod.rs", AR + "workflow/parser.rs", AR + "signals/signal.rs"],
     [("timeout branch of the step loop", AR + "execution_context/mod.rs: ExecutionContext::run"), ("default timeout", AR + "workflow/parser.rs")],
     ["signals seen by steps", "WorkflowRunResult"],
     technique="property-based testing against a timed reference model",
     note="Virtual clock: the instant of the signal is compared exactly.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
    "notes": "All checks build /verif/harness (own workspace, path dependencies on /repo's crates, a stand-in for the GitHub client crate `octocrate`) against /repo's working tree and are deterministic functions of the code and VERIF_SEED, except where a level_note says that real processes or sockets are involved. No hooks in /repo are needed; /repo carries only fix: commits.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
