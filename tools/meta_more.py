prop("C07", "Configurations are validated: what is accepted completes, the rest is an error",
     "Building a workflow from any text returns either a workflow or a configuration error and never panics or hangs. Text with no job, a job without steps, a step that is neither a command nor an action use, a dependency on an unknown job, a dependency cycle (self-dependencies included) or a malformed timeout is rejected; everything else is accepted, and an accepted workflow can always run to completion.",
     ["inputs"],
     "all texts, in particular all dependency graphs",
     "The tests reject a few hand-written configurations; cycles that leave some job free were accepted and then hung.",
     [AR + "user_config.rs", AR + "workflow/parser.rs", AR + "workflow/builder.rs"],
     [("UserWorkflow::validate", AR + "user_config.rs"), ("WorkflowParser", AR + "workflow/parser.rs")],
     ["Workflow::builder().build()", "Workflow::run"],
     technique="property-based testing against a reference validator, plus grammar/mutation fuzzing of the text",
     note="Accepted workflows are also run. Only jobs maps up to 8 jobs; malformed text comes from a mutation grammar.")

prop("C08", "The built workflow is what the user configured",
     "Every field of an accepted configuration (names, commands, containers and their options, job defaults inherited by steps, working directories, conditions, environments with their types, secrets, continue-on-error, timeouts, dependencies) appears unchanged in the workflow that is executed, whatever text the values consist of and whether it is written as YAML or JSON; absent fields get the documented defaults; steps keep their order and ids.",
     ["inputs"],
     "all configurations of command steps",
     "The tests check a few fields of one or two configurations; mixing up inheritance, defaults or odd texts is not sampled.",
     [AR + "user_config.rs", AR + "workflow/parser.rs", AR + "types/envs.rs"],
     [("WorkflowParser", AR + "workflow/parser.rs"), ("serde definitions", AR + "user_config.rs")],
     ["Workflow returned by the builder"],
     technique="property-based testing: generated configurations rendered and compared field by field",
     note="The expectation is computed from the generated structure, not from the text.")

prop("C09", "Actions expand into pre, run and post steps in the right order",
     "Each `uses` step is replaced in place by the run step its action defines; the actions' pre steps come before all steps of the job in order of use, their post steps after all of them in reverse order of use, each exactly as the action defined it. An action is looked up among the registered ones first, then each plugin is asked in order until one provides it (a plugin that fails is passed over); it receives exactly the step the user wrote. An unknown action, a failing action and an action that expands to another `uses` are errors.",
     ["inputs", "histories"],
     "all jobs mixing commands and action uses, all action definitions and resolvers",
     "The tests expand one action at a time.",
     [AR + "workflow/parser.rs", AR + "actions.rs", AR + "plugins/plugin_driver.rs"],
     [("step expansion", AR + "workflow/parser.rs"), ("on_resolve_dynamic_action", AR + "plugins/plugin_driver.rs")],
     ["Workflow returned by the builder", "calls of Action::normalize"],
     technique="property-based testing against a reference expansion",
     note="Actions and resolvers are generated; bounds: small jobs.")

prop("C10", "Conditions match exactly the events, branches and paths their patterns describe",
     "A list condition matches exactly the listed events. A filter condition matches a push or pull_request exactly if a filter for that event is configured, the branch matches one of its branch patterns (if given) and at least one changed path matches one of its path patterns (if given); an event without a filter does not match. Patterns are glob patterns with ?, *, ** and character classes.",
     ["inputs"],
     "all conditions, events, branches, sets of changed paths and patterns",
     "The tests sample a dozen condition/payload pairs.",
     [AR + "types/condition.rs"],
     [("Condition::is_match", AR + "types/condition.rs")],
     ["Condition::is_match"],
     technique="property-based testing against a reference matcher with its own glob implementation",
     note="Patterns are valid glob patterns over a small alphabet so that matches are frequent.")

prop("C11", "Conditions gate workflow, jobs and steps by what really changed on GitHub",
     "With credentials and a trigger event, a workflow, job or step runs exactly if it has no condition or its condition matches the trigger's event, branch and the complete set of files changed by that commit or pull request of that repository, asked for with the right credentials; if the trigger cannot be determined (no credentials, no event, GitHub refuses or does not know it), everything runs. A skipped workflow or job runs nothing.",
     ["inputs", "fault_sequences"],
     "all workflows with conditions at all levels, all triggers, all GitHub answers, however many files changed",
     "The tests never get an answer from GitHub, so gating by it is not tested at all.",
     [AR + "execution_context/condition_matcher.rs", AR + "workflow/job.rs", AR + "workflow/mod.rs", AR + "workflow/step.rs"],
     [("ConditionMatcher", AR + "execution_context/condition_matcher.rs"), ("should_skip", AR + "workflow/job.rs")],
     ["Runner::run calls", "WorkflowRunResult", "requests sent to GitHub"],
     technique="property-based testing against a reference model with a fake GitHub",
     note="The crate octocrate is replaced by a stand-in with the same API that answers from a generated repository state (GitHub's documented paging included) and records requests.")

prop("C12", "Plugin hooks are isolated, ordered, and their step changes compose",
     "A hook that returns an error changes nothing for the other observers nor for the outcome: every other plugin and the runner still get the notification, in registration order, then the runner, and the run proceeds. Before a step runs, each plugin in order and then the runner may replace it; each receives what the previous ones produced, a failing hook leaves the step unchanged, and exactly the final step is announced and run, with its timeout in force.",
     ["inputs", "fault_sequences", "schedules"],
     "all sets of plugins (synchronous and asynchronous), failing hooks, step changes and workflows",
     "The tests use one plugin with one failing hook.",
     [AR + "plugins/plugin_driver.rs", AR + "execution_context/mod.rs", AR + "workflow/job.rs"],
     [("PluginDriver", AR + "plugins/plugin_driver.rs")],
     ["hook calls of plugins and runner", "Runner::run calls", "WorkflowRunResult"],
     technique="property-based testing with fault injection in hooks, against a reference chain and the failure-free model",
     note="Hooks fail by returning errors; up to four plugins.")

prop("C13", "Identifiers, steps, results and events survive being written and read back",
     "Workflow, job and step identifiers written as text are read back as the same identifier and never as another kind; malformed texts are errors. Steps, commands, contexts, trigger events, results, state events, log lines, signals and environments survive serialization with every field and type unchanged, in their documented spelling.",
     ["inputs"],
     "all identifier parts without a slash and all values",
     "The tests convert a handful of fixed identifiers.",
     [AR + "types/id.rs", AR + "types/mod.rs", AR + "types/context.rs", AR + "types/results.rs", AR + "types/workflow_state.rs", AR + "workflow/step.rs"],
     [("Display/TryFrom of ids", AR + "types/id.rs"), ("Step <-> Command", AR + "workflow/step.rs")],
     ["Display, TryFrom, serde"],
     technique="property-based testing: round trips and differential parsing",
     note="Identifier parts contain no '/', the separator.")

prop("C14", "Every hook and the runner get the run's own trigger event and payload",
     "Each execution's trigger event and payload reach, unaltered and with their type, every workflow/job/step notification of plugins and runner and the context given to Runner::run, also when several executions of one AstroRun overlap; an execution without them has none.",
     ["inputs", "schedules"],
     "all trigger events and payloads, several executions at once",
     "The tests pass one payload through one execution.",
     [AR + "execution_context/builder.rs", AR + "execution_context/context_payload.rs", AR + "execution_context/mod.rs"],
     [("ContextPayload", AR + "execution_context/context_payload.rs")],
     ["hook arguments", "Context given to Runner::run"],
     technique="property-based testing: generated payloads compared at every delivery",
     note="Two payload types; up to three concurrent executions.")

prop("C15", "A signal is set once, first wins, and its waiter is always woken",
     "Of any number of attempts to cancel or time out a signal, through any clones and from any threads, exactly the first succeeds and all others return an error; it alone is what is reported and what the waiting receiver gets, once, and a waiting receiver is always woken. The registry of job signals finds exactly the signal last registered for that job until it is unregistered.",
     ["histories", "schedules"],
     "all operation sequences and thread interleavings",
     "The tests do two operations in a row on one thread.",
     [AR + "signals/signal.rs", AR + "signals/mod.rs"],
     [("AstroRunSignal", AR + "signals/signal.rs"), ("SignalManager", AR + "signals/mod.rs")],
     ["return values, receiver, waker"],
     technique="stateful property-based testing against a reference signal, with counting wakers and racing threads",
     note="Single waiter at a time, as astro-run uses it. Thread interleavings are sampled.")

SC = "crates/scheduler/src/"
prop("C16", "The scheduler places every step on a capable runner, sticky and balanced",
     "With the default scheduler, a container step of a job that already ran a container step goes to that same runner while it is connected, otherwise to one with docker support that has the fewest running steps. A host step (`host/<os>` or `host/<os>-<arch>`) goes to a host-capable runner of that platform, the job's own runner if that is one. Completed steps stop counting and a completed job is forgotten. A step is refused exactly if no connected runner can run it.",
     ["histories", "inputs"],
     "all histories of scheduling, completions and runners coming and going, all capabilities and containers",
     "The tests run short hand-written sequences over two or three equal runners.",
     [SC + "default.rs", SC + "lib.rs"],
     [("DefaultScheduler::schedule", SC + "default.rs"), ("runs_count / job_runners", SC + "default.rs: SchedulerState")],
     ["Scheduler::schedule"],
     technique="stateful property-based testing against a reference model",
     note="Any least loaded (any matching host) runner is allowed where the statement leaves a choice. Up to 6 runners, 4 jobs, 300 operations.")

PR = "crates/protocol/src/"
RR = "crates/remote-runner/src/"
prop("C17", "Whatever crosses the wire between client and runner arrives as it was sent",
     "Each of the four remote calls delivers its argument to the server and the server's answer to the caller unchanged: metadata, commands, contexts, log lines, results and all nine kinds of events, with every field, type, text and timestamp; a streamed answer arrives completely and in order, and a failure reported by the server arrives with its code and message. Concurrent calls on one connection are never mixed up.",
     ["inputs", "schedules"],
     "all values and sequences of calls, one after the other or at once",
     "The tests send a few constant values.",
     [PR + "lib.rs", PR + "common", PR + "proto"],
     [("the RPCs", PR)],
     ["RemoteRunnerClient and RemoteRunnerExt"],
     technique="property-based testing: round trips of generated values through every RPC",
     note="Over loopback TCP; messages below gRPC's 4 MB limit, finite numbers.")

prop("C18", "A workflow run through remote runners does what it does locally",
     "Run through the remote client and one or more servers, every workflow has the same step, job and workflow results, the same log lines in the same order and the same life cycle as the runner's own behaviour implies for a local run; each step is run exactly once, by one server, with the command, environment, trigger event and payload that the hooks of the local plugins and of every server's plugins and runner make of it, and exactly that step is announced.",
     ["inputs", "schedules"],
     "all workflows, outcomes, log volumes, and servers with any plugins",
     "The tests run one or two steps through one server.",
     [RR + "client.rs", RR + "runner_server.rs"],
     [("AstroRunRemoteRunnerClient", RR + "client.rs"), ("AstroRunRemoteRunnerServer", RR + "runner_server.rs")],
     ["WorkflowRunResult, hook calls, the server runner's Context"],
     technique="property-based testing: real servers on loopback, against the reference model of a local run",
     note="1-3 servers; the order in which several servers' hooks are applied is not fixed by the statement.")

prop("C19", "A broken runner costs its own steps only, and never silently or for ever",
     "A runner that is unreachable, malformed, incompatible, a duplicate or cannot describe itself is not used, and the others still are. A step for which there is no runner, whose runner refuses it, whose stream breaks off, ends without a result or whose connection is lost is reported as Failed with code 1, after the lines that had arrived and at least one line saying so; it never hangs and never succeeds. Steps on other runners, and the events told to other runners, are unaffected; if a runner's before-step hook fails the step runs unchanged.",
     ["fault_sequences", "inputs", "schedules"],
     "all placements of faults over steps, endpoints and servers",
     "The tests try one unreachable endpoint and one failing call.",
     [RR + "client.rs"],
     [("AstroRunRemoteRunnerClient", RR + "client.rs")],
     ["WorkflowRunResult, log lines, events received by the servers"],
     technique="property-based testing with fault injection (scripted servers, cuttable connections) against a model of the allowed reports",
     note="A server that answers nothing at all, without its connection breaking, is outside the statement.")

prop("C20", "Every connected runner is told every event, once, in order",
     "Each server's plugins and runner receive exactly the events the client received, with their trigger event and payload, in the same order, however many events there are and however slowly they are taken, and also if hooks of that or of another server fail.",
     ["inputs", "schedules", "fault_sequences"],
     "all workflows and volumes of events, failing and slow observers",
     "The tests forward one event of each kind; with more than 30 waiting, events were lost.",
     [RR + "client.rs", RR + "runner_server.rs"],
     [("event forwarding", RR + "client.rs"), ("send_event", RR + "runner_server.rs")],
     ["hook calls of the servers' plugins and runners"],
     technique="property-based testing: the servers' event streams compared to the client's",
     note="1-3 servers, up to several hundred events waiting.")

prop("C21", "Cancellation and timeout reach exactly the remote step they are meant for",
     "Cancelling a job interrupts the step of it that is running, on whichever server that is, and every later step of it that is still run; a step's timeout interrupts that step. Each concerned step gets exactly one signal of the right kind; no step of another job, another workflow or already finished gets one. What the step still writes and how it ends is what is reported.",
     ["inputs", "schedules"],
     "all combinations of concurrent jobs, workflows and servers, cancellations and timeouts",
     "The tests cancel one step on one server.",
     [RR + "client.rs", RR + "runner_server.rs", AR + "signals/signal.rs"],
     [("signal forwarding", RR + "client.rs"), ("signals per step", RR + "runner_server.rs")],
     ["Context::signal on the server, WorkflowRunResult, log lines"],
     technique="property-based testing: steps held until a signal arrives, against a model of the signals due",
     note="Real time: timeouts of 1-11 ms; up to two workflows of four jobs on three servers.")

prop("C22", "The remote client schedules by the actual state of its runners",
     "For each executed step the scheduler is asked exactly once, with the step as it will be run and exactly the connected runners; the step is run on the runner it picked. The scheduler is told everything that starts and completes, in order, so that with the default scheduler a job stays on its runner and a new job goes to a runner with the fewest steps actually running.",
     ["inputs", "schedules"],
     "all workflows and sets of runners",
     "The tests look at one decision; the scheduler was in fact never told about anything.",
     [RR + "client.rs", SC + "default.rs"],
     [("Runner for AstroRunRemoteRunnerClient", RR + "client.rs")],
     ["calls of the Scheduler, Runner::run on the servers"],
     technique="property-based testing: a recording scheduler inside the client, against the events and a load model",
     note="1-4 servers, up to six jobs at once.")

RU = "crates/runner/src/"
prop("C23", "A command's output and end are reported completely and unaltered",
     "Everything a host step's script writes to standard output and standard error becomes log lines and error lines, complete and in order per stream, whatever bytes it consists of (invalid UTF-8 is replaced), however much it is and whichever stream is closed first; the step's result is Succeeded exactly if the script exits with 0, and otherwise Failed with its exit code (or some non-zero code if a signal killed it). The script sees every configured environment variable with its exact value and runs in its job's directory. Command::exec returns the trimmed standard output on success and the error output as error on failure.",
     ["inputs", "schedules"],
     "all scripts, outputs, exit codes and environments",
     "The tests run a single echo; output after one stream ended, or after invalid UTF-8, was lost.",
     [RU + "command.rs", RU + "executors/host.rs"],
     [("Command::run", RU + "command.rs"), ("HostExecutor", RU + "executors/host.rs")],
     ["StreamReceiver of Runner::run", "Command::exec", "Command::run"],
     technique="property-based testing: generated scripts whose output and end are known by construction",
     note="Real processes as an unprivileged user. The relative order of the two streams is not claimed.")

prop("C24", "A job's steps share its directory; workflows clean up only after themselves",
     "The steps of a job find in their working directory exactly what earlier steps of that job left there, whether those ran on the host or in docker, succeeded, failed or timed out; no other job of this or another workflow uses the same directory. Docker steps share one cache per repository, which persists. When a workflow has completed, its directory is gone, and everything else below the runner's working directory is still there, also when workflow ids are used again with another or no repository.",
     ["histories", "inputs"],
     "all histories of workflows, jobs and steps, one after the other or at once",
     "The tests run single steps that do not look at files.",
     [RU + "astro_runner.rs", RU + "metadata.rs", RU + "executors/host.rs", RU + "executors/docker.rs"],
     [("Metadata", RU + "metadata.rs"), ("cleanup_workflow_working_directory", RU + "astro_runner.rs")],
     ["files seen by the steps", "the working directory afterwards"],
     technique="stateful property-based testing against a model of the directories",
     note="Real processes as an unprivileged user, docker replaced by a stand-in. Workflow ids are fresh or reused after completion, never used twice at once.")

prop("C25", "A docker step's container is exactly the configured one",
     "A step without a host container is run by exactly one docker container, of the configured image (ubuntu by default), with the configured volumes (modes included) and security options, with exactly the configured environment, values unaltered whatever characters they contain, with its job's directory as working directory and the repository's cache mounted, removed when it ends; its entrypoint is the step's complete script (with #!/bin/sh unless it brings an interpreter of its own). Its output and exit code are the step's.",
     ["inputs", "schedules"],
     "all containers, environments and scripts, however slow the file system is",
     "The tests compare one fixed docker command line.",
     [RU + "docker.rs", RU + "executors/docker.rs", RU + "utils.rs"],
     [("Docker::generate_docker_command", RU + "docker.rs"), ("DockerExecutor", RU + "executors/docker.rs"), ("create_executable_file", RU + "utils.rs")],
     ["the docker invocation", "the entrypoint when the container starts", "StreamReceiver of Runner::run"],
     technique="property-based testing with a stand-in docker that parses and records its invocation",
     note="Image names, volumes and security options without characters special to a shell. The stand-in parses docker run's documented syntax.")

prop("C26", "Every step the runner takes ends once, with hooks called and files removed",
     "Before a step the runner's plugins are called in order, each with the step as the previous ones left it (a failing one changes nothing), and what they make of it is what runs. A step that is cancelled or timed out before it starts is not started; one that is interrupted while running is reported as Cancelled or Failed with code 123 without waiting for it, and its container is killed; a signal after its end changes nothing. However it ends, also if it cannot be started at all, it is reported exactly once, after which every plugin is told in order, with the step as it ran, after a completed command only when that command is over, and the step's own files are removed while those of its job remain.",
     ["inputs", "fault_sequences", "schedules"],
     "all plugins, instants of the signal, results and faults",
     "The tests use one plugin, without signals or failures, and do not wait for the after-run hook; it was never called.",
     [RU + "astro_runner.rs", RU + "plugin.rs", RU + "executors/host.rs", RU + "executors/docker.rs"],
     [("AstroRunner::run", RU + "astro_runner.rs"), ("executors", RU + "executors"), ("PluginDriver", RU + "plugin.rs")],
     ["StreamReceiver of Runner::run", "plugin calls", "docker invocations", "files"],
     technique="property-based testing with injected signals, faults and failing hooks against a model of the step's life",
     note="Real processes as an unprivileged user. That an interrupted host process itself ends is not claimed (upstream marks it as to do).")

LG = "crates/logger/src/"
prop("C27", "The logger prints exactly what its level admits, whole, and installs once",
     "Once initialised, the logger prints every record whose level is at or above the chosen one exactly once, and no other: the level named by RUST_LOG (in any case; info if there is none or it names none), or the one given. Each record is printed with its level, its origin and its text unaltered, not interleaved with another one's, and those of a thread in order. It can be initialised any number of times, from any thread and in either way: only the first time counts, and none fails.",
     ["inputs", "schedules"],
     "all levels, environments, records and orders of initialisation",
     "The tests print a line per level and look at nothing.",
     [LG + "lib.rs"],
     [("Logger and init_logger", LG + "lib.rs")],
     ["standard output of the process"],
     technique="property-based testing of whole processes against a reference filter",
     note="One process per case, since a logger is installed for good. Which of several simultaneous initialisations wins is not claimed.")

prop("C28", "Real commands run through remote servers as they do locally",
     "A workflow whose steps are real commands, on the host or in docker, sent by a client to servers that each run them with the command runner, behaves as a local run does: every step gives the result and the log lines of its command; steps of a job that stay on a server (all of them with one server, those in containers with several) share a directory of their job, in which a later one finds the files of the earlier ones and no others, also while other jobs and workflows run; the cache lasts from run to run; failing, expiring and cancelled steps end as such; when a workflow is over, each server has removed its directories and nothing else.",
     ["inputs", "histories", "schedules"],
     "all workflows of such commands, alone, in turn and at once, over the explored numbers of servers",
     "The remote tests run one command on one server; what becomes of directories, caches and cancelled commands is in the interplay of client, protocol, server and runner.",
     [RR + "runner_server.rs", RR + "client.rs", RU + "astro_runner.rs"],
     [("AstroRunRemoteRunnerServer", RR + "runner_server.rs"), ("AstroRunner", RU + "astro_runner.rs")],
     ["loopback network", "docker", "file system", "processes"],
     technique="stateful property-based testing of client, servers and real commands against the model of a local run",
     note="Docker is a stand-in that runs the command on the host with the same volumes. Client and servers share a process.")

prop("C29", "Servers shared by several clients serve each of them as if alone",
     "Several clients that are connected to the same servers and run workflows of different ids at the same time do not notice each other: each gets the results and log lines of its own steps; each step runs once, on a server its client is connected to, with the trigger event and payload its client gave; a cancellation or timeout interrupts the steps of that client it is meant for and no others; every server is told the events of each connected client completely and in that client's order, and those of no other.",
     ["inputs", "histories", "schedules"],
     "all workflows of several clients at once and all ways of sharing servers",
     "The remote tests use one client at a time.",
     [RR + "runner_server.rs", RR + "client.rs"],
     [("AstroRunRemoteRunnerServer", RR + "runner_server.rs"), ("AstroRunRemoteRunnerClient", RR + "client.rs")],
     ["loopback network"],
     technique="stateful property-based testing of several clients and servers against a model per client",
     note="Workflow ids are unique among the clients. Clients and servers share a process.")
