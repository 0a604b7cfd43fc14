"""Properties (see gen.py)."""
W = "crates/astro-run/src/workflow/mod.rs"
J = "crates/astro-run/src/workflow/job.rs"
X = "crates/astro-run/src/execution_context/mod.rs"
SG = "crates/astro-run/src/signals/signal.rs"
ST = "crates/astro-run/src/stream.rs"
SC = "crates/scheduler/src/default.rs"
PA = "crates/astro-run/src/workflow/parser.rs"
RC = "crates/remote-runner/src/client.rs"
RS = "crates/remote-runner/src/runner_server.rs"
RU = "crates/runner/src/"
TS = "path-sensitive typestate dataflow over MIR (to a fixpoint)"

PROPS = [
    dict(id="P01", title="A job starts once, after all its dependencies; the run ends with all results",
         statement="In every run of a workflow, a job is started only after every job it depends on has reported its result, is started at "
                   "most once, and is started as soon as its last dependency has reported. Every job's result is recorded under that "
                   "job's own key, and the run ends exactly when every job of the workflow has a result.",
         over=["inputs", "schedules", "histories"],
         q="every dependency graph accepted at build time, every order in which jobs finish, every job outcome",
         why="The tests run a few fixed graphs whose jobs finish in one order; the property needs every graph and every completion order, "
             "including results that arrive while other jobs are still waiting.",
         files=[W], mech=[("scheduling loop of Workflow::run", W), ("job task spawned per job", W)],
         observe=["RunJob hooks seen by runner and plugins", "WorkflowRunResult.jobs"],
         tech=TS + " with one arbitrary job and one arbitrary dependency tracked as witnesses"),
    dict(id="P02", title="The runner gets exactly the step that the before-run hooks produced",
         statement="Whatever a plugin's or the runner's before-run hook returns is the step that runs: the command, image, environment and "
                   "every other field handed to the runner are that step's, unchanged, with that step's id, the run's trigger event and payload. "
                   "The runner is called at most once per step, and a hook's error leaves the step as it was before that hook.",
         over=["inputs", "configurations"], q="every step, every hook outcome, with and without payload and trigger event",
         why="Tests compare one or two fields of one step; a swapped or dropped field, or a hook result used in one place and not another, passes them.",
         files=[X, "crates/astro-run/src/workflow/step.rs", "crates/astro-run/src/types/context.rs"],
         mech=[("ExecutionContext::run builds the Context", X), ("conversion of a step into a command", "crates/astro-run/src/workflow/step.rs")],
         tech=TS + ", field-by-field provenance of the runner's context"),
    dict(id="P03", title="Steps of a job run in order, one at a time, under the failure policy",
         statement="The steps of a job are considered in configured order, one at a time, each exactly once: a step is run unless the job was "
                   "cancelled, or an earlier step failed and this step does not continue on error, or its own condition does not match, and in "
                   "those cases it is reported and recorded as skipped. The job result has exactly one entry per step, in order, with that step's outcome.",
         over=["inputs", "histories"], q="every step list, every sequence of step outcomes, every continue-on-error and condition setting",
         why="Tests contain single failures and single flags; the policy concerns every history of earlier outcomes.",
         files=[J], mech=[("step loop of Job::run", J)], observe=["StepStateUpdated events", "JobRunResult.steps"], tech=TS),
    dict(id="P04", title="Job and workflow end states aggregate the states of their parts",
         statement="A job ends Cancelled if one of its steps was cancelled, otherwise Failed if one of its run steps failed, otherwise Succeeded; a skipped "
                   "job ends Skipped with no steps. A workflow ends Succeeded only if no job failed or was cancelled, and otherwise with the state of such a job; "
                   "the announced state is the one in the result.",
         over=["inputs", "histories", "schedules"], q="every sequence of step outcomes and every completion order of jobs with every outcome",
         why="Tests aggregate two or three outcomes in one order.",
         files=[W, J], mech=[("job state updates in Job::run", J), ("workflow state updates in Workflow::run", W)],
         observe=["JobRunResult.state", "WorkflowRunResult.state", "state change events"], tech=TS),
    dict(id="P05", title="A step's logs and result are those of its runner's stream",
         statement="Every log the runner emits for a step is forwarded once, unchanged, under that step's id, in order, before the step ends. The step "
                   "waits for the end of the stream, and its state and exit code are those of the stream's result; a runner that refuses the step makes it Failed with exit code 1.",
         over=["inputs", "schedules"], q="every stream of logs and result, in every interleaving with timeout and cancellation",
         why="Tests emit a handful of logs with no concurrent timeout or signal.",
         files=[X], mech=[("select loop of ExecutionContext::run", X)], observe=["on_log hooks", "StepRunResult"], tech=TS),
    dict(id="P06", title="Lifecycle events come complete, in order, and for the right id",
         statement="Every workflow, job and step that starts announces its start, then its in-progress state (a step: Queued first), then exactly one final state, "
                   "then its completion with the same result it returns; everything inside it happens between start and end. A skipped one only announces Skipped. "
                   "Start and completion times are taken when it starts and when it ends.",
         over=["inputs", "histories", "schedules"], q="every path through workflow, job and step execution",
         why="Tests look at the events of a few runs and not at every path, such as a runner error.",
         files=[W, J, X], mech=[("hook calls of the three run functions", X)], observe=["hooks of plugins and runner"], tech=TS),
    dict(id="P07", title="A step that outlives its timeout is told to stop, however it logs",
         statement="When a step has run for its configured timeout, its runner's signal is set to timeout, once, no matter how many logs the step emits or which other "
                   "signals arrive. The time is measured from the start of the step, and the step is never told it timed out before.",
         over=["schedules", "inputs"], q="every timeout, every pattern of logs and signals while the step runs",
         why="The tests use a step that emits nothing.",
         files=[X], mech=[("timer in the select loop", X)], tech=TS),
    dict(id="P08", title="Cancelling a job reaches the runner of its running step",
         statement="While a step runs, a signal sent to its job (cancel or timeout) is passed on, with the same kind, to the signal handed to the runner for that step. "
                   "Nothing else cancels a step: not another job's signal, and not the end of another step.",
         over=["schedules", "histories"], q="every moment a signal can arrive in the life of a running step",
         why="Tests cancel one job at one moment.",
         files=[X, "crates/astro-run/src/signals/mod.rs"], mech=[("job signal branch of the select loop", X)], tech=TS),
    dict(id="P09", title="A signal is set once, wakes its receiver, and is delivered once",
         statement="The first cancel or timeout set on a signal wins and later ones are refused with an error; the receiver waiting for it is always woken, and receives exactly "
                   "that kind exactly once; the query for each kind answers truthfully on every clone. No interleaving of setters and receivers loses a signal.",
         over=["schedules"], q="every interleaving of any number of senders and one receiver",
         why="Tests exercise one order; a lost wake-up needs a particular interleaving.",
         files=[SG], mech=[("shared state under the lock", SG), ("waker registration in poll", SG)], tech="lock-region typestate over MIR (check-then-act and wake-up obligations)"),
    dict(id="P10", title="A step stream keeps its first result and loses neither logs nor wake-ups",
         statement="Every log sent on a stream before it ends is yielded exactly once, in order; the stream ends only after its result is set and all logs were yielded; the first result "
                   "set wins and is the one read. A receiver that is waiting is woken by every log and by the end, whatever the interleaving.",
         over=["schedules"], q="every interleaving of any number of senders and the receiver",
         why="Tests run sender and receiver in one order.",
         files=[ST], mech=[("shared state under the lock", ST), ("waker registration in poll_next", ST)], tech="lock-region typestate over MIR (check-then-act and wake-up obligations)"),
    dict(id="P11", title="A running job can be cancelled by its id, and nothing else can",
         statement="From before its start is announced until its last step has ended, cancelling a job by its id - through the AstroRun instance that made the context or through "
                   "the context - sets cancel on that job's own fresh signal, and on nothing else. For an id that is not running (unknown, skipped or completed) it is an error "
                   "and changes nothing. A finished job leaves no signal behind.",
         over=["histories", "schedules", "inputs"], q="every job, every history of jobs starting and ending, every moment of cancelling",
         why="Tests cancel a single running job; leaks and cross-talk need several jobs and unusual moments.",
         files=["crates/astro-run/src/signals/mod.rs", X, "crates/astro-run/src/astro_run.rs", J],
         mech=[("SignalManager", "crates/astro-run/src/signals/mod.rs"), ("registration around the job", X)], tech=TS + " and exact map-effect summaries"),
    dict(id="P12", title="Each event reaches every plugin in registration order, then the runner",
         statement="Every lifecycle event is given, with the same content, to every registered plugin in registration order and then to the runner. An error of one plugin never keeps the "
                   "event from later plugins or from the runner, and never stops the run. Before-run hooks are chained, each plugin getting the step the previous one produced; the first plugin "
                   "that resolves a dynamic action wins and later ones are not asked.",
         over=["inputs", "configurations"], q="every number of plugins, every outcome of each plugin's hook",
         why="Tests register one or two plugins that succeed.",
         files=["crates/astro-run/src/plugins/plugin_driver.rs", W, J, X], mech=[("loops of PluginDriver", "crates/astro-run/src/plugins/plugin_driver.rs"), ("call_on_* helpers", X)],
         observe=["hooks of plugins and runner"], tech=TS),
    dict(id="P13", title="A callback plugin calls exactly the callback registered for each hook",
         statement="A plugin built with the plugin builder calls, for each hook, the callback registered for that hook and no other, once, with the hook's own argument, and returns what the "
                   "callback returned; registering again replaces the earlier callback; a hook without callback succeeds and changes nothing (a before-run hook returns its step, a dynamic action is not resolved). The plugin has the name given.",
         over=["inputs", "configurations"], q="every subset and order of registered callbacks, every hook",
         why="Tests register a few callbacks and check that some were called.",
         files=["crates/astro-run/src/plugins/plugin.rs"], mech=[("builder methods and Plugin impl", "crates/astro-run/src/plugins/plugin.rs")],
         tech="composition of exact value summaries (abstract interpretation over MIR)"),
    dict(id="P14", title="An AstroRun and its contexts hold exactly what their builders were given",
         statement="The built AstroRun has the given runner, every registered plugin once and in registration order, every action under its name and the latest GitHub authorization; an execution "
                   "context built from it uses that runner, those plugins, the AstroRun's signal manager and the trigger event, payload and authorization of that context alone. The order of builder "
                   "calls does not matter beyond that, nothing leaks from one context into another, and cloned parts equal the originals.",
         over=["configurations", "inputs"], q="builder-call orders that permute and repeat the registrations, every value passed",
         why="Tests build one AstroRun with one order of calls.",
         files=["crates/astro-run/src/astro_run.rs", X, "crates/astro-run/src/execution_context/builder.rs"],
         mech=[("AstroRunBuilder", "crates/astro-run/src/astro_run.rs"), ("ExecutionContextBuilder", "crates/astro-run/src/execution_context/builder.rs")],
         tech="composition of exact value summaries (abstract interpretation over MIR)"),
    dict(id="P15", title="An action step is expanded by the one action its name resolves to",
         statement="While a workflow is built, every action step is expanded exactly once, from that step unchanged: by the action registered under its `uses` name if there is one, otherwise by "
                   "the action a plugin resolves for it; plugins are not asked about registered actions. No action step is passed over: if neither knows the action or the expansion fails, building fails, and it does not fail for an action that was not looked for in both places.",
         over=["inputs", "configurations"], q="every job, every action step, every set of registered actions and plugin answers",
         why="Tests use a registered action or one plugin in isolation.",
         files=[PA, "crates/astro-run/src/actions.rs"], mech=[("try_normalize_action", PA), ("ActionDriver", "crates/astro-run/src/actions.rs")], tech=TS),
    dict(id="P16", title="Pre-steps, steps and post-steps of a job come in the documented order",
         statement="The steps of a built job are: the pre-steps of its actions in configured order, then each configured step (for an action: its run step) in configured order, then the post-steps "
                   "in reverse configured order. Each configured step contributes its run step exactly once, and its pre and post step exactly once if its action has one.",
         over=["inputs"], q="every number and mix of plain steps and actions with and without pre and post steps",
         why="Tests have a single action in a job, for which the order among pre or post steps cannot be seen.",
         files=[PA], mech=[("try_normalize_user_steps", PA)], tech=TS + " with one arbitrary step as witness and lists abstracted to segments"),
    dict(id="P17", title="A built workflow carries every configured field to the right place",
         statement="In a built workflow each step has the name, command, condition, environments, secrets, continue-on-error and timeout configured for it (defaults: none, false, 60 minutes) and its own "
                   "container, else its job's; its number is its position in the job. Each configured job appears exactly once, under its key, with its own name, condition, dependencies and working directories; "
                   "all ids carry the given workflow id and job key, or one freshly generated workflow id throughout; the workflow has the configured name and condition.",
         over=["inputs", "configurations"], q="every configuration: every combination of present and absent fields, every number of jobs and steps",
         why="Tests compare some fields of a few configurations.",
         files=[PA, "crates/astro-run/src/workflow/builder.rs", "crates/astro-run/src/user_config.rs"], mech=[("WorkflowParser::parse", PA), ("Container::normalize", "crates/astro-run/src/user_config.rs")],
         tech=TS + ", field-by-field provenance"),
    dict(id="P18", title="Only workflows whose every job can eventually run are accepted",
         statement="A configuration is accepted only if it has at least one job, every job has at least one step, every dependency names a job of the workflow, and the dependencies have no cycle. "
                   "Both text conversions and the workflow builder apply these checks.",
         over=["inputs"], q="every configuration text that parses",
         why="Tests reject one example of each kind; e.g. a cycle next to an independent job, or a bad second dependency, is not among them.",
         files=["crates/astro-run/src/user_config.rs", "crates/astro-run/src/workflow/builder.rs"], mech=[("UserWorkflow::validate", "crates/astro-run/src/user_config.rs")],
         tech=TS + " with one arbitrary job and dependency as witnesses"),
    dict(id="P19", title="Conditions decide exactly which workflows, jobs and steps run",
         statement="A workflow, job or step with a condition runs only if that condition was evaluated for this run's trigger event and matched, and is skipped only if it did not match; "
                   "one without a condition is never skipped for that reason. A skipped workflow runs none of its jobs and a skipped job none of its steps.",
         over=["inputs", "configurations"], q="every combination of conditions on the three levels and their outcomes",
         why="Tests set a condition on one level at a time.",
         files=[W, J, "crates/astro-run/src/workflow/step.rs"], mech=[("should_skip on the three levels", W)], tech=TS),
    dict(id="P20", title="A condition matches exactly when its event, branch and path patterns do",
         statement="A push or pull-request condition matches an event exactly when the event is of that kind, one of its branch patterns (if any) matches the branch, and one of its path patterns "
                   "(if any) matches one of the changed paths. A condition that lists events matches exactly the listed events. An invalid pattern matches nothing (and may make its whole group not match).",
         over=["inputs"], q="every condition and every event payload, branch and set of changed paths",
         why="Tests try a few patterns against a few payloads; the combination of absent and several patterns, kinds and paths is what goes wrong.",
         files=["crates/astro-run/src/types/condition.rs"], mech=[("Condition::is_match", "crates/astro-run/src/types/condition.rs")],
         tech=TS + " with loops over patterns summarised as any-matches"),
    dict(id="P21", title="Conditions are evaluated on the run's own event and fail open",
         statement="A condition is evaluated against the branch of the run's own trigger event and the changed files that the lookup of that event, in its repository and with that run's authorization, "
                   "reports; lookups are not mixed up between events. A condition that cannot be evaluated (no event, or a failed lookup) does not suppress the run.",
         over=["inputs", "configurations", "fault_sequences"], q="every event, every authorization, every failure of a lookup",
         why="The lookups go to GitHub; the tests can only run a few of them and no failing one.",
         files=["crates/astro-run/src/execution_context/condition_matcher.rs"], mech=[("ConditionMatcher::is_match", "crates/astro-run/src/execution_context/condition_matcher.rs")],
         tech=TS + " with the GitHub client as uninterpreted calls whose arguments are traced to their origin"),
    dict(id="P22", title="The scheduler picks a runner that can run the step, if there is one",
         statement="The default scheduler only ever picks one of the runners offered, and only one that can run the step: for a `host/...` container a runner with host support whose platform is the one named, "
                   "otherwise a runner with docker support. It picks none only if none of them can. The docker steps of a job go to the runner its last docker step was given, as long as that one is offered and able.",
         over=["inputs", "histories", "configurations"], q="every list of runners, every step, every history of earlier scheduling decisions",
         why="Tests offer one or two runners; wrong capability logic needs a particular mix of capabilities, names and history.",
         files=[SC], mech=[("DefaultScheduler::schedule", SC)], tech=TS + " with one arbitrary runner as witness"),
    dict(id="P23", title="The scheduler spreads docker steps by load and keeps its books right",
         statement="Unless bound to its job's runner, a docker step goes to a runner than which no other able runner has fewer scheduled, uncompleted steps. Scheduling a step adds one to the load of exactly the runner picked; "
                   "its completion takes exactly that one away again, and nothing else changes a load; no entry of a completed step or job remains.",
         over=["inputs", "histories", "schedules"], q="every list of runners, every state of the books, every order of scheduling and completion, also of steps scheduled and completed at the same time",
         why="Tests schedule a handful of steps, one after the other; drift of the counts shows only over long histories or when two steps are scheduled at once.",
         files=[SC], mech=[("DefaultScheduler::schedule", SC), ("completion hooks of DefaultScheduler", SC)], tech=TS + " and exact map-effect summaries"),
    dict(id="P24", title="A remote client's scheduler learns of every start and completion",
         statement="Whenever a workflow, job or step starts or completes, the scheduler of the remote client is told, exactly once and by the hook for that event, with the workflow, job or step that starts or the "
                   "result of what completed - whether or not any runner is connected. Nothing else is reported to it. (Without this the default scheduler never learns that a step is done.)",
         over=["histories", "inputs"], q="every event of every run",
         why="Tests use schedulers that ignore the hooks, or drive the scheduler without a client.",
         files=[RC], mech=[("Runner hooks of AstroRunRemoteRunnerClient", RC)], tech="exact value and event summaries (abstract interpretation over MIR)"),
    dict(id="P25", title="Each event reaches the plugins and the runner of every remote runner",
         statement="Each lifecycle event of the client is put on its event channel once, as the message kind made for it and with unchanged content, and the hook succeeds whether or not anybody listens. A runner server that "
                   "receives such a message hands its content first to its plugins and then to its runner, by the hook for that event, once each, whatever they return, and answers successfully; other messages are not handed to them.",
         over=["inputs", "histories"], q="every kind of event, every content, every outcome of plugins and runner",
         why="Tests count the events of one run; each kind must be right for every content and outcome.",
         files=[RC, RS, "crates/protocol/src/lib.rs"], mech=[("Runner hooks of AstroRunRemoteRunnerClient", RC), ("send_event", RS)], tech="exact value and event summaries (abstract interpretation over MIR)"),
    dict(id="P26", title="The client forwards every event to every connected runner, and keeps on",
         statement="From the moment start is called, the client listens to its own event channel; each event it receives is sent to every runner connected when it is received, exactly once, before the next event is taken. Neither a failed "
                   "delivery to a runner nor falling behind the channel ends the forwarding or keeps the event from the other runners; it ends only when the channel is closed.",
         over=["schedules", "histories"], q="every number of runners, every pattern of delivery failures and of lagging",
         why="Tests have one runner that never fails and few events.",
         files=[RC], mech=[("event loop of start", RC)], tech=TS),
    dict(id="P27", title="A remote step's stream is that of its runner, and always ends",
         statement="A step given to the remote client is offered to the scheduler with all connected runners; the runner picked is asked once to run exactly that step. The server runs it once on its own runner and sends every log, unchanged and in order, "
                   "and then the result, all under the step's id. The client's stream of the step has exactly those logs, each of its kind, and that result. On every path - no runner, a refused call, a broken connection, an undeliverable signal, a missing "
                   "result - the step's stream ends, then and only then with a failure, so that the step completes.",
         over=["histories", "schedules"], q="every sequence of responses and every point at which the connection or runner fails",
         why="Tests run short successful steps; failures at each point of the exchange are not among them.",
         files=[RC, RS], mech=[("Runner::run of the client and its task", RC), ("run of the server and its task", RS)], tech=TS),
    dict(id="P28", title="The client connects every url and keeps only matching runners, once per id",
         statement="Starting the client connects to each given url once; a url that cannot be reached or whose runner does not answer does not keep the others from being connected. A runner is kept only if it reports exactly the client's version, "
                   "under the id it reports, with its own metadata and connection; a runner whose id is connected already does not replace it. No other runner is left out.",
         over=["configurations", "inputs"], q="every list of urls, every answer of each runner",
         why="Tests connect one runner of the right version.",
         files=[RC], mech=[("start and connect", RC)], tech=TS),
    dict(id="P29", title="A signal of a remote step reaches exactly that step's remote runner",
         statement="While a remote step runs, its cancel or timeout signal is sent, with its kind and the step's id, to the runner the step runs on, once; the client always waits for the signal together with the responses. The server registers the signal it hands to its "
                   "runner under the step's id before the runner starts, sets exactly that signal, by that kind, when told, ignores signals of unknown steps, and forgets the step's signal - and no other - when the step is completed.",
         over=["schedules", "histories"], q="every moment a signal can arrive, every set of running steps",
         why="Tests cancel and time out a single step.",
         files=[RC, RS], mech=[("select of the client's task", RC), ("signals of the server", RS)], tech=TS + " and exact map-effect summaries"),
    dict(id="P30", title="Before-run hooks are chained over all remote runners",
         statement="The before-run hook of the remote client calls the hook of every connected runner, one after the other, each with what the previous one produced, and yields what the last one produced; if one fails, the hook fails and no further runner is asked. "
                   "The server passes the step it is sent through its plugins, then through its runner, and answers with what the runner produced or with its failure. No field of the command is lost or changed on the way.",
         over=["configurations", "inputs"], q="every number of runners, every outcome of each hook, every step",
         why="Tests connect one runner without such a hook.",
         files=[RC, RS, "crates/astro-run/src/types/context.rs"], mech=[("on_before_run_step of the client", RC), ("call_before_run_step_hook", RS)], tech=TS + ", field-by-field provenance"),
    dict(id="P31", title="A runner server reports and uses exactly what it was built with",
         statement="A runner server reports the id, the number of runs and the docker and host support it was built with, and the platform and version it really has; it uses the given runner and all given plugins in the order given. It cannot be built without an id or a runner. "
                   "A client built with a scheduler uses that scheduler. Of a value given twice, the last counts.",
         over=["configurations"], q="orders of builder calls, every value passed",
         why="Tests build servers with one set of options and do not look at the metadata.",
         files=[RS, RC], mech=[("AstroRunRemoteRunnerServerBuilder", RS), ("get_runner_metadata", RS)], tech="composition of exact value summaries (abstract interpretation over MIR)"),
    dict(id="P32", title="Every line a step's process writes is reported, and how it ended",
         statement="Each line the process of a step writes is reported once, unchanged and in the order of its stream, as a log if it went to stdout and as an error if it went to stderr; a line that is not UTF-8 is reported as a problem and does not keep later "
                   "lines from being reported. While either stream is open it is being read. Once both have ended the step ends with the process's exit status: success for 0, failure with that code otherwise, failure if it was killed. `exec` yields the trimmed output of a process that succeeded and an error otherwise.",
         over=["schedules", "inputs"], q="every interleaving of lines and ends of the two streams, every byte content, every exit status",
         why="Tests run echo; the order in which two streams end and undecodable output do not occur in them.",
         files=[RU + "command.rs"], mech=[("Command::run", RU + "command.rs"), ("Command::exec", RU + "command.rs")], tech=TS),
    dict(id="P33", title="A step on the host runs its own command, variables and directory",
         statement="The process started for a step on the host runs exactly the step's command text in a shell, in its job's data directory, which exists by then, with each of the step's environment variables set to the text of its value.",
         over=["inputs"], q="every command text, every set of variables of each kind, with and without trigger event",
         why="Tests run one echo without variables.",
         files=[RU + "executors/host.rs", RU + "command.rs", "crates/astro-run/src/types/envs.rs"], mech=[("HostExecutor::execute", RU + "executors/host.rs"), ("build_command", RU + "command.rs")],
         tech=TS + " with one arbitrary variable tracked as witness"),
    dict(id="P34", title="A step's container gets every option of the step",
         statement="The container of a step is made of the image the step names (ubuntu if none), removed afterwards, and named after workflow, job and step. It gets each environment variable with its value, each host:container volume, each security option, the job's data directory "
                   "as working directory, the cache directory, and the step's script as entrypoint; nothing else.",
         over=["inputs", "configurations"], q="every combination of container options and variables",
         why="The unit test compares one command line with one of everything; volumes are lost when read from a step, as they were, without any test noticing.",
         files=[RU + "executors/docker.rs", RU + "docker.rs"], mech=[("DockerExecutor::into_command", RU + "executors/docker.rs"), ("generate_docker_command", RU + "docker.rs")],
         tech="path-sensitive abstract interpretation over MIR of the command line as a symbolic string, with one arbitrary element per list as witness"),
    dict(id="P35", title="A container's script is complete on disk before the container starts",
         statement="The file mounted as a container's entrypoint consists of exactly the step's command text, with an interpreter line before it if and only if the text has none; when the container is started the file exists in the step's own directory, is executable, holds nothing older and has been "
                   "written completely.",
         over=["inputs", "schedules"], q="every command text, every state of the file system, every delay of a write",
         why="A write that is still under way when the container starts depends on timing; no test starts a container.",
         files=[RU + "utils.rs", RU + "executors/docker.rs"], mech=[("create_executable_file", RU + "utils.rs")], tech=TS + " over file operations"),
    dict(id="P36", title="A step ends with its command or at once when it is signalled",
         statement="Running a step hands out its stream at once and executes it in a task. The step's command runs unless the step was cancelled or timed out before, and is always waited for together with the step's signal. A signalled step ends as cancelled or timed out, also if the signal came before the start; "
                   "otherwise the command ends it, and if neither does it ends as failed. The stream is always ended.",
         over=["schedules", "faults"], q="every moment of a signal relative to start and end of the command, every failing file operation",
         why="Tests cancel a sleeping command; signals before the start or failing preparations do not occur.",
         files=[RU + "executors/host.rs", RU + "executors/docker.rs", RU + "astro_runner.rs"],
         mech=[("select of the executors", RU + "executors/docker.rs"), ("task of AstroRunner::run", RU + "astro_runner.rs")], tech=TS),
    dict(id="P37", title="The process or container of a signalled step is killed",
         statement="When a step is cancelled or times out while its command runs, the process started for it is killed; if it runs in a container, a kill of the very container started for the step is carried out before the step's execution returns. A step that was not signalled is never killed.",
         over=["schedules"], q="every moment of a signal", why="The tests look at the step's result, not at what goes on running.",
         files=[RU + "command.rs", RU + "executors/docker.rs"], mech=[("spawn of the process", RU + "command.rs"), ("docker kill", RU + "executors/docker.rs")], tech=TS,
         note="The shell is killed; processes it started and left behind on the host are not tracked."),
    dict(id="P38", title="Steps that name this host run on it, all others in docker",
         statement="A step whose container is named host/<os> or host/<os>-<arch> of the machine it runs on is executed on the host; every other step, and only those, in docker.",
         over=["configurations"], q="every container name", why="Tests use the two names of one platform.",
         files=[RU + "astro_runner.rs"], mech=[("create_executor", RU + "astro_runner.rs")], tech="path-sensitive abstract interpretation over MIR"),
    dict(id="P39", title="A job's steps share one directory that lasts as long as the workflow",
         statement="All steps of a job work in the same directory, below the runner's directory, the repository of the trigger event if there is one, the workflow's id and the job's key; executing a step removes at most the step's own directory. When a workflow ends exactly its directory is removed, wherever "
                   "its trigger event put it, its event is forgotten, and the hook does not fail.",
         over=["histories", "configurations"], q="every sequence of steps, with and without trigger event, every failing removal",
         why="Tests run one step per job.",
         files=[RU + "metadata.rs", RU + "executors/host.rs", RU + "executors/docker.rs", RU + "astro_runner.rs"],
         mech=[("MetadataBuilder::build", RU + "metadata.rs"), ("cleanup_workflow_working_directory", RU + "astro_runner.rs")], tech="exact path values and map effects (abstract interpretation over MIR)"),
    dict(id="P40", title="Every plugin of the runner sees each step before and after it runs",
         statement="Before a step is executed each plugin of the runner, in the order of registration, gets the step as the one before it left it; one that fails is skipped. What the last one leaves is what is executed, and after the step has ended each plugin gets it once. The builder's directory and plugins are those the runner uses.",
         over=["configurations", "histories"], q="every list of plugins and every outcome of each hook", why="The test looks at the driver alone, with three plugins.",
         files=[RU + "plugin.rs", RU + "astro_runner.rs"], mech=[("PluginDriver of the runner", RU + "plugin.rs"), ("AstroRunner::run", RU + "astro_runner.rs")], tech=TS),
    dict(id="P41", title="What is sent to a remote runner is read there as it was written",
         statement="A value of any type that crosses the wire or is stored (steps, contexts, commands, workflows, jobs, events, results, logs, trigger events) is, after it has been written and read again, equal to what it was, in every field and for every variant, apart from a step's signal handle, "
                   "which is local to a process. The codec of the calls writes a message completely or fails, reads what the buffer holds, and never passes off a message it could not read as the end.",
         over=["inputs"], q="every value of every serialized type", why="Tests send a handful of values, whose optional fields are mostly empty.",
         files=["crates/protocol/src/common/json_codec.rs", "crates/astro-run/src/types/context.rs", "crates/astro-run/src/types/results.rs", "crates/astro-run/src/runner.rs"],
         mech=[("Serialize and Deserialize of the shared types", "crates/astro-run/src/types/context.rs"), ("JsonEncoder and JsonDecoder", "crates/protocol/src/common/json_codec.rs")],
         tech="composition of serializers and deserializers over abstract documents (abstract interpretation over MIR)"),
    dict(id="P42", title="Every documented key of a workflow file is read into the setting it names",
         statement="Each documented key of a workflow, job, step, container or condition is read into the setting it names, whichever other keys are there and in whatever order; a key that is left out leaves its setting unset; a required key that is missing is an error. A step with `run` is a command, one with `uses` an action; "
                   "a container is an image or options; a condition is a list of events or a configuration; a variable keeps its kind.",
         over=["inputs", "configurations"], q="every combination and order of keys", why="Tests use a few files with some of the keys.",
         files=["crates/astro-run/src/user_config.rs", "crates/astro-run/src/types/condition.rs", "crates/astro-run/src/types/envs.rs"],
         mech=[("Deserialize of the user's configuration", "crates/astro-run/src/user_config.rs"), ("Condition", "crates/astro-run/src/types/condition.rs")],
         tech="abstract interpretation of the deserializers over abstract documents"),
    dict(id="P43", title="Ids are made of their parts, and their text is read back as the same id",
         statement="The ids of a workflow, its jobs and steps made from the same workflow id, job key and step number agree: every accessor returns its part. The text of an id is its parts separated by '/', and that text is read back as the same id; a text with another number of parts, without any, or with a step number that is none, "
                   "is an error and no panic. Two ids are equal exactly if all their parts are.",
         over=["inputs"], q="every workflow id, job key and step number without '/', every text", why="Tests use one id of each kind and two malformed texts.",
         files=["crates/astro-run/src/types/id.rs"], mech=[("WorkflowId, JobId and StepId", "crates/astro-run/src/types/id.rs")], tech="composition of exact value summaries (abstract interpretation over MIR)"),
    dict(id="P44", title="A hook that is not implemented changes nothing and succeeds",
         statement="Every hook that the traits for runners, plugins, runner plugins and schedulers provide succeeds at once without any effect; a provided hook before a run returns what it was given, and a provided action lookup finds nothing.",
         over=["inputs", "configurations"], q="every hook of every implementation that leaves it out, every argument", why="Tests implement the hooks they look at.",
         files=["crates/astro-run/src/plugins/mod.rs", "crates/astro-run/src/runner.rs", RU + "plugin.rs", "crates/scheduler/src/lib.rs"],
         mech=[("Plugin", "crates/astro-run/src/plugins/mod.rs"), ("Runner", "crates/astro-run/src/runner.rs")], tech="exact value and effect summaries (abstract interpretation over MIR)"),
    dict(id="P45", title="No answer of a hook or runner makes a run panic",
         statement="Whatever plugins, hooks, the runner and its stream answer, running a workflow, a job or a step does not panic and goes on to its end; only a payload that cannot be serialized is exempt.",
         over=["inputs", "histories"], q="every workflow, every sequence of answers, logs, results and signals", why="Tests see a few answers; a panic needs an unusual one, ends a job's task silently and leaves the run waiting for it.",
         files=[W, J, X], mech=[("Workflow::run", W), ("Job::run", J), ("ExecutionContext::run", X)], tech=TS),
    dict(id="P46", title="Hooks may call back: no lock is held while foreign code runs",
         statement="While one of the library's locks is held, no hook, runner, scheduler, plugin, action or callback is called and nothing is awaited; a lock that is held is never taken again, and two locks are always taken in the same order. So a hook may call back into the library, and runs do not lock each other out.",
         over=["schedules", "histories"], q="every schedule, every hook that calls back into the library", why="A test would have to call back from the very hook, or hit the very interleaving.",
         files=["crates/astro-run/src/stream.rs", "crates/astro-run/src/signals/signal.rs", SC, RC, RS],
         mech=[("state of the scheduler", SC), ("clients of the remote client", RC), ("state of a stream", "crates/astro-run/src/stream.rs")],
         tech="guard liveness dataflow over MIR, lock-order analysis over call summaries"),
    dict(id="P47", title="Nothing a run does blocks a thread of the runtime",
         statement="No asynchronous function of the library, whichever path it takes, sleeps, waits, joins, receives, locks or runs a process in a way that stops the thread that polls it; what must block is given to a thread of its own. So one run cannot hold up the timeouts, signals and logs of another.",
         over=["schedules", "inputs"], q="every path of every asynchronous function", why="Tests run few steps on several threads; a blocked thread shows under load, or on a rare path.",
         files=[RU + "command.rs", RU + "astro_runner.rs", RC, RS, X],
         mech=[("asynchronous functions of the runner", RU + "command.rs"), ("remote client", RC)], tech="effect analysis over the call graph of MIR",
         note="Calls on the file system and loops without an await are not counted as blocking."),
    dict(id="P48", title="The logger prints exactly the records of its level",
         statement="The logger prints a record, with its message and level, exactly if the record's level is at most the logger's. init_logger takes the level RUST_LOG names, and info if it names none; init_logger_with_level the one given. The same level is what the log facade lets through, and a second initialization installs nothing.",
         over=["inputs", "configurations"], q="every pair of levels, every value of the variable", why="The tests print, and look at nothing.",
         files=["crates/logger/src/lib.rs"], mech=[("Logger", "crates/logger/src/lib.rs"), ("init_logger", "crates/logger/src/lib.rs")], tech="path-sensitive abstract interpretation over MIR"),
    dict(id="P49", title="States, logs, variables and errors say exactly what they stand for",
         statement="A state is terminal exactly if it is succeeded, failed, cancelled or skipped; a log is an error exactly if it was made as one; the text of a log type is read back as that type, and any other text as a plain log; a variable's text is that of its value; an error keeps the kind and message it was made with, "
                   "its text ends with the message and differs between kinds, and two errors are equal exactly if they are of one kind and their contents (for I/O errors, their kinds) are equal.",
         over=["inputs"], q="every variant and content, every pair of errors", why="Tests compare a few literals, no error of two kinds with the same message.",
         files=["crates/astro-run/src/types/workflow_state.rs", "crates/astro-run/src/types/error.rs", "crates/astro-run/src/types/envs.rs", "crates/astro-run/src/types/mod.rs", "crates/astro-run/src/runner.rs"],
         mech=[("WorkflowState", "crates/astro-run/src/types/workflow_state.rs"), ("Error", "crates/astro-run/src/types/error.rs")], tech="exact value summaries (abstract interpretation over MIR)"),
]

NA = [
    dict(id="P90", title="A cancelled or timed-out step actually stops within bounded time",
         statement="After cancel or timeout is signalled, the step's process ends and the step completes within a bounded time.",
         over=["schedules", "fault_sequences"], q="every process behaviour after the signal", why="Depends on real processes and clocks.",
         files=["crates/runner/src/command.rs"], mech=[("kill of the child process", "crates/runner/src/command.rs")],
         reason="Bounded time quantifies over the operating system's scheduling and the child's behaviour; no static argument over this source bounds it (the static part, that the signal reaches the kill call, is claimed elsewhere)."),
]
