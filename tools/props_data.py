"""Single source of properties.jsonl and of the check entries of MANIFEST.json (tools/gen.py writes both)."""

SIM = "prosimos/simulation_engine.py"
CF = "prosimos/control_flow_manager.py"
Q = "prosimos/simulation_queues_ds.py"
SS = "prosimos/simulation_setup.py"
PP = "prosimos/simulation_properties_parser.py"
ST = "prosimos/simulation_stats_calculator.py"
SR = "prosimos/simulation_stats.py"
EI = "prosimos/execution_info.py"
BP = "prosimos/batch_processing.py"
BPP = "prosimos/batch_processing_parser.py"
PRI = "prosimos/prioritisation.py"

P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe=(), bounds=""):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe)))


prop("C01", "Every logged activity has a causally correct timeline",
     "For every activity of every simulated case, enablement is not before the simulation start, the activity is enabled "
     "exactly when the activities that cause it have completed (the first ones when the case arrives), and "
     "enabled <= started <= completed. The reported waiting, processing, idle and cycle times of the activity are the "
     "non-negative differences of those instants, with processing time equal to the calendar working time inside "
     "[start, completion], and a case completes when its last activity does.",
     ["inputs", "configurations", "schedules"],
     "all durations, inter-arrival times, gateway choices and token orders within the stated graphs and calendars",
     "Tests compare single runs with fixed durations; the ordering must hold for every duration, arrival and calendar.",
     [SIM, CF, EI, SS], [("SimBPMEnv.execute_task / execute_enabled_event", SIM), ("TaskEvent", EI)],
     ["event log rows", "trace list of the simulation result"])
prop("C02", "A resource never works on two activities at once",
     "Two activities executed by the same resource (of amount 1, without multitasking and not part of one batch) never "
     "overlap in time: the later one starts at or after the completion of the earlier one, in allocation order.",
     ["inputs", "configurations", "schedules"],
     "all durations, inter-arrival times, choices of gateway and case interleavings within the stated graphs",
     "Tests sample a few seeds; overlap depends on relative timing of cases and on calendars.",
     [SIM, Q], [("SimBPMEnv.pop_and_allocate_resource", SIM), ("DiffResourceQueue", Q)], ["event log rows"])
prop("C03", "Work happens only inside the resource's calendar and lasts its duration",
     "An activity starts at the first instant, at or after both its enablement and its resource becoming available, that "
     "lies inside that resource's weekly calendar; the working time of the calendar between start and completion equals "
     "exactly the sampled duration.",
     ["inputs", "configurations"],
     "all start instants within a week (and beyond it), all durations within the bounds, for calendars of the stated shapes",
     "Tests check a few instants of a few calendars; gaps, day and week wrap-arounds and exact boundaries are input dependent.",
     [SIM, SS, "venv: pix_framework RCalendar"], [("SimDiffSetup.next_resting_time / real_task_duration", SS)],
     ["RCalendar queries", "event log rows"])
prop("C04", "Allocation uses the earliest-available eligible resource; queues stay in step",
     "A task is performed only by a resource assigned to it, and among those the one that becomes available earliest is "
     "chosen. A change of a resource's availability is visible to every task that can use that resource, and a resource "
     "taken for one task is not offered for another until it is released again.",
     ["inputs", "histories", "configurations"],
     "all sharing patterns of resources between tasks within the bounds and all availability times and update orders",
     "Tests use one or two fixed assignments; the sharing of queues depends on the whole assignment and on operation order.",
     [Q, SIM], [("DiffResourceQueue._init_simulation_queues / update_resource_availability", Q)], ["event log rows"])
prop("C05", "The priority queue returns live elements by priority, then insertion order",
     "Whatever sequence of insertions, priority updates, removals, peeks and pops is applied, pop and peek return the live "
     "element with the smallest priority (ties: the most recently inserted or updated one last), peek does not change the "
     "queue, an updated element is returned once with its latest priority, and size, membership and emptiness are exact.",
     ["histories", "inputs"], "all operation sequences of the stated shapes and all priority values",
     "Unit tests run a few sequences with fixed priorities; heap order after updates depends on values and order.",
     [Q], [("PriorityQueue", Q)], ["PriorityQueue methods"])
prop("C06", "Enabled work is taken in time order with a deterministic tie break",
     "Among waiting work items, the one with the highest case priority is served first, then the earliest enabled one, "
     "then the one enqueued first; an intermediate event that is due is never overtaken by a later activity, and no item "
     "is lost or served twice.",
     ["histories", "inputs"], "all sequences of enqueue/serve operations within the bounds, all times and priorities",
     "Tests fix the order of a few items.", [Q, SIM], [("EventQueue", Q)], ["EventQueue operations"])
prop("C07", "Gateway decisions activate exactly the permitted outgoing flows",
     "A parallel split activates all outgoing flows; an exclusive split exactly one, an inclusive split at least one; with "
     "branching probabilities a flow of probability 0 is never activated; with branch conditions, only flows whose "
     "condition is true are activated whenever some condition is true, and without any true condition the choice falls "
     "back to the flows that carry no condition, or otherwise to the probabilities.",
     ["inputs", "configurations"], "all random draws, all attribute values and all true/false combinations of conditions",
     "Tests draw a few thousand samples; rare draws and condition combinations are not covered.",
     [CF, "prosimos/probability_distributions.py", "prosimos/branch_condition_rules.py"],
     [("BPMNGraph.update_process_state / _evaluate_gateway", CF)], ["flows activated in the case state"])
prop("C08", "Branch conditions mean what the documentation says",
     "A condition set is true when at least one of its AND groups has all of its rules true; numeric comparisons (<, <=, "
     ">, >=, =, in) compare with closed bounds as documented, 'inf' has no upper limit, and string equality compares text.",
     ["inputs", "configurations"], "all rule structures within the bounds, all numeric attribute values",
     "Tests evaluate a fixed set of values.",
     ["prosimos/branch_condition_rules.py", PP], [("BranchConditionRules", "prosimos/branch_condition_rules.py")],
     ["is_true of rule sets"])
prop("C09", "Case priority is the most urgent level whose rule holds",
     "A case gets the smallest priority level for which one of the rules holds on its attributes; without any matching "
     "rule it gets the lowest precedence; higher-precedence cases are served before others among waiting work.",
     ["inputs", "configurations"], "all rule sets within the bounds, all attribute values",
     "Tests sample a few levels and values.", [PRI, "prosimos/prioritisation_parser.py"],
     [("CasePrioritisation", PRI)], ["case priority"])
prop("C10", "Batching neither loses nor duplicates case activities",
     "Every case that reaches a batched activity executes it exactly once per visit, in exactly one batch; members of a "
     "parallel batch share start and end; members of a sequential batch run one after another in order without overlap.",
     ["inputs", "histories", "configurations"], "all arrival times, durations, batch sizes within the bounds",
     "Tests count rows for single runs.", [SIM, EI, CF], [("SimBPMEnv.execute_task_batch", SIM)], ["event log rows"])
prop("C11", "A batch fires exactly when one of its firing rules is satisfied",
     "A batch is fired if and only if one OR-alternative of its firing rules holds (size, waiting time since first/last "
     "item, hour of day, weekday), at the earliest such instant, and the fired size respects the size rule.",
     ["inputs", "configurations"], "all enqueue times, current times, sizes within the bounds for the stated rule shapes",
     "Tests check fixed timestamps; gaps longer than a day and boundary instants are not covered.",
     [BP], [("OrFiringRule / AndFiringRule / FiringSubRule", BP)], ["is_true results", "event log rows"])
prop("C12", "Batch duration scaling follows the configured distribution",
     "The duration of a batch is the sampled duration of one item scaled by the coefficient configured for the "
     "largest configured batch size that is not larger than the number of items (1 when the batch is smaller than "
     "all of them, and 1 for a single item); a parallel batch lasts that time once per item in total, a sequential "
     "one lets each item last it.",
     ["inputs", "configurations"],
     "all sizes, durations and duration-scaling tables within the bounds",
     "Tests check one table.",
     ['prosimos/batch_processing.py', 'prosimos/simulation_engine.py', 'prosimos/execution_info.py'], [('BatchConfigPerTask.calculate_ideal_duration', 'prosimos/batch_processing.py')], ['event log rows'])
prop("C13", "Case, event and global attributes follow their definitions and scopes",
     "A discrete attribute takes only its configured options, a numeric one only values of its distribution or expression; "
     "case attributes are constant inside a case unless an activity redefines them; one case's values never leak into "
     "another, global attributes are shared by all cases.",
     ["inputs", "histories", "configurations"], "all attribute definitions of the stated shapes, all draws",
     "Tests run a few draws.", ["prosimos/case_attributes.py", "prosimos/event_attributes.py",
                                "prosimos/global_attributes.py", "prosimos/all_attributes.py"],
     [("AllAttributes", "prosimos/all_attributes.py")], ["attribute columns of the log"])
prop("C14", "Aggregated KPIs equal the exact aggregates of the simulated activities",
     "For every KPI the reported count, total, minimum, maximum and average per task and for the whole process equal the "
     "exact aggregates over the simulated activities and cases.",
     ["inputs", "histories"], "all sequences of event timings within the bounds",
     "Tests check one small log.", [ST, SR, EI], [("KPIMap / compute_resource...", ST)], ["statistics report"])
prop("C15", "Interval algebra: union and idle time are exact",
     "For any list of time intervals the covered time equals the measure of their union (overlapping, nested or touching "
     "intervals counted once), and calendar idle time within an interval is the interval minus its working time.",
     ["inputs"], "all interval lists up to the stated length", "Tests use a few lists.",
     [EI, ST], [("sum_interval_union", ST)], ["KPI values"])
prop("C16", "The configured maximum number of gateway executions per case holds",
     "A configured maximum number of executions of split gateways is never exceeded within a case: below the "
     "maximum the choice is not restricted, when it is reached the case ends at that gateway, the count of one "
     "case does not affect another, and without a configured maximum there is no limit.",
     ["inputs", "histories"],
     "all draws and visit sequences within the bounds",
     "Tests run a few seeds.",
     ['prosimos/control_flow_manager.py'], [('gateway execution limit', 'prosimos/control_flow_manager.py')], ['flow activations'])
prop("C17", "Cases arrive in order, inside the arrival calendar, in the requested number",
     "Exactly the requested number of cases starts; the first one at the requested start if that lies inside the "
     "arrival calendar, and otherwise one sampled inter-arrival time later; every case arrives inside the arrival "
     "calendar, at the first calendar instant at or after the previous arrival plus the sampled inter-arrival "
     "time, so that arrivals never go back in time. Without an arrival calendar the working hours of the resources "
     "of the first activities are used.",
     ["inputs", "configurations"],
     "all inter-arrival times and start instants within the bounds",
     "Tests sample seeds.",
     ['prosimos/simulation_engine.py', 'prosimos/simulation_setup.py'], [('generate_all_arrival_events', 'prosimos/simulation_engine.py')], ['case start times'])
prop("C18", "Token flow obeys the BPMN execution semantics",
     "Tasks are enabled only by a token, a parallel join fires once per complete set of incoming tokens, an exclusive join "
     "passes each token, an inclusive join waits exactly for the tokens that can still arrive, and a sound model "
     "terminates with its end event reached and no activity executed without cause.",
     ["inputs", "histories", "schedules", "programs"], "all firing orders and choices in the stated graphs",
     "Tests run fixed orders.", [CF], [("BPMNGraph.update_process_state / ProcessState", CF)], ["enabled tasks"])
prop("C19", "The event log is complete: each executed activity is written exactly once",
     "Every executed activity of every case appears exactly once in the event log in the documented columns, whatever the "
     "number of rows, the buffering or the way cases are started.", ["inputs", "histories", "configurations"],
     "all row counts and buffer boundaries within the bounds", "Tests use short logs.",
     ["prosimos/file_manager.py", SIM], [("FileManager", "prosimos/file_manager.py")], ["CSV files"])
prop("C20", "Cost and utilization follow from working time",
     "A resource's utilization is its worked time divided by its calendar availability over the simulation period, never "
     "negative and at most 1 for a resource that never overlaps, and costs are working hours times the hourly rate.",
     ["inputs", "configurations"], "all event timings within the bounds", "Tests check one run.",
     [ST, SS, SR], [("compute_resource_utilization", ST)], ["statistics report"])
prop("C21", "Discovered branching probabilities equal observed frequencies",
     "The branching probabilities discovered from a log are the relative frequencies with which the flows of each "
     "exclusive or inclusive split were taken in the replayed traces: non-negative, 0 for flows never taken, "
     "summing to 1 for every split that was executed, and for no other elements; the written parameters keep them, "
     "and simulating with them chooses a flow in exactly that proportion of the draws.",
     ["inputs"],
     "all flow frequencies within the bounds",
     "Tests use fixed logs.",
     ['prosimos/control_flow_manager.py', 'bpdfr_discovery/log_parser.py'], [('BPMNGraph.compute_branching_probability', 'prosimos/control_flow_manager.py'), ('gateway_branching_to_json', 'bpdfr_discovery/log_parser.py'), ('BPMNGraph.reply_trace', 'prosimos/control_flow_manager.py')], ['discovered parameters'])
prop("C22", "Fuzzy calendars give the exact worked duration",
     "With probabilistic calendars (granules worked with a probability, drawn when the granule is reached): the time worked between "
     "the start of a task and its end equals the requested duration, is worked only in granules drawn as available, and every such "
     "granule is used from the first instant on without being counted twice, fractions of a second included; a waiting task starts "
     "at the beginning of the first available granule (at once if the current one is available); granules of probability 1 (0) are "
     "always (never) worked. The expected availability of a period is the sum over its granules of probability times the part inside "
     "the period. In a simulation where all probabilities are 0 or 1, activities start and end accordingly, and every resource, also an "
     "idle one, is reported with the calendar time available and utilization = worked / available.",
     ["inputs", "configurations"],
     "all start instants, durations, draws and inter-arrival times within the bounds for the stated calendars",
     "Tests use one calendar and fixed instants.",
     ['prosimos/fuzzy_engine/fuzzy_calendar.py', 'prosimos/simulation_setup.py', 'prosimos/simulation_stats_calculator.py'], [('WeeklyFuzzyCalendar', 'prosimos/fuzzy_engine/fuzzy_calendar.py')], ['calendar queries'])
prop("C23", "Multitasking respects workload limits",
     "A resource with multitasking parameters never performs more activities at the same time than the largest number of parallel tasks "
     "configured (for local parameters: in the granule), a resource without them never more than one. It takes an n-th simultaneous "
     "activity with the probability configured for n (always for 1, never for 0); when it takes no more, it is occupied until the last "
     "of its activities is completed, and then its bookkeeping is back to zero. Activities are not given to an occupied resource while "
     "another one is available, start in working time when enabled and the resource is available, last their sampled duration of "
     "working time, and are all counted.",
     ["inputs", "histories", "configurations"],
     "all allocation sequences, completion orders, draws and instants within the bounds",
     "No test simulates with multitasking.",
     ['prosimos/multitasking/multitasking_struct.py', 'prosimos/simulation_engine.py', 'prosimos/simulation_properties_parser.py'], [('MultiTaskDS', 'prosimos/multitasking/multitasking_struct.py'), ('allocate_multitasking_resource', 'prosimos/simulation_engine.py')], ['histories of starts', 'simulations'])
prop("C24", "Weekdays, calendar periods, granules and the clock convert consistently",
     "The next given weekday is the nearest one strictly after the day of an instant (a week later if it is that weekday "
     "already), the most recent one the nearest one at or before it, both at the same time of day; calendar periods of the configuration become exactly the working time they describe for every pair of "
     "weekdays, also over the end of the week, in crisp and probabilistic calendars; granules partition the day; "
     "the simulation clock in seconds and in date-time agree.",
     ["inputs"],
     "all instants of the stated ranges",
     "Tests use a few dates.",
     ['prosimos/weekday_helper.py', 'prosimos/simulation_properties_parser.py', 'prosimos/fuzzy_engine/fuzzy_calendar.py'], [('get_nearest_abs_day / get_nearest_past_day', 'prosimos/weekday_helper.py'), ('convert_to_fuzzy_time_periods', 'prosimos/simulation_properties_parser.py'), ('parse_resource_calendars', 'prosimos/simulation_properties_parser.py'), ('WeeklyFuzzyCalendar', 'prosimos/fuzzy_engine/fuzzy_calendar.py')], ['helper results'])
prop("C25", "Sampled values respect their distribution's support",
     "A histogram sample is the midpoint of the bin whose cumulative range contains the draw; flow choices never "
     "return a flow of probability zero and follow the cumulative probabilities; missing branching probabilities "
     "are completed so that they sum to 1; durations, inter-arrival times, event and attribute values drawn from a "
     "truncated distribution lie inside its configured minimum and maximum and are never negative; the "
     "distribution functions of attribute expressions stay inside their support.",
     ["inputs", "configurations"],
     "all draws, all parameters within the bounds",
     "Tests draw a finite sample.",
     ['prosimos/histogram_distribution.py', 'prosimos/probability_distributions.py', 'prosimos/simulation_properties_parser.py', 'prosimos/event_attributes.py'], [('Choice / HistogramDistribution', 'prosimos/probability_distributions.py')], ['samples'])
prop("C26", "The parsed model and parameters are those of the input files",
     "Every supported element and sequence flow of the BPMN file appears in the parsed model with its type, name "
     "and its incoming and outgoing flows, whatever the order and wiring; several flows into a task, event or end "
     "event, several flows out of a task, and gateways that both join and split behave like the explicit gateways "
     "they stand for (exclusive join, parallel split, inclusive join, join followed by split), and nothing else is "
     "added. The numbers of the parameter file (costs, amounts, calendars, distributions per task and resource, "
     "probabilities, limits) arrive unchanged at the resources, tasks, events and gateways they are given for.",
     ["programs", "inputs"],
     "all element kinds and wirings within the bounds",
     "Tests parse fixed files.",
     ['prosimos/control_flow_manager.py', 'prosimos/simulation_properties_parser.py'], [('parse_simulation_model', 'prosimos/simulation_properties_parser.py'), ('parse_json_sim_parameters', 'prosimos/simulation_properties_parser.py'), ('BPMNGraph.add_bpmn_element / add_flow_arc', 'prosimos/control_flow_manager.py')], ['BPMNGraph'])
prop("C27", "Every simulation of a valid model terminates with all cases finished",
     "A simulation with a valid model and parameters ends without an error, all requested cases are completed, for all "
     "supported element kinds and configurations.", ["inputs", "configurations", "schedules"],
     "all durations and choices within the bounds for the stated models", "Tests run fixed seeds.",
     [SIM, CF], [("SimBPMEnv", SIM)], ["simulation result"])
prop("C28", "Intermediate events delay exactly by their duration; event gateways race",
     "An intermediate event completes exactly its sampled duration after it is enabled, independent of resources and "
     "calendars, and an event-based gateway continues only with the event that occurs first.",
     ["inputs", "schedules"], "all event durations within the bounds", "Tests fix durations.",
     [CF, SIM, EI], [("TaskEvent.create_event_entity", EI), ("event-based gateway", CF)], ["event log rows"])
prop("C29", "The statistics file agrees with the event log",
     "The statistics file written with a simulation agrees with the event log written by the same simulation: "
     "activity counts, start and end, waiting, processing, cycle, idle times, costs and utilization are the values "
     "that follow from the log rows, and reading the file back returns the written values unchanged.",
     ["inputs", "histories"],
     "all logs within the bounds",
     "Tests compare a few values.",
     ['prosimos/simulation_stats.py', 'prosimos/simulation_stats_calculator.py'], [('simulation stats', 'prosimos/simulation_stats.py')], ['statistics report'])
prop("C30", "Log replay assigns enabling times from the model",
     "Replaying a log trace that the process model (built of sequences, choices, parallel and inclusive blocks and "
     "loops) can produce succeeds without pending tokens, enables each activity at the latest completion of the "
     "activities that cause it (the first ones at the start of the case), and counts every decision flow as often "
     "as it was taken (as in one of the runs that explain the trace, where optional activities leave that open; "
     "inclusive and parallel blocks with branches without activities are otherwise not claimed); the waiting and "
     "processing times per activity that are computed from the log follow from these enabling times.",
     ["inputs", "histories"],
     "all timings within the bounds",
     "Tests use fixed logs.",
     ['prosimos/control_flow_manager.py', 'bpdfr_discovery/log_parser.py'], [('BPMNGraph.reply_trace', 'prosimos/control_flow_manager.py'), ('compute_kpi_times_from_csv_log', 'bpdfr_discovery/log_parser.py'), ('compute_enabling_processing_times', 'bpdfr_discovery/log_comparison_metrics.py')], ['enabling times'])
prop("C31", "The warnings of a run are exactly those its execution justifies",
     "The warnings written with a simulation name every element used in fewer than 1 % or more often than once per case "
     "(and every flow taken that rarely or that often) with the number of times it was really used, and no other; they "
     "note every decision in which no gateway condition (or more than one, for exclusive gateways) held, every "
     "gateway for which only some conditions are given and every case cut because a gateway exceeded the execution "
     "limit, and contain nothing from other simulations; a gateway is executed at most as often as that limit.",
     ["inputs", "histories", "schedules"],
     "all usage counts, decisions, attribute values and durations within the bounds",
     "No test reads the warnings.",
     ['prosimos/simulation_execution_stats.py', 'prosimos/simulation_engine.py', 'prosimos/outgoing_flow_selector.py', CF],
     [('SimulationExecutionStats', 'prosimos/simulation_execution_stats.py'), ('OutgoingFlowSelector', 'prosimos/outgoing_flow_selector.py'), ('run_simulation (warnings file)', SIM)], ['simulation warnings file'])

prop("C32", "Discovered parameters are those the event log shows",
     "Discovery from an event log assigns every activity exactly the resources seen executing it (or joint resources "
     "that never execute two things at once), fits each duration to the clock (or calendar working) durations of that "
     "resource and activity, or of the whole activity if these are too few, fits the inter-arrival times to the "
     "differences of successive case starts inside the arrival calendar, mines calendars that contain all observed "
     "instants if full support is demanded, ignores rows that are no activities of the model (rejecting logs that "
     "consist mostly of them), and writes parameters that the simulator reads with the same meaning; arrival times "
     "taken from a log are its case starts.",
     ["inputs", "histories"],
     "all log times within the bounds",
     "Tests discover from two fixed logs and look at sizes.",
     ['bpdfr_discovery/log_parser.py', 'prosimos/fuzzy_engine/event_log_analyser.py'],
     [('preprocess_xes_log', 'bpdfr_discovery/log_parser.py'), ('discover_resource_calendars', 'bpdfr_discovery/log_parser.py'), ('discover_resource_task_duration_distribution', 'bpdfr_discovery/log_parser.py'), ('get_starting_datetimes', 'prosimos/fuzzy_engine/event_log_analyser.py')], ['discovered simulation parameters (JSON)'])
