
LC = f"{LIS} {FIL} {WR} {DS} {MON} {PRB}"
prop("C24", "Components stop promptly and completely; failed starts leave nothing behind",
 "Stopping any component at any time returns within the component's documented wait (one poll interval or write timeout per queued item), with all its goroutines ended, ports released and NATS connection closed, and nothing is published or written afterwards; the component can then be started again in the same process. "
 "A start that fails at any step reports an error and leaves no goroutine, port or connection behind.",
 "schedules fault_sequences histories", "every component x traffic in flight x phase of the stop x database behaviour x schedule; every step of every start failing",
 "Tests stop components that are idle; goroutine and port leaks and stops during a publish, a slow write or a failed start are invisible to them.",
 LC, [("shutdown", f"{LIS} Stop; {FIL} Stop; {WR} Stop; {DS} Stop; {MON} Stop"), ("clean up of failed starts", f"{FIL} StartFilter; {WR} StartWriter; {DS} StartDownsampler; {MON} Start; {LIS} StartListener, StartHTTPListener")],
 ["live goroutines", "bound ports", "NATS connections and subscriptions", "effects after Stop"], "all six components with every stop point within the deviation bound")
prop("C25", "Probes say ready exactly while the component accepts and processes data",
 "Readiness is answered positively only once everything sent to the component from then on will be processed, and stays so until its shutdown begins; liveness is answered positively from the first answer until then. From then on readiness and liveness are answered negatively, and after it the probe port is released. "
 "A probe port of 0 opens no port and changes nothing else.",
 "schedules histories", "probes placed between any two steps of start and stop x subscription latency x traffic",
 "Tests probe a running component; the window between reporting ready and being subscribed needs a placed probe and message.",
 LC, [("probe state", f"{PRB} SetReady, SetAlive, Close"), ("order of start up steps", f"{FIL} StartFilter; {WR} StartWriter; {MON} Start; {LIS} StartListener")],
 ["/readyz and /healthz", "processing of data sent right after a positive answer"], "all six components with every schedule within the deviation bound")
prop("C26", "No component has a data race",
 "In every execution of any component no two threads access the same memory without synchronisation with at least one of them writing. "
 "This covers traffic from several sources, statistics, probes, scrapes, retries and shutdown happening at the same time.",
 "schedules", "all schedules of each component's threads within the deviation bound, each judged by happens-before analysis",
 "Tests under the race detector see one schedule; a race needs the two accesses to be unordered in the schedule that was run.",
 f"{LIS} {FIL} {WRK} {WR} {RET} {DS} {MON} stats/anonstats.go {PRB}", [("listener lock", f"{LIS} mu"), ("per worker batches", f"{WRK}"), ("copy of batches handed to the retry worker", f"{WR} worker"), ("atomic counters", "stats/anonstats.go"), ("monitor lock", f"{MON} mu")],
 ["reports of the race detector's happens-before analysis on the controlled executions"], "every schedule with up to 1 (2) deviations of eleven multi-threaded scenarios")

prop("C27", "Configuration files override the common file, which overrides the defaults",
 "For every option the value used is the one of the component's own file, else the one of the common file, else the documented default (which may depend on the mode); rules are taken as a whole from the file that overrides. "
 "The name defaults to the file's base name and the writer's credentials come from the environment.",
 "configurations", "every pair (triple) of the 31 options in every placement in the two files, in every mode, and every pair of rule lists",
 "Tests load a handful of files; an option that is mixed up with another needs both to be set, in a particular file.",
 CFG, [("loading order", f"{CFG} NewConfigFromFile, readConfig"), ("defaults", f"{CFG} newDefaultConfig")],
 ["the loaded configuration"], "all pairs (triples) of options and all pairs of short rule lists against a reference written from the README")
prop("C28", "Invalid configurations are rejected with an error, valid ones accepted",
 "A configuration is accepted exactly if each value parses and is in its documented range, the mode is known and has what it needs and its rules are well formed, including their regular expressions; otherwise the component reports an error and does not start. "
 "No configuration panics.",
 "configurations", "every pair of options with every pair of valid, boundary, invalid and unparsable values in every mode; every short rule list; the command itself with every kind of argument",
 "Tests check one invalid value at a time in one mode.",
 f"{CFG} {RUL} cmd/influx-spout/main.go", [("validation", f"{CFG} Validate"), ("rule compilation", f"{RUL} RuleSetFromConfig")],
 ["result of loading", "result of starting", "exit status of the command"], "all pairs of values against a reference validator")
prop("C29", "Instances sharing a queue group share the work; others each get everything",
 "Each message is processed by exactly one of the filters, and by exactly one of the writers with the same queue group for each subject; writers in different groups or in none, and all downsamplers and monitors, each process every message. "
 "This holds for every distribution NATS may choose and while instances stop.",
 "schedules histories", "every assignment of 2 (3) writers to groups, every choice of the receiving member for every message, a filter stopped between any two messages",
 "Tests run one instance of each component.",
 f"{FIL} {WR}", [("queue subscriptions", f"{FIL} StartFilter; {WR} StartWriter")],
 ["database requests per instance", "published lines"], "all member choices and schedules within the bound")
prop("C30", "No input of any kind crashes a component or stops it working",
 "Whatever bytes arrive at a listener, on a NATS subject, as an HTTP request or as an answer from InfluxDB, no component panics, hangs or stops: data that arrives afterwards is processed as usual.",
 "inputs", "every byte string up to length 4 (5) over 13 symbols and every sequence of up to 4 (5) tokens at every input of all six components; methods x targets x bodies; every HTTP status from InfluxDB",
 "Tests feed a few malformed lines; indexing mistakes hide in truncated and oddly delimited input.",
 f"{LIS} {FIL} {WRK} {DS} downsampler/avgbucket.go {WR} {MON} influx prometheus", [("line handling", "influx/token.go; influx/tags.go; influx/timestamps.go; influx/unescape.go"), ("input handling of the components", f"{WRK} processBatch; downsampler/avgbucket.go AddLine; {MON} receiveMetrics; {LIS} handleHTTPWrite")],
 ["panics", "progress of all components after the input"], "exhaustive over byte strings and token sequences within the bounds")
prop("C31", "The pipeline as a whole delivers every accepted line where it belongs, once",
 "With all components connected, every line sent to a listener over UDP or HTTP, with any timestamp precision, reaches the database of its subject exactly once with its meaning unchanged, its average the archive database after its period, unmatched lines the junkyard and stale lines nothing; the monitor's counts agree. "
 "Failing writes only delay this.",
 "schedules inputs fault_sequences histories", "5 lines through every combination of 3 ways in 3 orders and 3 batch sizes; every pair of 9 lines through 7 ways; histories of hours with outages of the databases; every schedule within the bound; every subset of the first 3 writes failing",
 "The end to end test runs once with one input; interactions of the components' batching and timing are not explored.",
 f"{LIS} {FIL} {WR} {DS} {MON}", [("all components", f"{LIS}; {FIL}; {DS}; {WR}; {MON}")],
 ["requests at the databases", "monitor page"], "all ways and orders of five lines, all pairs of nine, all schedules with one deviation")
prop("C32", "Backlogs are limited by nats_max_pending_size only and drops are reported",
 "Each subscription of the filter, downsampler and writer holds up to nats_max_pending_size bytes of waiting messages, however many they are; only messages beyond that are dropped, every other one is processed once. "
 "The number dropped per subject is reported as nats_dropped.",
 "inputs histories", "every burst of 5 (7) messages of 3 sizes in 3 rounds for 3 limits and 3 components; bursts beyond the NATS client's own defaults",
 "Tests never overflow a subscription.",
 f"{FIL} {DS} {WR}", [("pending limits", f"{FIL} StartFilter; {DS} StartDownsampler; {WR} StartWriter"), ("drop reports", f"{FIL} updateNATSDropped; {DS} updateNATSDropped; {WR} startStatistician")],
 ["processed messages", "nats_dropped"], "all bursts within the bounds against the NATS client's documented rule")
prop("C33", "The tap prints exactly the matching lines, unaltered and in order",
 "influx-spout-tap prints every line published to its subject that its regular expression matches, byte for byte and in order, and nothing else. "
 "If it cannot connect or subscribe it ends with an error.",
 "inputs", "every pair of 11 messages (partial lines, format verbs, arbitrary bytes) x 8 regular expressions x 2 subjects; every failure of its start",
 "The tap has no tests.",
 "cmd/influx-spout-tap/influx-spout-tap.go", [("printing", "cmd/influx-spout-tap/influx-spout-tap.go process"), ("start", "cmd/influx-spout-tap/influx-spout-tap.go main")],
 ["standard output", "process exit"], "full product of messages, expressions and subjects")
prop("C34", "Every component survives an outage of the NATS server of any length",
 "After the server returns every component receives, sends, reports its statistics and answers its probes positively again without a restart, and what a listener received meanwhile is sent once and in order as far as the client library buffers it. "
 "Components can be stopped during an outage, do not start without a server, and can be started again after it.",
 "fault_sequences histories", "one or two outages of lengths from 1 ms to 5 minutes (3 hours), with data arriving during them, and stops at any time of an outage, for all six components",
 "Tests run with a server that is always there; the client library gives up after two minutes by default.",
 f"{LIS} {FIL} {DS} {WR} {MON}", [("reconnecting", f"{LIS} newListener; {FIL} natsConnect; {DS} StartDownsampler; {WR} StartWriter; {MON} natsConnect")],
 ["processing after the outage", "published data"], "all outage histories within the bounds on a model of the client's reconnection rules")
prop("C35", "A publish that NATS refuses costs nothing but that one message",
 "When publishing a message fails, only that message's data is lost: everything before and after it, on the same and on every other subject, is published exactly once, unaltered and in order, and the component goes on receiving, batching, emitting and reporting. "
 "The lost data never reappears, is never mixed into later messages, and each failure is counted.",
 "fault_sequences inputs", "every combination of failing publishes (up to 3, thorough 8, anywhere) while batches of one and of several messages for one and for several subjects are sent by both listeners, the filter, the downsampler and all statistics loops",
 "Tests make at most one publish fail, and with batches of one message; what happens to the other messages of the batch and to the next batch is never looked at.",
 f"{LIS} {FIL} {WRK} {DS}", [("listener publishing", f"{LIS} sendBatch"), ("filter publishing", f"{WRK} sendOff, publish"), ("downsampler publishing", f"{DS} worker"), ("failed publish counters", f"{LIS} handleNatsError; {WRK} publish; {DS} worker")],
 ["messages published", "failed_nats_publish"], "every subset of failing publishes within the bound, compared message by message with the fault free output")
prop("C36", "The command runs exactly the component its configuration names",
 "Given one configuration file the influx-spout command starts the component of the configured mode, and nothing else, with the options of that file and the common file, under its name, and keeps it working until it is killed; exactly the configured ports are opened, and a profiling port that is taken changes nothing else. "
 "A wrong command line, an unusable configuration or a start that fails at any step ends it with an error status.",
 "configurations fault_sequences", "every mode x profiling port (none, free, taken) x name x probes x common file x number of writer workers, followed by messages over two hours; every kind of failing start and of arguments",
 "Tests call the components' start functions; the command's own wiring (mode, ports, worker default, exit status) is only run once by the end to end test.",
 f"cmd/influx-spout/main.go {CFG} {LIS} {FIL} {WR} {DS} {MON}", [("command", "cmd/influx-spout/main.go main, getConfigFileName, runComponent"), ("configuration", f"{CFG} NewConfigFromFile")],
 ["bound ports and subscriptions", "processing of messages", "names in the reports", "exit of the command"], "full product of the listed options, all schedules with one deviation for failing starts")
