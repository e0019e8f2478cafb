#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, assure, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe, assure=assure, claimed=claimed))

LIS = "listener/listener.go"; BAT = "batch/batch.go"; SPL = "batchsplitter/batch_splitter.go"
FIL = "filter/filter.go"; RUL = "filter/rules.go"; WRK = "filter/worker.go"
DS = "downsampler/downsampler.go"; ASG = "downsampler/assigner.go"; AVG = "downsampler/avgbucket.go"
WR = "writer/writer.go"; RET = "writer/retryworker.go"; CLI = "writer/influxclient.go"
MON = "monitor/monitor.go"; PRB = "probes/probes.go"; CFG = "config/config.go"; TAG = "influx/tags.go"; TS = "influx/timestamps.go"

prop("C01", "The UDP listener forwards every datagram intact, once and in order",
 "Every datagram the UDP listener receives is published on its NATS subject exactly once, byte for byte and in order of arrival, with a newline added if and only if a non-empty datagram does not end with one, and every published message ends at a line boundary. "
 "This holds for every mix of datagram sizes, limits and arrival times, also when individual socket reads fail, as long as publishing succeeds.",
 "schedules inputs fault_sequences", "all interleavings of the receive loop and the age-driven sender within the deviation bound, all sequences of datagrams from an alphabet of line shapes, all placements of transient read errors",
 "Tests send a handful of datagrams through one schedule; they never place the background sender between the steps of an append, never inject read errors and never cross buffer growth boundaries at every offset.",
 f"{LIS} {BAT} {SPL}", [("receive loop appends under the listener lock", f"{LIS} listenUDP"), ("age driven sender", f"{LIS} oldBatchSender"), ("buffer growth", f"{BAT} ReadOnceFrom")],
 ["messages published on nats_subject"], "every execution of 3 datagrams (6 shapes, spacings, 3 limit settings) up to 2 deviations; size sweeps around growth boundaries")
prop("C02", "Concurrent HTTP writes are forwarded completely, in order and once",
 "Every HTTP write request whose body arrives completely has every line of it published exactly once, unaltered, separated from its neighbours and in order within the request, whether or not the last line is terminated and whatever other requests or the background sender do at the same time. "
 "A request whose body breaks off never damages, merges with or loses a line of any other request, and a client that sends slowly or stalls holds up nobody else.",
 "schedules inputs fault_sequences", "all interleavings of 2-3 concurrent requests and the background sender within the deviation bound, all body shapes (empty, unterminated, multi-piece, failing midway, large) and limit settings",
 "Tests issue requests one after the other; interleavings of two request handlers on the shared batch, half-read bodies and unterminated bodies next to other bodies never occur in them.",
 f"{LIS} {BAT}", [("handler appends the body under the listener lock", f"{LIS} handleHTTPWrite"), ("newline separation", f"{BAT} EnsureNewline")],
 ["messages published on nats_subject", "HTTP responses"], "every execution of 2-3 concurrent requests within the deviation bound, one scenario with preemption at every statement")
prop("C03", "A listener flushes when a limit is reached and not before",
 "A listener publishes its batch as soon as the configured number of datagrams or requests or the size limit is reached, at latest about one second after the oldest data in the batch has reached the maximum age even if no more traffic arrives, and never earlier than the first of these. "
 "This holds for the UDP and the HTTP listener; for HTTP writes whose timestamps are converted line by line the limits are upper bounds.",
 "schedules inputs histories", "all arrival patterns of 3-4 datagrams/requests relative to the limits x limit settings x schedules within the bound",
 "Tests check one limit at a time with real clocks and generous margins; combinations of limits, arrival gaps and sender wake-ups are not covered and an early or late flush is invisible to them.",
 f"{LIS} {BAT}", [("limit check", f"{LIS} shouldSend"), ("age driven sender", f"{LIS} oldBatchSender"), ("age bookkeeping", f"{BAT} countWrite, Reset, Age")],
 ["publish times in virtual time"], "every combination of spacing, size and limit settings with exact virtual publish times")
prop("C04", "Splitting for the NATS message size keeps lines whole, in order and complete",
 "When data has to be split to fit a maximum message size, the concatenation of the pieces is the data, every piece ends at a line boundary whenever its lines allow it, and no piece exceeds the maximum unless it is a single line that is longer by itself. "
 "This holds for what the listener, the downsampler and the HTTP path publish.",
 "inputs", "every line structure up to a length bound with every chunk size, and line boundaries at every offset around the real limit",
 "Tests use a few hand picked buffers; the off-by-one positions of line ends relative to the limit are exactly where the code branches.",
 f"{SPL} {LIS} {DS}", [("chunk iteration", f"{SPL} Next"), ("uses", f"{LIS} sendBatch; {DS} worker")],
 ["published messages"], "exhaustive over newline structures up to length 14 x chunk sizes 1..7 plus offset sweeps at 1 MB through the listener and the downsampler")
prop("C05", "HTTP writes with a precision parameter only get their timestamps converted",
 "For every precision parameter a client may give, each line of the body is forwarded with its timestamp converted to nanoseconds and is otherwise unchanged and complete; lines without a usable timestamp and lines whose conversion would overflow are forwarded unchanged. "
 "How the body is cut into network reads does not matter, nor does the length of the lines up to the maximum message size.",
 "inputs", "every precision x boundary timestamps x line shapes x request shapes; every cut of a body into two reads",
 "Tests cover a few precisions with one timestamp and one read; overflow boundaries, negative values and cuts inside a line are not reached.",
 f"{LIS} {TS}", [("line scanner", f"{LIS} readHTTPBodyWithPrecision, scanLines"), ("conversion", f"{LIS} applyTimestampPrecision; {TS} SafeCalcTime, ExtractTimestamp")],
 ["messages published on nats_subject"], "full product of the alphabets through the HTTP handler")
prop("C06", "Every line goes to the subject of the first matching rule, or the junkyard, once",
 "Every acceptable line a filter receives is published, byte for byte apart from the order of its tags, exactly once on the subject of the first rule in configuration order that matches it, or on the junkyard subject if none does. "
 "Lines keep their relative order per worker and are never cut, merged or duplicated.",
 "inputs programs histories", "every rule list up to length 3 (thorough 4) over a rule pool x a line pool; every message sequence of length 3",
 "Tests use a few rule lists and lines; overlaps between rule types, rule order and state carried between lines and batches are sampled only.",
 f"{FIL} {RUL} {WRK}", [("first match", f"{RUL} LookupParsed"), ("per subject batches", f"{WRK} processLine, sendOff")],
 ["messages published on rule and junkyard subjects"], "every rule list x line of the pools, against an independent reference matcher")
prop("C07", "Each rule type matches exactly what it is documented to match",
 "A basic rule matches exactly the lines with that measurement name; a tags rule exactly the lines carrying all of the given tag key and value pairs, whatever other tags the line has and in whatever order; a regex rule exactly the lines whose full unescaped text matches the expression, and a negregex rule exactly the others. "
 "Escaped spaces, commas and equals signs in names, keys and values compare by the characters they stand for.",
 "inputs", "every rule of a pool of all types (with hash-colliding names, escapes, multi tags) x every line with up to 3 ordered tags of a pool",
 "Tests check a few pairs per rule type; hash collisions, tag subsets in every order and escapes in every position are not enumerated.",
 f"{RUL} {TAG} influx/unescape.go influx/escape.go", [("basic", f"{RUL} CreateBasicRule"), ("tags", f"{TAG} SubsetOf"), ("regex", f"{RUL} CreateRegexRule, CreateNegativeRegexRule")],
 ["subject on which a line is published"], "full product of rule pool and generated lines against a reference matcher")
prop("C08", "Tags are sorted without changing the meaning of a line",
 "A line leaves the filter with its tags in ascending key order and otherwise byte for byte unchanged: measurement, tag keys and values with their escapes, fields, timestamp and line end. "
 "Any two orderings of the same tags give the same output.",
 "inputs", "every permutation of every subset of a tag pool (with escapes and shared prefixes), with and without fields, timestamp and newline",
 "Tests check a few orders; sorting in place works on memory shared between tags and line, so faults depend on the exact permutation and lengths.",
 f"{RUL} {TAG}", [("in place sorting", f"{RUL} SortTags; {TAG} Bytes, ParseTags")],
 ["published lines"], "every permutation of up to 4 (thorough 6) of 9 tags")
prop("C09", "The filter drops exactly the lines outside the time window",
 "A line with a full-length (19 digit) nanosecond timestamp is forwarded if and only if it differs from the current time by less than the configured maximum, in both directions; lines without a timestamp are always forwarded. "
 "Every dropped line is counted as out of bounds and nothing else is.",
 "inputs", "timestamps at every boundary of the window and of the integer range x line shapes x window sizes",
 "Tests check one old, one new and one good timestamp; exact boundaries, overflow at the ends of the integer range and digit counts are not covered.",
 f"{WRK} {TS}", [("window check", f"{WRK} processLine"), ("timestamp extraction", f"{TS} ExtractNanos")],
 ["published lines", "failed_time_check statistic"], "every boundary value and its neighbours in virtual time")
prop("C10", "Malformed lines never affect their neighbours in the filter",
 "Whatever bytes a message contains, the filter keeps running and the well-formed lines before and after a malformed one are routed as if it were not there; every line that is forwarded is one of the lines received apart from the order of its tags. "
 "This holds for arbitrary bytes between two line ends.",
 "inputs", "every byte string up to length 6 (thorough 7) over the protocol's special characters, and every sequence of up to 5 (6) protocol fragments, between two valid lines",
 "Tests contain a few malformed lines; parsing works with slices of a shared buffer, so which malformed input bites depends on exact positions of special characters.",
 f"{RUL} {WRK} {TAG} influx/token.go", [("line parsing", f"{RUL} newParsedLine; {TAG} ParseTags; influx/token.go")],
 ["published lines"], "exhaustive byte strings over an alphabet of special characters through the running filter")
prop("C11", "Parallel filter workers neither lose, duplicate nor mix lines",
 "With any number of workers and any timing of arrivals and publishes, every acceptable line is published exactly once on the right subject, every message contains only whole lines routed to that subject, and lines of one worker's message stay in order. "
 "The reported processed, rejected, passed, dropped and per-rule counts equal what happened.",
 "schedules fault_sequences", "all interleavings of 2 workers and 2-3 messages (at synchronisation points, one scenario at every statement) with publish failures anywhere",
 "Tests run workers under whatever schedule the runtime picks; shared buffers or counters that are wrong only under a particular interleaving do not show.",
 f"{FIL} {WRK} stats/stats.go stats/anonstats.go", [("job channel and workers", f"{FIL} StartFilter; {WRK} run"), ("atomic statistics", "stats/stats.go; stats/anonstats.go")],
 ["published lines", "published statistics"], "all schedules within the deviation bound on the real workers")
prop("C12", "Each downsampled measurement is averaged into its own period and emitted once",
 "Every line whose timestamp lies in the current or an adjacent sampling period contributes to exactly one output, the one of its own period, which is emitted once, with the period's end as timestamp, one period after that end, on the input subject plus suffix. "
 "Lines older or newer than that are rejected and affect nothing; subjects are independent of each other.",
 "schedules inputs histories", "all sequences of 3-4 messages with timestamps at every boundary of the window x arrival spacings x periods, and all schedules of two messages or two subjects around a rotation",
 "Tests use a fake clock with a few lines per bucket; boundary timestamps, catch-up after idle periods and arrivals racing a rotation are sampled only.",
 f"{DS} {ASG}", [("bucket rotation", f"{ASG} Update, Bytes, UntilNext"), ("worker loop", f"{DS} worker")],
 ["messages on subject plus suffix, with virtual time"], "all timestamp/spacing sequences against a reference windowing model")
prop("C13", "Averages, latest values and types are computed exactly",
 "For every field of a series the output is the mean of the period's values rounded toward zero for integers, the mean within floating point accuracy for floats, and the latest value for strings and booleans, in the field's own type and syntax. "
 "Integer means never drift, overflow silently or depend on the order of the values, for any values and any number of lines.",
 "inputs histories", "every sequence of up to 4 (thorough 5) values from boundary pools per type, and long periodic sequences",
 "Tests average two or three small values; accumulated rounding and extreme values only show over sequences.",
 f"{AVG} convert/convert.go", [("incremental mean", f"{AVG} intFieldValue, floatFieldValue"), ("latest value", f"{AVG} stringFieldValue, rawFieldValue")],
 ["downsampler output"], "every value sequence within the bounds against exact rational arithmetic")
prop("C14", "Malformed and stale lines never disturb downsampling of the others",
 "Lines that cannot be parsed or whose timestamp is unacceptable are counted and skipped: the averages of all other lines are what they would be without them, the downsampler keeps running and every output line is well formed. "
 "A field whose type changes within a period keeps the type it had first.",
 "inputs", "every pair and triple of malformed/stale lines among good ones, every pair of value types for one field",
 "Tests check single bad lines in isolation; their effect on already accumulated neighbours is not observed.",
 f"{DS} {ASG} {AVG}", [("error handling per line", f"{ASG} Update; {AVG} AddLine, update")],
 ["downsampler output", "failed lines statistic"], "every placement of every bad line of the pool; every sequence of up to 4 (thorough 5) of 15 fragments as a line among good ones, against a reference parser and averager")
prop("C15", "Downsampling keeps the identity of series, fields and string values",
 "A series is identified by measurement and tags exactly as received, and each output carries the measurement, tags, field names and string values byte for byte, including every escape. "
 "Different series or fields are never merged and one series is never split.",
 "inputs", "series, field names and string values with every escape sequence of the line protocol, pairwise",
 "Tests use plain names; escaping must survive a parse and a re-format, which only escaped samples exercise.",
 f"{AVG} influx/token.go influx/escape.go", [("field parsing and formatting", f"{AVG} update, bytes; influx/token.go QuotedString; influx/escape.go EscapeQuotedString")],
 ["downsampler output"], "pairwise product of escaped names and values")
prop("C16", "The writer delivers every line to InfluxDB once, batched within its limits",
 "Every line of the subscribed subjects is written to InfluxDB exactly once when the database accepts writes, in order per worker and subject, in requests that hold only whole lines and no more than the size limit unless one line alone exceeds it. "
 "A batch is written as soon as the count, size or age limit is reached and not before, for any number of workers and however slow the database is.",
 "schedules inputs histories", "all combinations of limits, message shapes and arrival gaps for 3-4 messages; 2 workers in all schedules; slow database",
 "Tests check one limit at a time with a mock database; interplay of limits, splitting, slow writes and several workers is not covered.",
 f"{WR} {BAT} {SPL} {CLI}", [("worker loop", f"{WR} worker, shouldSend"), ("HTTP client", f"{CLI} Write")],
 ["requests received by the database, with virtual time"], "full products of limits and arrivals, all schedules within the bound")
prop("C17", "Failed writes are retried until accepted, timed out or permanently rejected",
 "A batch whose write fails temporarily is retried unmodified at the configured interval, first come first served, until the database accepts it or the retry timeout since it was queued has passed; it is never written again after being accepted or permanently rejected. "
 "Failures of one batch never lose, alter or duplicate another.",
 "schedules inputs fault_sequences", "all sequences of up to 5-6 database answers (success, client error, server error, refused, timeout, slow, redirect) over 1-3 batches, and all schedules with 2 workers",
 "Tests use one or two failures and fixed answers; which batch is retried when, under which mix of answers, needs the whole tree of answers.",
 f"{WR} {RET} {CLI}", [("retry loop", f"{RET} loop"), ("queue", f"{RET} retryQueue"), ("classification", f"{CLI} isPermanentError")],
 ["requests received by the database, with virtual time"], "the complete tree of answers within the bounds against a reference retry queue")
prop("C18", "The retry queue is bounded and drops the oldest batches first",
 "At most the configured number of batches wait for a retry; when more fail, the oldest waiting ones are given up first and the newest are kept, and with a limit of zero nothing is retried. "
 "A long outage therefore never makes the writer hold more, and what is kept is written once the database returns.",
 "inputs histories fault_sequences", "outages with up to 3 more batches than the limit (0, 1, 2, 3), every arrival pattern and answer",
 "Tests fill the queue once; interaction with retries in flight and expiry is not explored.",
 f"{RET}", [("bounded queue", f"{RET} Add, removeOldest")],
 ["requests received by the database after the outage"], "all arrival patterns within bounds")
prop("C19", "The writer writes exactly the lines its rules select",
 "A writer without rules writes every line; a writer with rules writes exactly the lines matched by at least one of them, whatever their type, unchanged and once, however kept and dropped lines are packed into messages. "
 "Every configured rule type is honoured.",
 "inputs programs", "every rule list up to length 2 over a menu of all types x all messages of three lines x every packing",
 "Tests use one rule and a few lines; mixed messages and tag rules are not covered.",
 f"{WR} {RUL} {CFG}", [("line filter", f"{WR} getBatchWriteFunc, filterLine")],
 ["bodies of the database requests"], "full products against the reference matcher")
prop("C20", "Write requests always address the configured database with its credentials",
 "Every write, first attempt or retry, is a POST to the write endpoint of the configured protocol, host and port, names the configured database and carries the configured user and password when set, with every value transmitted so that the server decodes exactly what was configured. "
 "No credentials are sent when none are configured.",
 "configurations", "every combination of protocol, host, port, database name and credentials (including characters that need encoding) x first attempt and retry",
 "Tests use plain names, where missing encoding cannot show.",
 f"{CLI} {CFG}", [("request construction", f"{CLI} newInfluxClient, Write")],
 ["requests received by the database"], "full product of the alphabets")
prop("C21", "Every statistic a component reports equals what actually happened",
 "Each counter a component publishes for the monitor (received, sent, read errors, failed publishes, processed, rejected, passed, dropped and triggered lines, write requests and failures) equals the number of such events since start, whatever faults occur. "
 "Counts are published every stats_interval, carry the component's name, and reach the monitor's metrics page complete and distinguishable.",
 "schedules inputs fault_sequences", "every fault placement among read and publish operations, every outcome of writes, every line mix through filter, downsampler, writer and monitor together",
 "Tests check counters after an error-free run; counts on failure paths and for split batches are not checked.",
 f"{LIS} {FIL} {WR} {DS} stats/stats.go stats/prometheus.go", [("counters", "stats/stats.go"), ("reporting", f"{LIS} startStatistician; {FIL} startStatistician; {WR} startStatistician; {DS} startStatistician")],
 ["published statistics", "monitor page"], "all fault placements within bounds against counts taken at the environment's side")
prop("C22", "The monitor page shows the latest value of every metric, always well formed",
 "After any sequence of messages the metrics page shows each metric, identified by name and labels, exactly once with the value and timestamp last received, unaffected by malformed messages. "
 "Scrapes concurrent with updates always see a well-formed page in which every value was current at some time during the scrape.",
 "schedules inputs histories", "every sequence of 3 (5) messages from a menu with scrapes between, 3 scrapes racing 3 messages in all schedules, every short byte string as a message",
 "Tests scrape after a quiet period; torn or stale pages need interleavings, key collisions need chosen label sets.",
 f"{MON} prometheus/metricset.go prometheus/parse.go", [("shared metric set under a lock", f"{MON} receiveMetrics, serveHTTP"), ("metric identity", "prometheus/metricset.go metricKey")],
 ["GET /metrics"], "all sequences and schedules within the bound")
prop("C23", "Metrics survive formatting and parsing, and bad ones are rejected cleanly",
 "Formatting a metric and parsing the result gives the same name, labels, value and timestamp; parsing any byte string either fails with an error or gives a metric that formats back to an equivalent line, never panics and never alters its input. "
 "Numbers that do not fit are errors.",
 "inputs", "names x ordered label sets x values x timestamps; every byte string up to length 7 (8) over 10 symbols; every sequence of up to 5 (6) tokens",
 "Tests parse about twenty strings; index arithmetic at truncated inputs is where the parser breaks.",
 "prometheus/parse.go prometheus/metric.go prometheus/labels.go convert/convert.go", [("parser", "prometheus/parse.go ParseMetrics, ParseMetric"), ("formatter", "prometheus/metric.go ToBytes; prometheus/labels.go ToBytes"), ("integers", "convert/convert.go ToInt")],
 ["return values of the parser and formatter"], "exhaustive over byte strings and token sequences within the bounds")
exec(open(os.path.join(V, "tools", "gen2.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen2.py")) else None

TECH = "stateless model checking of the instrumented implementation (exhaustive choice tree: inputs, schedules up to a deviation bound, faults)"
TECHI = "explicit exhaustive enumeration of input space on the real code under the model checker's controlled environment"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") + 1 <= 3, p["id"]
checks = [dict(property=p["id"], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
   evidence_file=f"evidence/{p['id']}.json",
   technique=TECH if ("schedules" in p["over"] or "histories" in p["over"] or "fault_sequences" in p["over"]) else TECHI,
   level="model_checking",
   level_note=p["assure"] + ". Bounded; trusts the source instrumentation and the fakes of NATS, network, HTTP and clock in mc/rt.") for p in P if p["claimed"]]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks,
   not_applicable=[dict(property=p["id"], reason=p["assure"]) for p in P if not p["claimed"]],
   notes="No hooks in /repo: the checks instrument copies of its sources through a go build overlay. See DESIGN.md."),
   open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
