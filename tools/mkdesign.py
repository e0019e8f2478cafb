#!/usr/bin/env python3
"""Writes DESIGN.md from design.tmpl, properties.jsonl, the scenario list
(mkdesign.py LIST, output of MC_BOUNDS=1 mcheck -list), a directory of
evidence files of quick runs, seeded/ and known-findings.txt.
usage: mkdesign.py LIST EVIDENCEDIR SEEDED CAUGHT.json"""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lst, evd, seeded, caughtf = sys.argv[1:5]

HOW = {}
def how(id, text): HOW[id] = " ".join(text.split())
how("C01", """Real UDP listener over the socket model; the whole product of datagram shapes (empty, one line, several, unterminated, large), gaps and limits is sent, in every schedule of receive loop and age sender, with read errors anywhere. Oracle: the concatenation of what is published must be the datagrams in order with the missing newlines added, each message ending at a line end. `backlog` blocks publishing while datagrams wait, `error-stream` lets reads fail all the time.""")
how("C02", """Real HTTP listener behind the HTTP server model; clients are threads, bodies arrive in pieces with delays, errors or stalls. Oracle: the published lines must be an interleaving of whole bodies' lines per request order; the lines of a failing request may be cut only at its end; a stalled client must not delay the others' batch. `backlog` blocks publishing while up to 1024 requests wait.""")
how("C03", """As C01 and C02, with a reference model of the batch (count, size, age, sender wake-ups in virtual time) that gives for each message the earliest and the latest time it may be published; anything outside that interval is a violation. `error-stream`: the limits hold while reads keep failing.""")
how("C04", """The splitter is driven with every newline structure up to a length and every chunk size against the definition; the components are driven with data around their real limit (1 MB and what the NATS server announces), and every published message is checked.""")
how("C05", """Full product through the HTTP handler against an independent conversion using big integers; every short body over a small alphabet; bodies are cut at every byte, line lengths sweep the reader's buffer sizes, and two requests convert concurrently in every schedule.""")
how("C06", """The running filter gets every rule list and line of the pools; an independent parser and matcher computes subject and content. Histories (`sequences`, `repeats`, `long`) cover state carried between lines, messages and batches; `many-rules` and `sizes` sweep the number of rules and the sizes of lines.""")
how("C07", """Single rules against every line built from a tag pool, through the running filter, against a reference matcher on unescaped text; names are chosen to collide in the hash functions that the code (or a plausible replacement) uses. `hash-collisions`: equally long names which collide in 7 hash functions.""")
how("C08", """Every permutation of every tag subset through the filter; expectation: the tags in ascending key order, everything else byte for byte; `spellings` does so for every spelling of escapes and lone backslashes.""")
how("C09", """Timestamps at and next to every boundary in relation to the virtual clock, while the clock moves; strict window as documented; rejected counters compared.""")
how("C10", """Every byte string and token sequence as a line between two valid ones; the neighbours must be routed as if it were absent, and whatever else appears must be the line itself up to tag order.""")
how("C11", """Filter with 2 workers; all schedules at synchronisation points (2 deviations) and at every statement of the package (1), faults in publishing; the union of what is published and the counters are compared with the reference routing. `backlog`: more messages than any queue takes wait while one publish takes up to an hour.""")
how("C12", """Every timestamp class relative to the window, arrival gaps and period; the oracle assigns each line to its period and gives the exact emission time, timestamp and average. Rotations race with messages in all schedules; publishing that blocks for several periods; long histories of rotation; many series, fields, lines and subjects. `backlog`: messages of the running period arrive while the output of the one before is being published.""")
how("C13", """Every sequence of boundary values per type; reference in exact rational arithmetic.""")
how("C14", """Malformed and stale lines are placed among good ones in every combination; outputs must be those of the good lines alone and counters must match; all type conflicts. `arbitrary-lines` puts every sequence of fragments of the line protocol between lines of the same and of other series and compares with a reference parser and averager of its own.""")
how("C15", """Pairs of series, field names and strings that differ only in escapes, separators or hash collisions; outputs must carry both, byte for byte; pairs of subjects with all kinds of suffixes.""")
how("C16", """Writer with the database model; a reference batch model gives for every body its earliest and latest time; all combinations of limits, shapes and gaps, database latency, several workers and queue groups. `backlog`: a request takes up to an hour while more messages wait than any queue takes; `large`: batches of up to 16 MB.""")
how("C17", """Every sequence of database answers over 1-3 batches against a reference retry queue in virtual time (which batch is tried when, until when); every HTTP status and kind of transport error; split batches whose buffers are reused while they are queued; all schedules of two workers; long sequences of answers.""")
how("C18", """As C17 around the queue limit: outages with more batches than fit, with the exact set of survivors; queue limits to 257.""")
how("C19", """Rule lists over all types and every packing of lines into messages against the reference matcher.""")
how("C20", """Every combination of address, protocol, database and credentials; the request as a server would decode it is compared with the configuration, for first attempts and retries.""")
how("C21", """The reports on the monitor subject are read after every fault placement, mixing of lines and sequence of answers, and compared with counts kept by the environment; in `pipeline` the counters are read through the monitor's page. Counts are swept across 2^8 and 2^16 and values across powers of two up to 2^63; `intervals` checks time, timestamp and freshness of every report, `rule-labels` that no two counts collide on the page. `sent` counts batches, not messages, and failed ones too: checked under publish faults and with batches of several messages.""")
how("C22", """Sequences of messages and scrapes, concurrent scrapes in every schedule (and at every statement), pairs of confusable metrics, garbage, long histories, many metrics; the page is parsed and compared with a reference map.""")
how("C23", """Round trips over the product of names, labels, values and timestamps; parsing of every byte string and token sequence within the bounds, with the input compared before and after.""")
how("C24", """Six component descriptors (start, feed, done) are stopped at every phase under every traffic and database behaviour; then live threads, bound ports, NATS connections, later effects and a restart are checked. Each step of the start is made to fail once. 40 lives in a row show leaks. Answers from InfluxDB whose body is neither read nor closed count as connections left open.""")
how("C25", """Probes are HTTP requests placed between any two steps of start and stop; when ready is answered, data is sent at once and must be processed. Liveness is polled along with it and must never fail before the shutdown.""")
how("C26", """The scenarios of eleven multi-threaded programs run in a build with the race detector, whose happens-before state follows the controlled schedule; atomics are scheduling points; each report that has repository code on both sides is a violation.""")
how("C27", """Two configuration files generated from all pairs (triples) of options in all placements, and all pairs of short rule lists, loaded and compared with a reference merge written from the README.""")
how("C28", """All pairs of options with all pairs of values against a reference validator; rules of every shape; start of components and the command with its exit status. `extremes` sets every option to the ends of its range: the component must be rejected or process data, started by itself and by the command; `unreadable` injects errors into reading the files.""")
how("C29", """Several writers or filters on the NATS model, which leaves the choice of the queue member for each message open; all choices enumerated. Filters ignore a configured queue group; downsamplers and monitors on the same subjects each get everything.""")
how("C30", """Every byte string, token sequence, request and answer is given to a running component, which then has to process a valid message and still be alive; debugging output on and off.""")
how("C31", """All components connected through the NATS model; five lines in every way of arriving; every pair of nine lines that exercise all rule types, escapes, value types and tag orders, through every pair of ways in (seven), into four databases, one behind writer rules; histories of 24 messages to 25 hours over many sampling periods with the databases unavailable for a while; up to 8 MB in large packets and requests. Databases' contents, averages and the monitor's counters are compared with the reference of the whole pipeline.""")
how("C32", """Bursts against a blocked component; the messages that may be dropped follow from nats_max_pending_size alone, the reported count must match. `limits` reads the limits the components set at the client library for configured sizes from 1 byte to 2^62; `many` drops up to 70000 messages at once.""")
how("C33", """The command's real main with its arguments; standard output must be exactly the matching lines. `schedules` sends messages close together in every schedule up to the bound.""")
how("C34", """The NATS model goes down and up at given times; reconnect buffer and reconnect waiting follow the client's rules (section 5); everything that the client library promises must be delivered and work must go on; stops and starts during outages. `reports` requires statistics to go on at their interval with the right counts after outages; probes must be positive again.""")
how("C35", """Every publish of a fixed workload may be refused (a fault choice per publish); the expected output is the fault free sequence of messages without the refused ones, at the fault free times; counters are compared with the number of faults taken.""")
how("C36", """The command's real main runs with its arguments on an in-memory file system and the environment models; ports, subscriptions, reports and hours of messages are observed for the product of its options.""")

scen = {}
cur = None
for l in open(lst):
    m = re.match(r"(C\d\d) (\S+) -- (.*)", l)
    if m: cur = (m.group(1), m.group(2)); scen[cur] = [m.group(3), None]
    elif cur and l.startswith("\t"): scen[cur][1] = l.split()
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); id = p["id"]
    out.append(f"### {id}: {p['title']}\n\n{p['statement']}\n\n*How:* {HOW[id]}\n")
    ev = {}
    f = f"{evd}/{id}.json" if os.path.exists(f"{evd}/{id}.json") else f"{evd}/ev-{id}.json"
    try: e = json.load(open(f)); ev = e["coverage"]["scenarios"]
    except Exception as x: e = None; print("no evidence", id, x, file=sys.stderr)
    if e: out.append(f"*Cost:* quick run {e['wall_s']:.0f} s.\n")
    out.append("| scenario | enumerates | sched/fault quick, thorough | one quick run |\n|---|---|---|---|")
    for (i, n), (doc, b) in scen.items():
        if i != id: continue
        bd = "inputs" if b[0] == "true" else f"{b[2]}/{b[3]}, {b[4]}/{b[5]}"
        c = ev.get(n, {})
        if b[1] == "true": run = "thorough only"
        elif c.get("cases"): run = f"{c['cases']:,} cases" if isinstance(c["cases"], int) else str(c["cases"])
        else:
            run = f"{c.get('executions', 0):,} executions"
            lv = c.get("levels") or []
            if lv and not lv[-1].get("Complete"): run += " (last level cut by the budget)"
        out.append(f"| {n} | {doc} | {bd} | {run} |")
    out.append("")
fixed = []; known = []
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.append((m.group(1), m.group(2), m.group(3)))
    m = re.match(r"known: property=(\S+) scenario=(\S+) message=(\".*\") -- (.*)", l)
    if m: known.append(f" * {m.group(1)} ({m.group(2)}): {m.group(3)[1:-1]}")
fx = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {a} | {b} | {c} |" for a, b, c in sorted(fixed))
caught = json.load(open(caughtf)) if os.path.exists(caughtf) else {}
sd = ["| bug | property | caught by | what it breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(seeded + "/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    c = caught.get(n, [])
    sd.append(f"| {n} | {m['property']} | {', '.join(c) or 'none'} | {m['what_it_breaks']} (needs: {m['needs']}) |")
s = open(V + "/tools/design.tmpl").read()
for k, v in dict(PROPERTIES="\n".join(out), FIXED=fx, KNOWN="\n".join(known), SEEDS="\n".join(sd)).items():
    s = s.replace("{{" + k + "}}", v)
open(V + "/DESIGN.md", "w").write(s)
