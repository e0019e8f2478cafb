From f907f840a3dcde9c8dc6f59535b31a2a6f2948aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 01/35] fix: don't overwrite line memory that sorted tags still
 refer to

When the tags of a line had to be sorted and the length of the line didn't
change, the new tags were copied over the original line. The parsed tags
are slices of that memory so tag rules were then applied to garbage.
---
 filter/rules.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..0c9308d 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -230,14 +230,8 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
-
-	// Length as changed (original escaped differently?)
+	// The memory used by the original can't be overwritten because the
+	// (now reordered) tags may still refer to it.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
 	pl.Escaped = newHdr
-- 
2.43.0


From d2c73ed832bb908d5edeb96a9548d2836d5017ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 02/35] fix: compare measurement names in basic rules, not just
 their hashes

---
 filter/rules.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index 0c9308d..a8a7405 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -37,11 +38,13 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
+	hh := hashMeasurement(name)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// Different measurements can have the same hash.
+			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
-- 
2.43.0


From 63369a31b8d7214893e54852f6d41d9ee6869545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 03/35] fix: keep the line terminator out of the tags

For lines without fields the newline was treated as part of the last tag
value. When sorting moved that tag the newline moved with it, breaking up
the line and joining it to the following one.
---
 filter/rules.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index a8a7405..b24e796 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -166,7 +166,9 @@ func (rs *RuleSet) LookupParsed(line *parsedLine) int {
 }
 
 func newParsedLine(escaped []byte) (*parsedLine, error) {
-	measurement, tags, remainder, err := influx.ParseTags(escaped)
+	// A line terminator isn't part of the last tag or field.
+	body := bytes.TrimSuffix(escaped, []byte("\n"))
+	measurement, tags, remainder, err := influx.ParseTags(body)
 	if err != nil {
 		return nil, err
 	}
@@ -176,6 +178,7 @@ func newParsedLine(escaped []byte) (*parsedLine, error) {
 		Measurement: measurement,
 		Tags:        tags,
 		Remainder:   remainder,
+		newline:     escaped[len(body):],
 	}, nil
 }
 
@@ -194,6 +197,7 @@ type parsedLine struct {
 
 	Tags      influx.TagSet
 	Remainder []byte
+	newline   []byte // line terminator (may be empty)
 }
 
 func (pl *parsedLine) Unescaped() []byte {
@@ -229,7 +233,7 @@ func (pl *parsedLine) SortTags() {
 
 	if len(pl.Remainder) == 0 {
 		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
+		pl.Escaped = append(newHdr, pl.newline...)
 		return
 	}
 
@@ -237,5 +241,5 @@ func (pl *parsedLine) SortTags() {
 	// (now reordered) tags may still refer to it.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = newHdr
+	pl.Escaped = append(newHdr, pl.newline...)
 }
-- 
2.43.0


From 072eee1836718133f64eb33abd681e7217511528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 04/35] fix: don't exceed the chunk size when splitting batches

A line ending just after the maximum chunk size resulted in a chunk which
was one byte too big, and so would be rejected by NATS.
---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 4ecd44c0f9702998e0c181a1222323003f0de9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 05/35] fix: separate HTTP bodies that don't end with a newline

The first line of a request was joined to the last line of the previous
request in the batch when that line wasn't terminated.
---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..4ebb313 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,6 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
+	// The last line of the previous body might not have been terminated.
+	l.batch.EnsureNewline()
 	return l.batch.ReadFrom(r.Body)
 }
 
@@ -304,6 +306,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		l.batch.EnsureNewline()
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-- 
2.43.0


From 982592c23564053af90b2b6eec77a17bbec4aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 06/35] fix: honour escaped backslashes in quoted strings

---
 influx/token.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..5704ee8 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -87,16 +87,40 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 		if i >= length {
 			return nil, nil, errors.New("missing trailing double quote")
 		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
+		switch s[i] {
+		case '\\':
+			// An escaped double quote doesn't end the string and an
+			// escaped backslash doesn't escape what follows it.
+			if i+1 < length && (s[i+1] == '"' || s[i+1] == '\\') {
+				i++
 				escaped = true
-				continue
 			}
+		case '"':
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				out = unescapeQuotes(out)
 			}
 			return out, s[i+1:], nil
 		}
 	}
 }
+
+// unescapeQuotes returns a new slice with the escaped double quotes
+// in IN unescaped. Everything else, including escaped backslashes, is
+// left as is so that EscapeQuotedString reverses the operation.
+func unescapeQuotes(in []byte) []byte {
+	out := make([]byte, 0, len(in))
+	for i := 0; i < len(in); i++ {
+		if in[i] == '\\' && i+1 < len(in) {
+			switch in[i+1] {
+			case '"':
+				i++
+			case '\\':
+				out = append(out, in[i])
+				i++
+			}
+		}
+		out = append(out, in[i])
+	}
+	return out
+}
-- 
2.43.0


From 19a7b23f987a0d3027e2dca757207aa1e3f50c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 07/35] fix: don't accumulate truncation errors in integer
 averages

---
 downsampler/avgbucket.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..035647b 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -196,8 +196,9 @@ func newStringValue(v []byte) fieldValue {
 }
 
 type intFieldValue struct {
-	average int64
-	count   int64
+	average   int64
+	remainder int64 // (sum of values) - (average * count)
+	count     int64
 }
 
 func (v *intFieldValue) update(b []byte) error {
@@ -210,8 +211,12 @@ func (v *intFieldValue) update(b []byte) error {
 	}
 
 	// Update incremental average.
+	// The remainder of the division is carried over so that truncation
+	// errors don't accumulate.
 	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
+	delta := bi - v.average + v.remainder
+	v.average += delta / v.count
+	v.remainder = delta % v.count
 	return nil
 }
 
-- 
2.43.0


From a2a9e5bfcb588d4e91754849581493c9a91c36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 08/35] fix: count every InfluxDB write request of a split
 batch

---
 writer/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..cf00fb9 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -181,8 +181,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -190,6 +188,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
 				chunk := splitter.Chunk()
+				w.stats.Inc(statWriteRequests)
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-- 
2.43.0


From 77fd3f8e9bcce5d7d3d5be3b7bb34e6137826ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 09/35] fix: don't retry writes that InfluxDB permanently
 rejected

---
 writer/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/writer.go b/writer/writer.go
index cf00fb9..ed6b09d 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -192,7 +192,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-					if retryCh != nil {
+					if retryCh != nil && !isPermanentError(err) {
 						// Copy the bytes because the underlying batch
 						// buffer will be reused. A copy is relatively
 						// expensive but is only made in the (hopefully)
-- 
2.43.0


From ff6525e137b0b4dbec383c48ebbb1cbbc00f3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 10/35] fix: accept tags rules in the writer's configuration

---
 config/config.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..247b91e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -215,9 +215,25 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
+		if rule.Rtype != "tags" && rule.Match == "" {
 			return errors.New(`rule missing "match"`)
 		}
+		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+		}
+		if rule.Rtype == "tags" {
+			if rule.Match != "" {
+				return errors.New(`tags rule cannot use "match"`)
+			}
+			if len(rule.Tags) == 0 {
+				return errors.New(`tags rule missing "tags"`)
+			}
+			for _, tag := range rule.Tags {
+				if len(tag) != 2 {
+					return errors.New("each tags item must contain 2 values")
+				}
+			}
+		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
 		}
-- 
2.43.0


From 9ff5afd9a7d9605cde8d3ce6b00ad321daafd0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 11/35] fix: report invalid regular expressions in rules as
 errors

---
 filter/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/rules.go b/filter/rules.go
index b24e796..363c4eb 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -108,8 +108,14 @@ func RuleSetFromConfig(conf *config.Config) (*RuleSet, error) {
 			}
 			rs.Append(CreateTagRule(tags, r.Subject))
 		case "regex":
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("Invalid rule: %v", err)
+			}
 			rs.Append(CreateRegexRule(r.Match, r.Subject))
 		case "negregex":
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("Invalid rule: %v", err)
+			}
 			rs.Append(CreateNegativeRegexRule(r.Match, r.Subject))
 		default:
 			return nil, fmt.Errorf("Unsupported rule type: [%v]", r)
-- 
2.43.0


From facc0847f4c0098bbbad5f88e220998dfac748fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 12/35] fix: don't panic on truncated metrics

---
 prometheus/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..f20fd02 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -70,6 +70,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 		i += n
 	}
 
+	if i >= len(s) {
+		return nil, errors.New("no value")
+	}
 	i++
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
@@ -92,7 +95,7 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
-	if s[0] == '}' {
+	if len(s) > 0 && s[0] == '}' {
 		return nil, 1, nil
 	}
 
@@ -117,6 +120,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("invalid label separator")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 21787e266466492a40b910333e4cfbfef570c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 13/35] fix: don't overwrite the message a metric was parsed
 from

---
 prometheus/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..52132c7 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,8 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From d6d5b6da93e81cf8601bdec7a4c07a768f70f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 14/35] fix: detect overflow of very large integers

---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..26a16a2 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > math.MaxInt64/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From 9f3a04a4795300644295aebd3e07c45eb10b8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 15/35] fix: don't interpret tapped lines as format strings

---
 cmd/influx-spout-tap/influx-spout-tap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..7b624ed 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -57,10 +57,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				fmt.Print(string(line))
 			}
 		} else {
-			fmt.Printf(string(line))
+			fmt.Print(string(line))
 		}
 	}
 }
-- 
2.43.0


From f1aae74b8a61094d884c23e3052f7d3033d3758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 16/35] fix: report listeners and the monitor as ready only
 once they are

---
 listener/listener.go | 25 +++++++++++++++++++------
 monitor/monitor.go   | 25 ++++++++++++++++---------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 4ebb313..12c4776 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -73,6 +73,8 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 	go listener.startStatistician()
 	go listener.listenUDP(sc)
 
+	listener.probes.SetReady(true)
+
 	log.Printf("UDP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
 	return listener, nil
@@ -88,9 +90,17 @@ func StartHTTPListener(c *config.Config) (*Listener, error) {
 	}
 	server := listener.setupHTTP()
 
+	sc, err := net.Listen("tcp", server.Addr)
+	if err != nil {
+		listener.Stop()
+		return nil, err
+	}
+
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	go listener.listenHTTP(server, sc)
+
+	listener.probes.SetReady(true)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -141,6 +151,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
@@ -163,6 +174,7 @@ func (l *Listener) setupUDP(configBufSize int) (*net.UDPConn, error) {
 		log.Printf("rounding up receive buffer to nearest page size (now %d bytes)", bufSize)
 	}
 	if err := sc.SetReadBuffer(bufSize); err != nil {
+		sc.Close()
 		return nil, err
 	}
 
@@ -184,7 +196,6 @@ func (l *Listener) listenUDP(sc *net.UDPConn) {
 		l.wg.Done()
 	}()
 
-	l.probes.SetReady(true)
 	for {
 		// Read deadline is used so that the stop channel can be
 		// periodically checked.
@@ -348,12 +359,14 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
-	defer l.wg.Done()
+func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
+	defer func() {
+		sc.Close()
+		l.wg.Done()
+	}()
 
 	go func() {
-		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..19b2070 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -56,8 +57,15 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	sc, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(sc)
+
+	m.probes.SetReady(true)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -107,8 +115,11 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
-	defer m.wg.Done()
+func (m *Monitor) serveHTTP(sc net.Listener) {
+	defer func() {
+		sc.Close()
+		m.wg.Done()
+	}()
 
 	mux := http.NewServeMux()
 	mux.HandleFunc("/metrics", func(w http.ResponseWriter, r *http.Request) {
@@ -120,14 +131,10 @@ func (m *Monitor) serveHTTP() {
 		w.Write(m.metrics.ToBytes())
 	})
 
-	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
-		Handler: mux,
-	}
+	server := &http.Server{Handler: mux}
 
 	go func() {
-		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From e890cd3944b30769fba6740108867868acaff2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 17/35] fix: accept long lines in HTTP writes with a precision

---
 listener/listener.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 12c4776..e145fb9 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -307,6 +307,11 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 	// therefore should pass through unchanged.
 	scanner.Split(scanLines)
 
+	// Accept lines as long as those accepted without conversion.
+	if max := int(l.c.BatchMaxSize); max > bufio.MaxScanTokenSize {
+		scanner.Buffer(nil, max)
+	}
+
 	bytesRead := 0
 	for scanner.Scan() {
 		line := scanner.Bytes()
-- 
2.43.0


From 777333eec99176a67572f94b25fddd41b5b6e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 18/35] fix: flush the filter's subscription before reporting
 readiness

---
 filter/filter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..809a1cc 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -102,6 +102,12 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		return nil, fmt.Errorf("NATS: failed to set pending limits: %v", err)
 	}
 
+	// Make sure the subscription has reached the server before reporting
+	// that the filter is ready.
+	if err := f.nc.Flush(); err != nil {
+		return nil, fmt.Errorf("NATS flush error: %v", err)
+	}
+
 	f.wg.Add(1)
 	go f.startStatistician(st, ruleSt, rules)
 
@@ -124,6 +130,7 @@ func (f *Filter) natsConnect() (natsConn, error) {
 type natsConn interface {
 	Publish(string, []byte) error
 	QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error)
+	Flush() error
 	Close()
 }
 
-- 
2.43.0


From 4625dffdb87b93221986879dfe1ed868e12811a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 19/35] fix: escape the database name in write requests

---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From cc14c6bcdb77b5fb231436636b1c0925c9f87c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 20/35] fix: don't overflow when averaging large field values

---
 downsampler/avgbucket.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 035647b..33b7d65 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -212,11 +212,21 @@ func (v *intFieldValue) update(b []byte) error {
 
 	// Update incremental average.
 	// The remainder of the division is carried over so that truncation
-	// errors don't accumulate.
+	// errors don't accumulate. Dividing before subtracting means that
+	// the difference between large values can't overflow.
 	v.count++
-	delta := bi - v.average + v.remainder
-	v.average += delta / v.count
-	v.remainder = delta % v.count
+	remainder := bi%v.count - v.average%v.count + v.remainder
+	v.average += bi/v.count - v.average/v.count + remainder/v.count
+	v.remainder = remainder % v.count
+
+	// Always round towards zero.
+	if v.average > 0 && v.remainder < 0 {
+		v.average--
+		v.remainder += v.count
+	} else if v.average < 0 && v.remainder > 0 {
+		v.average++
+		v.remainder -= v.count
+	}
 	return nil
 }
 
@@ -235,9 +245,9 @@ func (v *floatFieldValue) update(b []byte) error {
 		return fmt.Errorf("wrong type for float: %s", b)
 	}
 
-	// Update incremental average.
+	// Update incremental average (without overflowing for large values).
 	v.count++
-	v.average = v.average + ((bf - v.average) / float64(v.count))
+	v.average += bf/float64(v.count) - v.average/float64(v.count)
 	return nil
 }
 
-- 
2.43.0


From f9104e86e24145db943f56396a631525060561f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 21/35] fix: ignore values whose type differs from that of the
 field

---
 downsampler/avgbucket.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 33b7d65..7a73650 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -124,7 +124,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, true); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -135,7 +135,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, false); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -169,7 +169,10 @@ func (fp *fieldPairs) bytes() []byte {
 }
 
 type fieldValue interface {
-	update([]byte) error
+	// update takes a new value of the field and whether that was quoted
+	// (i.e. is a string). Values of another type than the field are an
+	// error and ignored.
+	update(b []byte, quoted bool) error
 	bytes() []byte
 }
 
@@ -201,8 +204,8 @@ type intFieldValue struct {
 	count     int64
 }
 
-func (v *intFieldValue) update(b []byte) error {
-	if len(b) < 2 || b[len(b)-1] != 'i' {
+func (v *intFieldValue) update(b []byte, quoted bool) error {
+	if quoted || len(b) < 2 || b[len(b)-1] != 'i' {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
 	bi, err := convert.ToInt(b[:len(b)-1])
@@ -239,9 +242,9 @@ type floatFieldValue struct {
 	count   int64
 }
 
-func (v *floatFieldValue) update(b []byte) error {
+func (v *floatFieldValue) update(b []byte, quoted bool) error {
 	bf, err := strconv.ParseFloat(string(b), 64)
-	if err != nil {
+	if quoted || err != nil {
 		return fmt.Errorf("wrong type for float: %s", b)
 	}
 
@@ -257,7 +260,10 @@ func (v *floatFieldValue) bytes() []byte {
 
 type stringFieldValue struct{ b []byte }
 
-func (v *stringFieldValue) update(b []byte) error {
+func (v *stringFieldValue) update(b []byte, quoted bool) error {
+	if !quoted {
+		return fmt.Errorf("wrong type for string: %s", b)
+	}
 	v.b = b
 	return nil
 }
@@ -267,7 +273,10 @@ func (v *stringFieldValue) bytes() []byte {
 
 type rawFieldValue struct{ b []byte }
 
-func (v *rawFieldValue) update(b []byte) error {
+func (v *rawFieldValue) update(b []byte, quoted bool) error {
+	if _, ok := newFieldValue(b).(*rawFieldValue); quoted || !ok {
+		return fmt.Errorf("wrong type for boolean: %s", b)
+	}
 	v.b = b
 	return nil
 }
-- 
2.43.0


From 5514cd2254df30eafc2aaa64a1dad6b1f5ee4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 22/35] fix: don't mix the rules of the common and the specific
 configuration file

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 247b91e..850a76d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -304,10 +304,18 @@ func readConfig(fileName string, conf *Config) error {
 	}
 	defer f.Close()
 
+	// The rules of a file replace any earlier ones (when decoding into
+	// existing rules they'd get mixed).
+	rules := conf.Rule
+	conf.Rule = nil
+
 	_, err = toml.DecodeReader(f, conf)
 	if err != nil {
 		return fmt.Errorf("%s: %v", fileName, err)
 	}
+	if conf.Rule == nil {
+		conf.Rule = rules
+	}
 	return nil
 }
 
-- 
2.43.0


From 12fc80bfe340f61ee789c62edcb706c4603a27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 23/35] fix: report that tap can't connect or subscribe

---
 cmd/influx-spout-tap/influx-spout-tap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 7b624ed..2b20145 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -38,16 +38,22 @@ func main() {
 	if err != nil {
 		log.Printf("Hostname lookup failed")
 	}
-	natsConnection, _ := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	natsConnection, err := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	if err != nil {
+		log.Fatalf("NATS Error: can't connect: %v", err)
+	}
 	log.Println("Connected to " + *url)
 	log.Printf("Subscribing to subject %s\n", *subject)
 
 	if *regexpString != "" {
 		r = regexp.MustCompile(*regexpString)
 	}
-	natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
+	_, err = natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
 		process(msg, r)
 	})
+	if err != nil {
+		log.Fatalf("NATS: subscription for %q failed: %v", *subject, err)
+	}
 
 	// Keep the connection alive
 	runtime.Goexit()
-- 
2.43.0


From 2ebd86a629039a58388d5b1789e8496bfd7b9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 24/35] fix: don't let a slow HTTP client hold up the others
 and the batch

---
 listener/listener.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index e145fb9..71c8ec8 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -291,11 +292,17 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	// The last line of the previous body might not have been terminated.
-	l.batch.EnsureNewline()
-	return l.batch.ReadFrom(r.Body)
+	// Read the body before taking the lock so that a slow client doesn't
+	// hold up the others or the sending of the batch.
+	body, err := ioutil.ReadAll(r.Body)
+	if len(body) > 0 {
+		l.mu.Lock()
+		// The last line of the previous body might not have been terminated.
+		l.batch.EnsureNewline()
+		l.batch.Append(body)
+		l.mu.Unlock()
+	}
+	return int64(len(body)), err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-- 
2.43.0


From 3ed87ed90e0ae74dd19077bd4ff75904d9b895e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 25/35] fix: count every retried write

---
 writer/retryworker.go | 17 -----------------
 writer/writer.go      | 28 ++++++++++++++++++++--------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/writer/retryworker.go b/writer/retryworker.go
index 8341ae7..7aceb3c 100644
--- a/writer/retryworker.go
+++ b/writer/retryworker.go
@@ -35,7 +35,6 @@ func newRetryWorker(inputCh <-chan []byte, dbWriter dbWriter, c *config.Config)
 			maxBatches: c.WriterRetryBatches,
 			maxTTL:     c.WriterRetryTimeout.Duration,
 		},
-		writes:      make(chan struct{}, c.WriterRetryBatches*4),
 		writeErrors: make(chan error, c.WriterRetryBatches*4),
 		stop:        make(chan struct{}),
 	}
@@ -56,16 +55,12 @@ func newRetryWorker(inputCh <-chan []byte, dbWriter dbWriter, c *config.Config)
 // retried at any one time. Old batches will be discarded if necessary
 // to enforce this constraint.
 //
-// Writes attempts to InfluxDB are reported to the channel returned by
-// Writes().  This channel should be consumed regularly.
-//
 // Failures to write to InfluxDB are reported to the channel returned
 // by WriteErrors().  This channel should be consumed regularly.
 type retryWorker struct {
 	inputCh       <-chan []byte
 	dbWriter      dbWriter
 	retryInterval time.Duration
-	writes        chan struct{}
 	writeErrors   chan error
 	queue         *retryQueue
 	stop          chan struct{}
@@ -81,10 +76,6 @@ func (w *retryWorker) WriteErrors() <-chan error {
 	return w.writeErrors
 }
 
-func (w *retryWorker) Writes() <-chan struct{} {
-	return w.writes
-}
-
 func (w *retryWorker) loop() {
 	defer w.wg.Done()
 
@@ -103,7 +94,6 @@ func (w *retryWorker) loop() {
 
 			buf := w.queue.Front()
 			if buf != nil {
-				w.reportWrite()
 				err := w.dbWriter.Write(buf)
 				if err != nil {
 					if isPermanentError(err) {
@@ -120,13 +110,6 @@ func (w *retryWorker) loop() {
 	}
 }
 
-func (w *retryWorker) reportWrite() {
-	select {
-	case w.writes <- struct{}{}:
-	default:
-	}
-}
-
 func (w *retryWorker) reportError(err error) {
 	select {
 	case w.writeErrors <- err:
diff --git a/writer/writer.go b/writer/writer.go
index ed6b09d..01a2481 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -144,21 +144,36 @@ func (w *Writer) Stop() {
 	w.probes.Close()
 }
 
+// countingWriter counts the writes made by a retryWorker. They can't be
+// counted where the retryWorker's reports are consumed because reports
+// are dropped while the worker is busy.
+type countingWriter struct {
+	dbWriter
+	stats *stats.Stats
+}
+
+func (cw *countingWriter) Write(buf []byte) error {
+	cw.stats.Inc(statWriteRequests)
+	err := cw.dbWriter.Write(buf)
+	if err != nil {
+		cw.stats.Inc(statFailedWrites)
+	}
+	return err
+}
+
 func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
 	dbClient := newInfluxClient(w.c)
 
 	var (
-		retryCh      chan []byte
-		retryWriteCh <-chan struct{}
-		retryErrCh   <-chan error
+		retryCh    chan []byte
+		retryErrCh <-chan error
 	)
 	if w.c.WriterRetryBatches > 0 {
 		retryCh = make(chan []byte, 1)
-		rw := newRetryWorker(retryCh, dbClient, w.c)
+		rw := newRetryWorker(retryCh, &countingWriter{dbClient, w.stats}, w.c)
 		defer rw.Stop()
-		retryWriteCh = rw.Writes()
 		retryErrCh = rw.WriteErrors()
 	}
 
@@ -169,10 +184,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
 			batchAppend(j.Data)
-		case <-retryWriteCh:
-			w.stats.Inc(statWriteRequests)
 		case err := <-retryErrCh:
-			w.stats.Inc(statFailedWrites)
 			log.Printf("Retry error: %v", err)
 		case <-time.After(time.Second):
 			// Wake up regularly to check batch age
-- 
2.43.0


From 69dc02d6a5a49b1b799abc13db65c476ae114363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:40 +0000
Subject: [PATCH 26/35] fix: recognise negative timestamps of full length

---
 influx/timestamps.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/influx/timestamps.go b/influx/timestamps.go
index 25a8c86..43debb4 100644
--- a/influx/timestamps.go
+++ b/influx/timestamps.go
@@ -50,7 +50,7 @@ const (
 )
 
 var (
-	// MaxTsLen is maximum number of characters a valid timestamp can be.
+	// MaxTsLen is maximum number of digits a valid timestamp can have.
 	MaxTsLen = len(fmt.Sprint(maxNanoTime))
 
 	// ErrTimeOutOfRange gets returned when time is out of the representable range using int64 nanoseconds since the epoch.
@@ -72,10 +72,7 @@ func ExtractTimestamp(line []byte) (int64, int) {
 		line = line[:length]
 	}
 
-	to := length - MaxTsLen - 1
-	if to < 0 {
-		to = 0
-	}
+	to := earliestTsSpace(line)
 	for i := length - 1; i >= to; i-- {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
@@ -108,11 +105,7 @@ func ExtractNanos(line []byte) (int64, int) {
 	}
 
 	// Expect a space just before the timestamp.
-	from := length - MaxTsLen - 1
-	if from < 0 {
-		from = 0
-	}
-	for i := from; i < length; i++ {
+	for i := earliestTsSpace(line); i < length; i++ {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
 			if err != nil {
@@ -124,6 +117,19 @@ func ExtractNanos(line []byte) (int64, int) {
 	return -1, -1
 }
 
+// earliestTsSpace returns the lowest offset that the space in front of
+// a timestamp at the end of the line can have.
+func earliestTsSpace(line []byte) int {
+	i := len(line) - MaxTsLen - 1
+	if i > 0 && line[i] == '-' {
+		i-- // the sign of a negative timestamp
+	}
+	if i < 0 {
+		return 0
+	}
+	return i
+}
+
 // SafeCalcTime safely calculates the time given. Will return error if
 // the time is outside the supported range.
 func SafeCalcTime(timestamp int64, precision string) (int64, error) {
-- 
2.43.0


From 5c13fbc045d7bd5fdbbbc069060166f16e1803f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 27/35] fix: reject worker counts, periods and sizes that
 cannot work

---
 config/config.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/config.go b/config/config.go
index 850a76d..53a8b2b 100644
--- a/config/config.go
+++ b/config/config.go
@@ -17,6 +17,7 @@ package config
 import (
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -117,6 +118,10 @@ func (c *Config) Validate() error {
 		return errors.New("pprof_port out of range")
 	}
 
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
+
 	if c.Mode != "downsampler" && c.DownsamplePeriod.Duration != time.Duration(0) {
 		return errors.New("downsample_period is only for downsampler mode")
 	}
@@ -154,6 +159,9 @@ func (c *Config) validateFilter() error {
 	if len(c.NATSSubject) != 1 {
 		return errors.New("filter should only use one NATS subject")
 	}
+	if c.Workers < 1 {
+		return errors.New("filter needs at least one worker")
+	}
 	for _, rule := range c.Rule {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
@@ -188,6 +196,9 @@ func (c *Config) validateDownsampler() error {
 	if c.DownsamplePeriod.Duration == time.Duration(0) {
 		return errors.New("downsample_period must be set")
 	}
+	if c.DownsamplePeriod.Duration < 0 {
+		return errors.New("downsample_period must be positive")
+	}
 	if c.DownsampleSuffix == "" {
 		return errors.New("downsample_suffix must be set")
 	}
@@ -198,6 +209,12 @@ func (c *Config) validateWriter() error {
 	if len(c.NATSSubject) < 1 {
 		return errors.New("writer needs at least one NATS subject")
 	}
+	if c.Workers < 0 {
+		return errors.New("workers must not be negative")
+	}
+	if c.BatchMaxSize > math.MaxInt64 {
+		return errors.New("batch_max_size out of range")
+	}
 	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65535 {
 		return errors.New("influxdb_port out of range")
 	}
-- 
2.43.0


From 86cde231a208829c36fa06d9759ab74d44a68967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 28/35] fix: don't spin in the HTTP listener if batch_max_age
 is zero

---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 71c8ec8..cf7f62b 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -240,6 +240,9 @@ func (l *Listener) setupHTTP() *http.Server {
 // because the UDP listener does batch age handling in-line.
 func (l *Listener) oldBatchSender() {
 	defer l.wg.Done()
+	if l.c.BatchMaxAge.Duration <= 0 {
+		return // Every write is sent immediately.
+	}
 	for {
 		l.mu.Lock()
 		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()
-- 
2.43.0


From e5f405ed4c66af525c491e9973c98af73e890da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 29/35] fix: don't drop everything if max_time_delta is very
 large

---
 filter/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..aeba636 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"log"
+	"math"
 	"sync"
 	"time"
 
@@ -89,6 +90,9 @@ func (w *worker) processBatch(batch []byte) {
 	now := time.Now().UnixNano()
 	minTs := now - int64(w.maxTimeDelta)
 	maxTs := now + int64(w.maxTimeDelta)
+	if maxTs < now && w.maxTimeDelta > 0 {
+		maxTs = math.MaxInt64 // beyond the largest timestamp
+	}
 
 	for _, line := range bytes.SplitAfter(batch, []byte("\n")) {
 		if len(line) == 0 {
-- 
2.43.0


From e80ab1643aa5cdbe7bb22f5ff13ab9c5efc5910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 30/35] fix: report rules sharing an output subject together

---
 filter/filter.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 809a1cc..a3d55f8 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -183,11 +183,22 @@ func (f *Filter) startStatistician(st *stats.Stats, ruleSt *stats.AnonStats, rul
 		lines := stats.SnapshotToPrometheus(snap, now, labels)
 		f.nc.Publish(f.c.NATSSubjectMonitor, lines)
 
-		// publish the per rule stats
-		for i, subject := range rules.Subjects() {
+		// publish the per rule stats (rules which share a subject can't
+		// be told apart by their labels so they're reported together)
+		subjects := rules.Subjects()
+		totals := make(map[string]int)
+		for i, subject := range subjects {
+			totals[subject] += int(ruleCounts[i])
+		}
+		for _, subject := range subjects {
+			total, ok := totals[subject]
+			if !ok {
+				continue // already reported
+			}
+			delete(totals, subject)
 			f.nc.Publish(f.c.NATSSubjectMonitor, stats.CounterToPrometheus(
 				"triggered",
-				int(ruleCounts[i]),
+				total,
 				now,
 				labels.With("rule", subject),
 			))
-- 
2.43.0


From 29c636b2789dfb50d83e688dbb06a294858387c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 31/35] fix: don't use any of the values of an invalid line in
 the downsampler

---
 downsampler/avgbucket.go | 69 +++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7a73650..68607a8 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -92,55 +92,64 @@ func (fp *fieldPairs) count() int {
 }
 
 func (fp *fieldPairs) update(raw []byte) (errs []error) {
-	for {
-		if len(raw) == 0 {
-			return
+	// Parse all of the fields first so that nothing of an invalid line
+	// is used.
+	pairs, err := parseFieldPairs(raw)
+	if err != nil {
+		return []error{err}
+	}
+	for _, pair := range pairs {
+		value, exists := fp.fields[pair.name]
+		if exists {
+			if err := value.update(pair.value, pair.quoted); err != nil {
+				errs = append(errs, err) // Non-fatal, so keep going.
+			}
+		} else if pair.quoted {
+			fp.fields[pair.name] = newStringValue(pair.value)
+		} else {
+			fp.fields[pair.name] = newFieldValue(pair.value)
 		}
+	}
+	return
+}
+
+// rawFieldPair is a field of a line.
+type rawFieldPair struct {
+	name   string
+	value  []byte
+	quoted bool // string field
+}
+
+func parseFieldPairs(raw []byte) (pairs []rawFieldPair, err error) {
+	for len(raw) > 0 {
 		raw = raw[1:] // remove leading comma or space
+		var pair rawFieldPair
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
 		if len(raw) == 0 || raw[0] != '=' {
-			errs = append(errs, errors.New("invalid field"))
-			return
+			return nil, errors.New("invalid field")
 		}
-		name := string(nameBytes)
+		pair.name = string(nameBytes)
 
 		raw = raw[1:]
 		if len(raw) == 0 {
-			errs = append(errs, errors.New("missing field value"))
-			return
+			return nil, errors.New("missing field value")
 		}
 
-		var rawValue []byte
-		var err error
 		if raw[0] == '"' {
 			// String field
-			rawValue, raw, err = influx.QuotedString(raw)
+			pair.quoted = true
+			pair.value, raw, err = influx.QuotedString(raw)
 			if err != nil {
-				errs = append(errs, err)
-				return
-			}
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newStringValue(rawValue)
-			} else {
-				if err := value.update(rawValue, true); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
+				return nil, err
 			}
 		} else {
 			// Other field
-			rawValue, raw = influx.Token(raw, []byte{','})
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newFieldValue(rawValue)
-			} else {
-				if err := value.update(rawValue, false); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
-			}
+			pair.value, raw = influx.Token(raw, []byte{','})
 		}
+		pairs = append(pairs, pair)
 	}
+	return pairs, nil
 }
 
 func (fp *fieldPairs) bytes() []byte {
-- 
2.43.0


From 5ee14f721610db6171ba6bfac66c2d0811f939e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 32/35] fix: keep the escapes of a line when sorting its tags

---
 filter/rules.go | 50 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index 363c4eb..46233d2 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -228,24 +228,40 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	sort.Sort(pl.Tags)
-
-	// Replace Escaped with sorted tags version.
-
-	var newHdr []byte
-	newHdr = append(newHdr, influx.EscapeMeasurement(pl.Measurement)...)
-	newHdr = append(newHdr, ',')
-	newHdr = append(newHdr, pl.Tags.Bytes()...)
+	// The original text of the tags is sorted with them so that their
+	// escapes are kept.
+	body := bytes.TrimSuffix(pl.Escaped, pl.newline)
+	measurement, remainder := influx.TokenEscaped(body, []byte(", "))
+	texts := make([][]byte, len(pl.Tags))
+	for i := range texts {
+		text := remainder[1:]
+		_, remainder = influx.TokenEscaped(text, []byte("= ,"))
+		_, remainder = influx.TokenEscaped(remainder[1:], []byte(", "))
+		texts[i] = text[:len(text)-len(remainder)]
+	}
+	sort.Sort(&tagSorter{pl.Tags, texts})
 
-	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = append(newHdr, pl.newline...)
-		return
+	// Replace Escaped with sorted tags version. The memory used by the
+	// original can't be overwritten because the (now reordered) tags may
+	// still refer to it.
+	sorted := make([]byte, 0, len(pl.Escaped))
+	sorted = append(sorted, measurement...)
+	for _, text := range texts {
+		sorted = append(sorted, ',')
+		sorted = append(sorted, text...)
 	}
+	sorted = append(sorted, remainder...)
+	pl.Escaped = append(sorted, pl.newline...)
+}
+
+// tagSorter sorts tags together with their text. It implements
+// sort.Interface.
+type tagSorter struct {
+	influx.TagSet
+	texts [][]byte
+}
 
-	// The memory used by the original can't be overwritten because the
-	// (now reordered) tags may still refer to it.
-	newHdr = append(newHdr, ' ')
-	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = append(newHdr, pl.newline...)
+func (s *tagSorter) Swap(i, j int) {
+	s.TagSet.Swap(i, j)
+	s.texts[i], s.texts[j] = s.texts[j], s.texts[i]
 }
-- 
2.43.0


From ff194fbdf55d9d56f8529500ee1f54a30a15f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 33/35] fix: don't drop an unterminated line of one byte in
 HTTP writes with a precision

---
 listener/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listener/listener.go b/listener/listener.go
index cf7f62b..e650e5a 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -326,7 +326,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 	for scanner.Scan() {
 		line := scanner.Bytes()
 		bytesRead += len(line)
-		if len(line) <= 1 {
+		if line[0] == '\n' {
 			continue
 		}
 
-- 
2.43.0


From b65e9a33ebc74af63c149da0276e75f7b825de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 34/35] fix: reject malformed fields in the downsampler

The output of the downsampler was malformed for lines with fields such as
"v=1 12a", and these determined the type of the fields for the period.
---
 downsampler/avgbucket.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 68607a8..aba8e8e 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -15,6 +15,7 @@
 package downsampler
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"sort"
@@ -42,6 +43,10 @@ func (b *avgBucket) EndTime() time.Time {
 }
 
 func (b *avgBucket) AddLine(line []byte) (errs []error) {
+	if len(line) == 0 || line[0] == ' ' {
+		return []error{errors.New("missing measurement")}
+	}
+
 	var keyBytes []byte
 	keyBytes, line = influx.TokenEscaped(line, []byte(" ")) // key = measurement + tags
 	key := string(keyBytes)
@@ -121,18 +126,24 @@ type rawFieldPair struct {
 }
 
 func parseFieldPairs(raw []byte) (pairs []rawFieldPair, err error) {
-	for len(raw) > 0 {
-		raw = raw[1:] // remove leading comma or space
+	if len(raw) == 0 {
+		return nil, nil
+	}
+	raw = bytes.TrimLeft(raw, " ")
+	for {
+		if len(raw) == 0 || bytes.IndexByte([]byte("=, "), raw[0]) >= 0 {
+			return nil, errors.New("invalid field")
+		}
 		var pair rawFieldPair
 		var nameBytes []byte
-		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
+		nameBytes, raw = influx.TokenEscaped(raw, []byte("=, "))
 		if len(raw) == 0 || raw[0] != '=' {
 			return nil, errors.New("invalid field")
 		}
 		pair.name = string(nameBytes)
 
 		raw = raw[1:]
-		if len(raw) == 0 {
+		if len(raw) == 0 || raw[0] == ',' || raw[0] == ' ' {
 			return nil, errors.New("missing field value")
 		}
 
@@ -145,11 +156,19 @@ func parseFieldPairs(raw []byte) (pairs []rawFieldPair, err error) {
 			}
 		} else {
 			// Other field
-			pair.value, raw = influx.Token(raw, []byte{','})
+			pair.value, raw = influx.TokenEscaped(raw, []byte(", "))
 		}
 		pairs = append(pairs, pair)
+
+		if len(bytes.TrimLeft(raw, " ")) == 0 {
+			return pairs, nil
+		}
+		if raw[0] != ',' {
+			// e.g. an invalid timestamp
+			return nil, errors.New("invalid field value")
+		}
+		raw = raw[1:]
 	}
-	return pairs, nil
 }
 
 func (fp *fieldPairs) bytes() []byte {
-- 
2.43.0


From 46f3eff4a8a4656a69e0f7e26abfc6b43d3476a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:56 +0000
Subject: [PATCH 35/35] fix: forward lines of any length in HTTP writes with a
 precision

---
 listener/listener.go | 63 +++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 42 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index e650e5a..0dfe0e4 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -18,8 +18,8 @@ package listener
 
 import (
 	"bufio"
-	"bytes"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net"
@@ -309,52 +309,31 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-	scanner := bufio.NewScanner(r.Body)
-
-	// scanLines is like bufio.ScanLines but the returned lines
-	// includes the trailing newlines. Leaving the newline on the line
-	// is useful for incoming lines that don't contain a timestamp and
-	// therefore should pass through unchanged.
-	scanner.Split(scanLines)
-
-	// Accept lines as long as those accepted without conversion.
-	if max := int(l.c.BatchMaxSize); max > bufio.MaxScanTokenSize {
-		scanner.Buffer(nil, max)
-	}
+	// Lines are read including the trailing newlines. Leaving the
+	// newline on the line is useful for incoming lines that don't
+	// contain a timestamp and therefore should pass through unchanged.
+	//
+	// Lines may be as long as those accepted without conversion.
+	reader := bufio.NewReader(r.Body)
 
 	bytesRead := 0
-	for scanner.Scan() {
-		line := scanner.Bytes()
+	for {
+		line, err := reader.ReadBytes('\n')
 		bytesRead += len(line)
-		if line[0] == '\n' {
-			continue
+		if len(line) > 0 && line[0] != '\n' {
+			newLine := applyTimestampPrecision(line, precision)
+			l.mu.Lock()
+			l.batch.EnsureNewline()
+			l.batch.Append(newLine)
+			l.mu.Unlock()
+		}
+		if err == io.EOF {
+			return bytesRead, nil
+		}
+		if err != nil {
+			return bytesRead, err
 		}
-
-		newLine := applyTimestampPrecision(line, precision)
-		l.mu.Lock()
-		l.batch.EnsureNewline()
-		l.batch.Append(newLine)
-		l.mu.Unlock()
-	}
-	return bytesRead, scanner.Err()
-}
-
-func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if atEOF && len(data) == 0 {
-		return 0, nil, nil
-	}
-	if i := bytes.IndexByte(data, '\n'); i >= 0 {
-		// We have a full newline-terminated line.
-		return i + 1, data[0 : i+1], nil
-
-	}
-	// If we're at EOF, we have a final, non-terminated line. Return it.
-	if atEOF {
-		return len(data), data, nil
-
 	}
-	// Request more data.
-	return 0, nil, nil
 }
 
 func applyTimestampPrecision(line []byte, precision string) []byte {
-- 
2.43.0

