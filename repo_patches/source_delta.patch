From 35ec39d169bd6aa4dd05a5e856f612c7dd18b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/20] fix: convert.ToInt must report overflow instead of
 wrapping around

The uint64 accumulator wrapped silently for inputs of 20 digits or more,
so e.g. "18446744073709551617" was accepted as 1.
---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..a6813c8 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > (math.MaxUint64-uint64(c))/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From 8684beafba106841fd6ef71c904350c814333470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/20] fix: batchsplitter chunks could exceed the chunk size
 by one byte

A newline at offset chunkSize was included in the chunk, making it
chunkSize+1 bytes long.
---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 0a798d691615894dae07107c78745a37ce9ffa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 03/20] fix: sorting tags must not overwrite the memory the
 tags refer to

The in-place rewrite of the line header clobbered pl.Measurement and
pl.Tags, so that tags rules were applied to garbage.
---
 filter/rules.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..389ccba 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -230,14 +230,8 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
-
-	// Length as changed (original escaped differently?)
+	// Always build a new line: the memory of the original one can't be
+	// overwritten because Measurement and Tags still refer to it.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
 	pl.Escaped = newHdr
-- 
2.43.0


From 23a6e05626fe28ad8db65184939a6acc32e85d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 04/20] fix: basic rules matched other measurements with the
 same 32 bit hash

---
 filter/rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filter/rules.go b/filter/rules.go
index 389ccba..9108e4a 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -41,7 +41,9 @@ func CreateBasicRule(measurement string, subject string) Rule {
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// The hash is only a quick check: different measurements
+			// can have the same hash.
+			return hh == line.HashedMeasurement() && string(line.Measurement) == measurement
 		},
 		subject: subject,
 	}
-- 
2.43.0


From d6c736ef1d865eb2f716a045b9c821c120953c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 05/20] fix: HTTP listener joined the last line of a request
 with the next request

A request body without a trailing newline was batched as is, so its last
line was merged with the first line of whatever was received next.
---
 listener/listener.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..6bb836e 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,7 +282,11 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
-	return l.batch.ReadFrom(r.Body)
+	n, err := l.batch.ReadFrom(r.Body)
+	if n > 0 {
+		l.batch.EnsureNewline()
+	}
+	return n, err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
@@ -305,6 +309,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
 		l.batch.Append(newLine)
+		l.batch.EnsureNewline()
 		l.mu.Unlock()
 	}
 	return bytesRead, scanner.Err()
-- 
2.43.0


From 7510af3e65dac91de580ac1e14c7e18f819fff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 06/20] fix: a delimiter at the start of a token was ignored

token() never looked at the first byte of inputs of two bytes or more, so
e.g. "foo,host= x=22" was accepted with tag host having the value " x=22".
Empty tag keys, field names and field values are now reported as errors.
---
 downsampler/avgbucket.go | 6 +++++-
 influx/tags.go           | 2 +-
 influx/token.go          | 3 +--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..a53d1be 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -99,7 +99,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 		raw = raw[1:] // remove leading comma or space
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
-		if len(raw) == 0 || raw[0] != '=' {
+		if len(nameBytes) == 0 || len(raw) == 0 || raw[0] != '=' {
 			errs = append(errs, errors.New("invalid field"))
 			return
 		}
@@ -131,6 +131,10 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 		} else {
 			// Other field
 			rawValue, raw = influx.Token(raw, []byte{','})
+			if len(rawValue) == 0 {
+				errs = append(errs, errors.New("missing field value"))
+				return
+			}
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
diff --git a/influx/tags.go b/influx/tags.go
index 83b6cff..9a9c00d 100644
--- a/influx/tags.go
+++ b/influx/tags.go
@@ -115,7 +115,7 @@ func ParseTags(line []byte) ([]byte, TagSet, []byte, error) {
 		}
 
 		key, line = Token(line[1:], []byte("= ,"))
-		if len(line) == 0 || line[0] != '=' {
+		if len(key) == 0 || len(line) == 0 || line[0] != '=' {
 			return nil, nil, nil, errors.New("invalid tag")
 		}
 
diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..dbaffd2 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -35,13 +35,12 @@ func TokenEscaped(s []byte, until []byte) ([]byte, []byte) {
 
 func token(s []byte, until []byte) ([]byte, []byte, bool) {
 	length := len(s)
-	if length == 1 {
+	if length > 0 {
 		for _, c := range until {
 			if s[0] == c {
 				return nil, s, false
 			}
 		}
-		return s, nil, false
 	}
 
 	escaped := false
-- 
2.43.0


From 9c5247c64db65a5b80a2dbe4d04c5893d6ac5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 07/20] fix: truncated metrics made the metrics parser panic

Inputs such as "abc{", "abc{}" and 'm{a="1"' caused an index out of range
panic, taking the monitor down.
---
 prometheus/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..6e2bb22 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -71,6 +71,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 	}
 
 	i++
+	if i > len(s) {
+		return nil, errors.New("no value")
+	}
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
 		j = len(s[i:]) // No timestamp
@@ -92,6 +95,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
+	if len(s) == 0 {
+		return nil, 0, errors.New("invalid label")
+	}
 	if s[0] == '}' {
 		return nil, 1, nil
 	}
@@ -117,6 +123,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("invalid label separator")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 598de9b63b0c9d99d29a9542173b35a400275468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 08/20] fix: serialising a parsed metric overwrote its labels

Metric.ToBytes() appended to the Name slice, which for parsed metrics
shares its memory with the labels.
---
 prometheus/metric.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..396586d 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,10 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	// Name can't be used as the initial buffer: appending to it would
+	// overwrite the memory following it.
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 8bfd8915d22274ff210818cd9620e6d114d28fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 09/20] fix: Labels.With results could share (and overwrite)
 the same memory

---
 prometheus/labels.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus/labels.go b/prometheus/labels.go
index 94ee161..ac84a77 100644
--- a/prometheus/labels.go
+++ b/prometheus/labels.go
@@ -62,7 +62,9 @@ func (labels Labels) sort() {
 
 // With returns a new Labels with the additional labels added.
 func (labels Labels) With(name, value string) Labels {
-	return append(labels, Label{
+	out := make(Labels, len(labels), len(labels)+1)
+	copy(out, labels)
+	return append(out, Label{
 		Name:  []byte(name),
 		Value: []byte(value),
 	})
-- 
2.43.0


From 59ebdf22861b4c33d24134eab63710aa882797cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 10/20] fix: string field values were not preserved by the
 downsampler

QuotedString() removed backslashes which aren't escapes in a string field
value, and didn't recognise an escaped backslash before the closing quote.
---
 influx/token.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index dbaffd2..1f17564 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -14,7 +14,10 @@
 
 package influx
 
-import "errors"
+import (
+	"bytes"
+	"errors"
+)
 
 // Token takes an escaped line protocol line and returns the
 // unescaped characters leading up to until.
@@ -86,14 +89,19 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 		if i >= length {
 			return nil, nil, errors.New("missing trailing double quote")
 		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
+		if s[i] == '\\' && i+1 < length && (s[i+1] == '\\' || s[i+1] == '"') {
+			// Skip character (it's escaped).
+			i++
+			if s[i] == '"' {
 				escaped = true
-				continue
 			}
+			continue
+		}
+		if s[i] == '"' {
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				// Only double quotes are unescaped.
+				out = bytes.Replace(out, []byte(`\"`), []byte(`"`), -1)
 			}
 			return out, s[i+1:], nil
 		}
-- 
2.43.0


From 996247528640c2ba0701814298b6c4ca52e720df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 11/20] fix: influx-spout-tap used received lines as format
 strings

---
 cmd/influx-spout-tap/influx-spout-tap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..7b624ed 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -57,10 +57,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				fmt.Print(string(line))
 			}
 		} else {
-			fmt.Printf(string(line))
+			fmt.Print(string(line))
 		}
 	}
 }
-- 
2.43.0


From e0a3738d0a5454aecaa07e6c97a13bbe81417fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 12/20] fix: batch could have less than 64K of room for a read

With a capacity between 32K and 64K doubling the buffer isn't enough to
make room for the largest possible datagram.
---
 batch/batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch/batch.go b/batch/batch.go
index 9be7ef4..fc8ce93 100644
--- a/batch/batch.go
+++ b/batch/batch.go
@@ -152,7 +152,7 @@ func (b *Batch) growIfLow() {
 // possible.
 func (b *Batch) grow() {
 	newSize := cap(b.buf) * 2
-	if newSize < maxReadSize {
+	if newSize-cap(b.buf) < maxReadSize {
 		newSize = cap(b.buf) + maxReadSize
 	}
 	newBuf := make([]byte, int(newSize))
-- 
2.43.0


From fcc64ea3290fbfa04823c8e925fda3333638187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 13/20] fix: filter took an explicit timestamp of -1 for a
 missing one

---
 filter/worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..ddc10ba 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -170,8 +170,8 @@ func extractTimestamp(line []byte, defaultTs int64) int64 {
 		return defaultTs
 	}
 
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
+	out, offset := influx.ExtractNanos(line)
+	if offset == -1 {
 		return defaultTs
 	}
 	return out
-- 
2.43.0


From e0eae8928e0010f7d39424b23cd4ee115fd71090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 14/20] fix: downsampled averages of integer fields drifted
 from the average

The truncated incremental average lost a fraction with every update (the
average of 1, 2 and 3 was 1) and its intermediate value could overflow.
---
 downsampler/avgbucket.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index a53d1be..4974878 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"sort"
 	"strconv"
 	"time"
@@ -181,8 +182,8 @@ func newFieldValue(v []byte) fieldValue {
 	if len(v) >= 2 && v[len(v)-1] == 'i' {
 		if iv, err := convert.ToInt(v[:len(v)-1]); err == nil {
 			return &intFieldValue{
-				average: iv,
-				count:   1,
+				sum:   big.NewInt(iv),
+				count: 1,
 			}
 		}
 	}
@@ -199,9 +200,12 @@ func newStringValue(v []byte) fieldValue {
 	return &stringFieldValue{v}
 }
 
+// intFieldValue keeps the exact sum of the values: an incremental
+// integer average loses a fraction with every update, and an int64 sum
+// could overflow.
 type intFieldValue struct {
-	average int64
-	count   int64
+	sum   *big.Int
+	count int64
 }
 
 func (v *intFieldValue) update(b []byte) error {
@@ -213,14 +217,14 @@ func (v *intFieldValue) update(b []byte) error {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
 
-	// Update incremental average.
 	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
+	v.sum.Add(v.sum, big.NewInt(bi))
 	return nil
 }
 
 func (v *intFieldValue) bytes() []byte {
-	return append(strconv.AppendInt(nil, v.average, 10), 'i')
+	average := new(big.Int).Quo(v.sum, big.NewInt(v.count)).Int64()
+	return append(strconv.AppendInt(nil, average, 10), 'i')
 }
 
 type floatFieldValue struct {
-- 
2.43.0


From 11a044ee401fd416a8b65acaec640fecbbbaab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 15/20] fix: tags rules couldn't be used by the writer

The writer's validation demanded "match" of every rule, so that tags rules
were rejected, and didn't check the tags items, so that a rule with both
could panic at startup.
---
 config/config.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..c4e22cb 100644
--- a/config/config.go
+++ b/config/config.go
@@ -161,23 +161,31 @@ func (c *Config) validateFilter() error {
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	return nil
+}
+
+// validateMatch checks the part of a rule which selects lines.
+func (rule *Rule) validateMatch() error {
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	if rule.Rtype == "tags" {
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
+		}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
 	}
@@ -215,8 +223,8 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From 6d4eb75ce5b9f31868e5af2a0daeb1c3e9f7e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 16/20] fix: HTTP listener must only add a newline between
 requests

A request which is published on its own is passed on as received.
---
 listener/listener.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 6bb836e..a4e2b25 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,11 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
-	n, err := l.batch.ReadFrom(r.Body)
-	if n > 0 {
-		l.batch.EnsureNewline()
-	}
-	return n, err
+	l.batch.EnsureNewline() // previous request may lack the final newline
+	return l.batch.ReadFrom(r.Body)
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
@@ -308,8 +305,8 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		l.batch.EnsureNewline() // previous request may lack the final newline
 		l.batch.Append(newLine)
-		l.batch.EnsureNewline()
 		l.mu.Unlock()
 	}
 	return bytesRead, scanner.Err()
-- 
2.43.0


From d9ace90ad7801850cbb9967147c6a068134eb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 17/20] fix: metrics with anything but a space after the labels
 were accepted

---
 prometheus/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index 6e2bb22..832df99 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -68,12 +68,12 @@ func ParseMetric(s []byte) (*Metric, error) {
 		}
 		out.Labels = labels
 		i += n
+		if i >= len(s) || s[i] != ' ' {
+			return nil, errors.New("no value")
+		}
 	}
 
 	i++
-	if i > len(s) {
-		return nil, errors.New("no value")
-	}
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
 		j = len(s[i:]) // No timestamp
-- 
2.43.0


From 83d9808dd9fed27ae117184bff1636e670fcccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 18/20] fix: don't mix the rules of the common configuration
 file with the given file's

The TOML library decodes a list over the elements that are already there,
so a rule took the options it doesn't set from the common file's rule of
the same index.
---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index c4e22cb..97d550d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -296,10 +296,18 @@ func readConfig(fileName string, conf *Config) error {
 	}
 	defer f.Close()
 
+	// Rules are decoded into a new list: decoding over existing rules
+	// would mix the options of unrelated rules.
+	rules := conf.Rule
+	conf.Rule = nil
+
 	_, err = toml.DecodeReader(f, conf)
 	if err != nil {
 		return fmt.Errorf("%s: %v", fileName, err)
 	}
+	if conf.Rule == nil {
+		conf.Rule = rules
+	}
 	return nil
 }
 
-- 
2.43.0


From b383e47458fc691d098eca23375b451b02b0ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 19/20] fix: a string is the wrong type for a number field

A string whose text is a number, such as f="1i", was averaged into an
integer or float field, and a string received for a field of another
type was emitted without quotes.
---
 downsampler/avgbucket.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 4974878..ae96015 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -121,13 +121,13 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 				errs = append(errs, err)
 				return
 			}
-			value, exists := fp.fields[name]
-			if !exists {
+			switch fp.fields[name].(type) {
+			case *intFieldValue: // Non-fatal, so keep going.
+				errs = append(errs, fmt.Errorf("wrong type for int: %s", rawValue))
+			case *floatFieldValue:
+				errs = append(errs, fmt.Errorf("wrong type for float: %s", rawValue))
+			default:
 				fp.fields[name] = newStringValue(rawValue)
-			} else {
-				if err := value.update(rawValue); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
 			}
 		} else {
 			// Other field
-- 
2.43.0


From 71d7d550d9d2d9428027bd15b2c053352281c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:43 +0000
Subject: [PATCH 20/20] fix: averages of large floating point values overflow

The difference of two finite values may be infinite, as for 1e308 and
-1e308, and the average stayed infinite or NaN from then on.
---
 downsampler/avgbucket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index ae96015..27d75de 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -238,9 +238,11 @@ func (v *floatFieldValue) update(b []byte) error {
 		return fmt.Errorf("wrong type for float: %s", b)
 	}
 
-	// Update incremental average.
+	// Update incremental average. The difference between the value
+	// and the average could be too large for a float64.
 	v.count++
-	v.average = v.average + ((bf - v.average) / float64(v.count))
+	n := float64(v.count)
+	v.average += bf/n - v.average/n
 	return nil
 }
 
-- 
2.43.0

