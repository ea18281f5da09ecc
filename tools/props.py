#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py)
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Listener publishes every accepted byte exactly once and in order",
  "When the listener sends its batch, the messages it publishes on the configured subject, taken together, are exactly the bytes accumulated since the previous send: nothing lost, duplicated, reordered or altered, whatever the batch size and even if publishing fails. No published message is larger than 1 MiB, and afterwards the batch is empty. An empty batch publishes nothing.",
  ["inputs", "histories", "fault_sequences"], "every batch content and size (below, at and above the 1 MiB message limit), every sequence of receives and sends, every pattern of publish errors",
  "tests send a handful of small batches; the splitting path needs a batch above 1 MiB whose newlines fall at particular offsets",
  ["listener/listener.go", "batch/batch.go", "batchsplitter/batch_splitter.go"],
  [("sendBatch", "listener/listener.go"), ("Next", "batchsplitter/batch_splitter.go"), ("Reset", "batch/batch.go")],
  ["messages published on the listener's NATS subject"])
p("C02", "Splitting a batch: bounded chunks, newline boundaries, nothing lost",
  "Splitting a batch with a positive chunk size yields chunks whose concatenation is exactly the batch, each between 1 and chunk size bytes long, in order, after a finite number of steps. When the rest of the batch doesn't fit in one chunk, the chunk ends right after the last newline among the next chunk size bytes; only when those contain no newline is a line cut, at exactly chunk size bytes.",
  ["inputs", "configurations"], "every buffer content and every positive chunk size",
  "the tests use a few hand written buffers of some 15 bytes",
  ["batchsplitter/batch_splitter.go"], [("Next", "batchsplitter/batch_splitter.go"), ("Chunk", "batchsplitter/batch_splitter.go")])
p("C03", "Lines of different datagrams or requests are never joined by the listener",
  "Bytes received in different UDP datagrams or HTTP write requests never end up in the same line of a batch: each received payload starts at the beginning of a line. The listener adds at most one newline per payload, only where it is missing, and otherwise keeps payload bytes unaltered and in order of receipt.",
  ["inputs", "histories"], "every sequence of payloads, with and without trailing newline, interleaved arbitrarily with sends",
  "tests use well formed payloads; the defect this found (HTTP bodies without final newline) was not covered",
  ["listener/listener.go", "batch/batch.go"], [("listenUDP", "listener/listener.go"), ("readHTTPBodyNanos", "listener/listener.go"), ("readHTTPBodyWithPrecision", "listener/listener.go"), ("EnsureNewline", "batch/batch.go")],
  ["messages published on the listener's NATS subject"])
p("C04", "Batch buffer: contents, counters and growth are exact",
  "A batch contains exactly the bytes appended to it and read into it since it was last reset, in order, however often its memory is reallocated and whatever its initial capacity. Its size and write count agree with that history, resetting it empties it, a copy of its contents is not affected by later operations, and before every read from a socket or stream there is room for at least 64 KiB.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations, initial capacity, reader behaviour (short reads, data with error, EOF)",
  "tests exercise a few sequences with two or three capacities",
  ["batch/batch.go"], [("appendImpl", "batch/batch.go"), ("grow", "batch/batch.go"), ("ReadFrom", "batch/batch.go"), ("ReadOnceFrom", "batch/batch.go"), ("CopyBytes", "batch/batch.go")])
p("C05", "Batches are sent exactly when a count, age or size limit is reached",
  "The listener sends its batch after a receive exactly when the batch holds at least the configured number of writes, or is at least the configured maximum age old, or is within 64 KiB of the configured maximum size. The writer does so exactly when the batch holds at least the configured number of writes, or has reached the configured maximum size, or is at least the maximum age old. The HTTP listener's background sender sends the batch whenever it finds it at least the configured maximum age old, and only then. The age of a batch counts from its first write since it was last emptied; an empty batch has age zero.",
  ["inputs", "configurations", "histories"], "every combination of write count, size, age and configured limits",
  "tests try one limit at a time, with one configuration each",
  ["listener/listener.go", "writer/writer.go", "batch/batch.go"], [("shouldSend", "listener/listener.go"), ("shouldSend", "writer/writer.go"), ("Age", "batch/batch.go"), ("countWrite", "batch/batch.go")])
p("C06", "Timestamp precision conversion is exact or leaves the line alone",
  "For an HTTP write with a precision other than nanoseconds, every line with a timestamp t is passed on with t multiplied by exactly the nanoseconds in that unit, everything before the timestamp unaltered, and one newline at the end. A line without timestamp, with an invalid one, or whose converted timestamp is not representable as a valid InfluxDB time is passed on byte for byte unchanged; an overflow never yields a wrong timestamp.",
  ["inputs"], "every line and precision; every 64 bit timestamp including those whose product overflows",
  "tests convert one timestamp per unit; overflow needs particular 64 bit values",
  ["listener/listener.go", "influx/timestamps.go", "convert/convert.go"], [("applyTimestampPrecision", "listener/listener.go"), ("SafeCalcTime", "influx/timestamps.go"), ("safeSignedMult", "influx/timestamps.go")])
p("C07", "Integers and line timestamps are extracted exactly or rejected",
  "Parsing an integer returns the mathematically exact value for an optional minus sign followed by decimal digits that denotes a 64 bit signed integer, and an error for every other byte string, including those that overflow. Extracting the timestamp of a line returns the exact value and position of the integer following its last space when that is valid and at most 19 characters long (ignoring one trailing newline), and otherwise reports that there is none; the filter's faster extraction of the nanosecond timestamp agrees with it on lines of more than 20 characters that have exactly one space among their last 20.",
  ["inputs"], "every byte string",
  "tests list about 20 strings; silent wrap around at 20 or more digits was missed",
  ["convert/convert.go", "influx/timestamps.go"], [("ToInt", "convert/convert.go"), ("ExtractTimestamp", "influx/timestamps.go"), ("ExtractNanos", "influx/timestamps.go")])
p("C08", "Line protocol escaping, unescaping and tokenising follow one definition",
  "Unescaping replaces each backslash followed by comma, double quote, space or equals sign by that character and keeps everything else; escaping puts a backslash before exactly the requested characters. Splitting off a token ends it at the first delimiter not preceded by a backslash (or at the end of input), and token and remainder together are the input. Parsing a quoted string ends at the first double quote that isn't escaped and loses no character of its contents.",
  ["inputs"], "every byte string and delimiter set",
  "tests list a few dozen strings; trailing backslashes, runs of backslashes and delimiters in first position are where they fail",
  ["influx/escape.go", "influx/unescape.go", "influx/token.go"], [("Escape", "influx/escape.go"), ("Unescape", "influx/unescape.go"), ("token", "influx/token.go"), ("QuotedString", "influx/token.go"), ("EscapeQuotedString", "influx/escape.go")])
p("C09", "Tag parsing finds exactly the measurement, tags and remainder of a line",
  "For every line, tag parsing either yields the unescaped measurement name, every tag's unescaped key and value in order, and the unaltered rest of the line after the separating space, or reports an error. It reports an error for a tag without equals sign, with empty key or with empty value, and never for a well formed line. It never reads outside the line and never modifies it.",
  ["inputs"], "every byte string",
  "tests list about 15 lines",
  ["influx/tags.go", "influx/token.go"], [("ParseTags", "influx/tags.go"), ("Token", "influx/token.go")])
p("C10", "The filter sorts tags without changing what a line says",
  "A line leaves the filter with its tags ordered by key (byte order) and the same measurement, the same multiset of tags and the same fields and timestamp as it arrived with; a line whose tags are already ordered leaves it byte for byte unchanged. Basic and tags rules match the line just as they would have before sorting; regex and negregex rules are applied to the sorted line.",
  ["inputs"], "every well formed line",
  "tests sort five lines, none of which distinguishes the aliasing that misrouted lines",
  ["filter/rules.go", "influx/tags.go"], [("SortTags", "filter/rules.go"), ("Bytes", "influx/tags.go"), ("Less", "influx/tags.go")])
p("C11", "Each filtered line goes to the first matching rule's subject or the junkyard",
  "Every well formed line received by the filter whose timestamp is acceptable is published exactly once: on the subject of the first configured rule it matches, or on the junkyard subject if it matches none. Lines keep their order within a subject, nothing else is published on these subjects, and everything is published before the next batch is processed, also when publishing fails.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every batch of lines, every list of rules, every history of batches and publish errors",
  "tests use one rule and five lines",
  ["filter/worker.go", "filter/rules.go"], [("processBatch", "filter/worker.go"), ("processLine", "filter/worker.go"), ("sendOff", "filter/worker.go"), ("LookupParsed", "filter/rules.go")],
  ["messages published on the rule and junkyard subjects"])
p("C12", "Each type of rule matches exactly the lines it is documented to match",
  "A basic rule matches a line if and only if the line's unescaped measurement name equals the configured one. A tags rule matches if and only if every configured key and value pair is among the line's unescaped tags. A regex rule matches if and only if the expression matches the unescaped line, and a negregex rule with the same expression matches exactly the other lines. The rules in effect are the configured ones, in the configured order.",
  ["inputs", "configurations"], "every rule configuration and every line",
  "tests try a few lines per rule type; hash collisions and repeated tags aren't among them",
  ["filter/rules.go", "influx/tags.go"], [("CreateBasicRule", "filter/rules.go"), ("CreateTagRule", "filter/rules.go"), ("CreateRegexRule", "filter/rules.go"), ("CreateNegativeRegexRule", "filter/rules.go"), ("RuleSetFromConfig", "filter/rules.go"), ("SubsetOf", "influx/tags.go")])
p("C13", "The filter drops exactly the lines with timestamps outside the time window",
  "A line of more than 24 bytes ending in a nanosecond timestamp (a valid integer after the only space among its last 20 characters, one trailing newline ignored) is dropped as invalid if and only if that timestamp is not strictly within the configured maximum delta of the current time. A line without such a timestamp is never dropped for its time. Every dropped line is counted as invalid.",
  ["inputs", "configurations"], "every line, current time and maximum delta",
  "tests use four lines and two deltas, none at a boundary",
  ["filter/worker.go", "influx/timestamps.go"], [("processBatch", "filter/worker.go"), ("extractTimestamp", "filter/worker.go"), ("ExtractNanos", "influx/timestamps.go")])
p("C14", "Filter counters account for every line",
  "For every batch the filter processes, the processed counter grows by the number of non-empty lines, and every processed line increases exactly one of passed, rejected and invalid time, or none if the line is malformed. A line is counted passed if and only if it goes to a rule's subject, which also increases that rule's own counter by one and no other rule's; each failed publish is counted once.",
  ["inputs", "histories", "fault_sequences"], "every batch and rule set",
  "tests check the counters after one small batch",
  ["filter/worker.go", "stats/stats.go", "stats/anonstats.go"], [("processBatch", "filter/worker.go"), ("processLine", "filter/worker.go"), ("publish", "filter/worker.go"), ("Inc", "stats/anonstats.go")])
p("C15", "The downsampler assigns each line to the window containing its timestamp",
  "The downsampler keeps three consecutive windows whose ends are multiples of the period, the current one containing the present. A line is added to the window whose interval (end minus period inclusive, end exclusive) contains its timestamp, a line without timestamp to the one containing the present, and lines older or newer than the three windows are reported as timestamp errors and added nowhere. A window is emitted only when its successor has ended, exactly once, and the windows then advance by exactly one period.",
  ["inputs", "histories", "configurations"], "every period, clock reading and sequence of updates and emissions",
  "tests use one period and some dozen timestamps",
  ["downsampler/assigner.go"], [("Update", "downsampler/assigner.go"), ("findBucket", "downsampler/assigner.go"), ("Bytes", "downsampler/assigner.go"), ("newAssigner", "downsampler/assigner.go"), ("UntilNext", "downsampler/assigner.go")])
p("C16", "Downsampled field values are exact averages of integers or last values",
  "For an integer field the downsampled value is the average of all values received for it in the window, computed exactly and truncated toward zero, for every sequence of 64 bit values. For a field which is neither integer nor float, and for string fields, it is the value received last. A value of the wrong type for an integer or float field is reported as an error and leaves the aggregate as it was.",
  ["inputs", "histories"], "every sequence of field values, in particular large ones and ones of opposite sign",
  "tests average two or three small values; the incremental average drifted and could overflow",
  ["downsampler/avgbucket.go", "convert/convert.go"], [("intFieldValue.update", "downsampler/avgbucket.go"), ("intFieldValue.bytes", "downsampler/avgbucket.go"), ("newFieldValue", "downsampler/avgbucket.go"), ("stringFieldValue", "downsampler/avgbucket.go"), ("rawFieldValue", "downsampler/avgbucket.go")])
p("C17", "Each downsampled window yields one line per series",
  "An emitted window contains exactly one line for each series (measurement and tags, byte for byte) added to it, consisting of the series, its fields ordered by name with their aggregated values, and the end of the window as nanosecond timestamp. String values are re-escaped so that they equal the string last received, and a malformed line never creates a series or affects another series.",
  ["inputs", "histories"], "every sequence of lines added to a window",
  "tests use a few lines; escapes in strings were not preserved",
  ["downsampler/avgbucket.go", "influx/token.go", "influx/escape.go"], [("AddLine", "downsampler/avgbucket.go"), ("Bytes", "downsampler/avgbucket.go"), ("fieldPairs.update", "downsampler/avgbucket.go"), ("fieldPairs.bytes", "downsampler/avgbucket.go")])
p("C18", "The writer delivers what it received, in bounded requests",
  "The bodies of the write requests a writer worker sends for a batch are exactly that batch, in order, none larger than the configured maximum batch size. With no rules every received byte is batched; with rules exactly the lines matching some rule are, in order. Each chunk whose write fails is handed to the retry worker as an independent copy when retries are enabled, and the batch is emptied whether or not writes fail.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every sequence of messages, batch limits and write failures",
  "tests use a few messages and one failure pattern",
  ["writer/writer.go", "batch/batch.go", "batchsplitter/batch_splitter.go"], [("worker", "writer/writer.go"), ("getBatchWriteFunc", "writer/writer.go"), ("filterLine", "writer/writer.go")],
  ["requests received by InfluxDB"])
p("C19", "The retry queue is bounded and loses batches only as documented",
  "The retry queue never holds more than the configured number of batches; adding to a full queue discards exactly the batch closest to expiry. A batch whose retry timeout has passed is never sent; a batch leaves the queue when it has been written, has failed permanently or has expired, and after a temporary failure it goes to the back of the queue unaltered. All other batches keep their contents and order.",
  ["histories", "fault_sequences", "configurations"], "every sequence of adds, retries, failures and time steps",
  "tests follow a few histories with a queue of two or three batches",
  ["writer/retryworker.go"], [("Add", "writer/retryworker.go"), ("Front", "writer/retryworker.go"), ("CycleFront", "writer/retryworker.go"), ("removeOldest", "writer/retryworker.go"), ("loop", "writer/retryworker.go")])
p("C20", "InfluxDB responses are classified correctly and bodies sent verbatim",
  "A write request carries exactly the given bytes as the body of a POST to the configured URL, with the configured credentials if and only if a user name is configured. It is reported successful if and only if the response status is 2xx; status 4xx, or a URL from which no request can be made, is reported as a permanent error and any other failure, including failure to get a response, as a temporary one.",
  ["inputs", "fault_sequences", "configurations"], "every body, every HTTP status code, every transport failure",
  "tests use statuses 200, 204, 400 and 500",
  ["writer/influxclient.go"], [("Write", "writer/influxclient.go"), ("isHTTPPOSTSuccess", "writer/influxclient.go"), ("isHTTPClientError", "writer/influxclient.go"), ("isPermanentError", "writer/influxclient.go")])
p("C21", "Metric parsing accepts only well formed metrics and never crashes",
  "Parsing a metrics message either yields every metric in it, with exact name, label names and values, value and timestamp, or an error; it never crashes, whatever the bytes. A message with any malformed line leaves the monitor's metrics unchanged.",
  ["inputs"], "every byte string",
  "tests list about ten malformed metrics; several truncated ones crashed the monitor",
  ["prometheus/parse.go", "monitor/monitor.go"], [("ParseMetric", "prometheus/parse.go"), ("parseLabels", "prometheus/parse.go"), ("ParseMetrics", "prometheus/parse.go"), ("receiveMetrics", "monitor/monitor.go")])
p("C22", "Metric sets keep the latest sample and serialise without side effects",
  "A metric set holds exactly one metric per name and label set: updating replaces the metric with that name and label set, in whatever order its labels were given, and no other. Serialising writes each metric once, as name, labels ordered by name, value and (if positive) timestamp, and leaves names, labels and values of all metrics as they were, so that serialising again gives the same bytes. Adding a label yields a new label set and leaves the original and others derived from it unchanged.",
  ["inputs", "histories"], "every set of metrics and sequence of updates, serialisations and label additions",
  "tests serialise freshly built metrics; aliasing of parsed metrics' memory was missed",
  ["prometheus/metric.go", "prometheus/metricset.go", "prometheus/labels.go"], [("ToBytes", "prometheus/metric.go"), ("ToBytes", "prometheus/labels.go"), ("With", "prometheus/labels.go"), ("Update", "prometheus/metricset.go"), ("metricKey", "prometheus/metricset.go")])
p("C23", "Counters are exact and never decrease",
  "Each counter increment adds exactly one to the named counter and to no other and is never lost under concurrency; raising a counter to a maximum never lowers it and otherwise sets exactly the given value. A snapshot contains every counter once, with its value, and the exported metrics carry the counter's name, value, the given labels and the time in milliseconds. At every interval each component publishes all its counters, then the count of each filter rule, or of the messages dropped for each subject, on the monitor's subject.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of counter operations",
  "tests are sequential, or run a few goroutines once",
  ["stats/stats.go", "stats/anonstats.go", "stats/prometheus.go", "listener/listener.go", "filter/filter.go", "downsampler/downsampler.go", "writer/writer.go"], [("startStatistician", "filter/filter.go"), ("updateNATSDropped", "downsampler/downsampler.go"), ("Inc", "stats/anonstats.go"), ("Max", "stats/anonstats.go"), ("Snapshot", "stats/stats.go"), ("lookup", "stats/stats.go"), ("CounterToPrometheus", "stats/prometheus.go")])
p("C24", "Invalid configurations are rejected and documented defaults applied",
  "A configuration is accepted if and only if it satisfies the documented constraints of its mode: port and probe port ranges, number of NATS subjects, listener batch size at most 1 MiB, protocol, paired credentials, downsampling options, and complete rules. Settings absent from the configuration get their documented defaults (those depending on the mode included), and no accepted configuration makes a component panic while reading its rules' tags.",
  ["configurations", "inputs"], "every configuration",
  "tests check about 25 configurations",
  ["config/config.go", "filter/rules.go"], [("Validate", "config/config.go"), ("validateFilter", "config/config.go"), ("validateWriter", "config/config.go"), ("validateListener", "config/config.go"), ("validateDownsampler", "config/config.go"), ("NewConfigFromFile", "config/config.go")])
p("C25", "Probes report exactly the state that was last set",
  "The liveness and readiness endpoints answer 200 when the corresponding state was last set to true and 503 when it was last set to false, independently of each other; initially a component is alive and not ready. Without a probe port, setting states has no effect and opens no port.",
  ["histories", "inputs"], "every sequence of state changes and requests",
  "tests follow one sequence",
  ["probes/probes.go"], [("SetAlive", "probes/probes.go"), ("SetReady", "probes/probes.go"), ("newHandler", "probes/probes.go"), ("Listen", "probes/probes.go")])
p("C26", "No received bytes can crash a component",
  "Processing any received bytes - datagrams, HTTP bodies, NATS messages with lines or metrics - never causes an out of range access, nil dereference, division by zero, failed type assertion or other panic in the listener, filter, downsampler, writer or monitor.",
  ["inputs"], "every byte string received, every configuration that passes validation",
  "tests feed mostly well formed data",
  ["influx/token.go", "influx/tags.go", "influx/unescape.go", "influx/timestamps.go", "filter/worker.go", "downsampler/avgbucket.go", "downsampler/assigner.go", "prometheus/parse.go", "listener/listener.go", "batch/batch.go"],
  [("index and slice expressions", "all files listed")])
p("C27", "Shared state is only touched with its lock held",
  "The HTTP listener's batch and the monitor's metric set are only read or modified by a goroutine holding the lock that guards them, and every path that takes such a lock releases it exactly once. Concurrent requests therefore behave as if their critical sections ran one after another.",
  ["schedules"], "every interleaving of requests, timers and messages",
  "tests run a few concurrent requests; a race shows only in particular interleavings",
  ["listener/listener.go", "monitor/monitor.go"], [("mu", "listener/listener.go"), ("mu", "monitor/monitor.go")])
p("C28", "influx-spout-tap prints matching lines verbatim",
  "For every message received, influx-spout-tap writes exactly the lines matching the configured expression (all lines if there is none) to its output, in order and byte for byte.",
  ["inputs"], "every message and expression",
  "the tool has no tests; lines containing % were garbled",
  ["cmd/influx-spout-tap/influx-spout-tap.go"], [("process", "cmd/influx-spout-tap/influx-spout-tap.go")])
p("C29", "Downsampled floating point fields are the average of the values received",
  "For a floating point field the downsampled value is the arithmetic mean of the values received for it in the window, up to rounding.",
  ["inputs", "histories"], "every sequence of finite floating point values",
  "tests average a few small values",
  ["downsampler/avgbucket.go"], [("floatFieldValue.update", "downsampler/avgbucket.go")])
p("C30", "Every received line is eventually delivered or counted as dropped",
  "Every line received by the system is eventually delivered to the database endpoints whose rules select it or is accounted for in a counter, provided the message bus and the endpoints work for long enough.",
  ["schedules", "crash_points", "fault_sequences"], "every schedule of the components' goroutines and of the message bus",
  "tests sample a few schedules on an idle machine",
  ["listener/listener.go", "filter/filter.go", "writer/writer.go"], [("worker goroutines and channels", "filter/filter.go, writer/writer.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
