#!/usr/bin/env python3
# Writes MANIFEST.json: a check for each property in CLAIMED, a reason for each other one.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
 "C01": "contracts on sending and the UDP loop proved for all payload histories and publish errors; no bound",
 "C03": "contracts on the UDP loop, HTTP body reading and the batch proved for all payloads, other requests in between included; no bound",
 "C05": "contracts on the sending decisions and on a batch's counters proved for all states; no bound",
 "C06": "contracts on timestamp extraction and conversion proved for all lines and precisions; no bound",
 "C27": "lock ownership obligations proved on every path of the listed functions; no bound",
 "C02": "contracts on Next proved for all inputs; no bound",
 "C04": "contracts on every method of Batch proved for all inputs; no bound",
 "C07": "contracts on ToInt, ExtractTimestamp and ExtractNanos proved for all inputs; no bound",
 "C09": "contract on ParseTags and the functions under it proved for all inputs; no bound",
 "C21": "contracts on metric parsing and on the monitor's message handler proved for all inputs; contents of sets parsed from several lines checked bounded",
 "C22": "contracts on metrics, labels and set updates proved for all inputs; text of whole sets checked bounded",
 "C23": "contracts on every counter operation proved, other goroutines included; text of snapshots checked bounded",
 "C08": "contracts on the escaping and token functions proved for all inputs; no bound",
 "C10": "contracts on sorting, parsing and writing out a line proved for all inputs; that the result parses back to the same tags is checked bounded",
 "C11": "contracts on the filter worker proved for all batches, rules and publish errors; no bound",
 "C12": "contracts on every rule's function, the constructors and rule lookup proved for all inputs; regular expression matching assumed deterministic",
 "C13": "contracts on timestamp extraction and the worker's batch loop proved for all inputs; no bound",
 "C18": "contracts on the writer's worker loop proved for all message histories, rules and write failures; no bound",
 "C19": "contracts on the retry queue and the retry worker's loop proved for all histories of adds and results; container/list assumed",
 "C20": "contracts on the InfluxDB client proved for all bodies, statuses and configurations; net/http assumed",
 "C24": "contracts on validation and reading proved for all configurations; TOML decoding assumed, option names checked by a bounded search",
 "C25": "contracts on the probes and their handlers proved for all states; sync/atomic and net/http assumed",
 "C28": "contract on message processing proved for all messages and expressions; regular expression matching assumed deterministic",
 "C15": "contracts on the window assigner and the downsampler's worker proved for all periods, clocks and lines; the bucket's contents abstracted as the lines added",
 "C16": "contracts on every value's update and text proved for all values; choice of the value per field name checked bounded",
 "C17": "contracts on a window's updates and text proved for all lines and series; fields taken from a line checked bounded",
 "C26": "absence of panics proved for every function received bytes pass through, for all inputs; panics inside dependencies only as far as their assumed contracts go",
 "C29": "contracts on floating point values proved with arithmetic taken as exact; rounding itself checked bounded",
 "C14": "contracts on the filter worker and its counters proved for all inputs; no bound",
}
NA = {
 "C30": "liveness across goroutines, processes and the message bus: not expressible as contracts of sequential functions",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p, "evidence_file": "evidence/%s.json" % p,
          "technique": "contract-based deductive verification (weakest-precondition style symbolic execution of the Go SSA with SMT)",
          "level": "proof", "level_note": CLAIMED[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no contracts yet")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
