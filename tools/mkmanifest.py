"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "calls": ("TLA+ specification of the wire format, codec and dialects; TLC validates recorded calls of the real code against it",
              "Every recorded call is judged by TLC against spec/TraceCalls.tla; exhaustive over message types, IDs, classes of lengths and versions, sampled over field values. Trusts TLC, the driver's recording, and spec/mavlink_defs.json."),
    "framing": ("TLA+ reference scanner: the buffered scanner model-checked against it, scenarios from it, and TLC validates what the real stream delivers against it",
                "Design level: all inputs over a toy format up to 5 bytes (7 thorough), all cuts. Code level: every recorded stream of real bytes judged by TLC. Trusts TLC, the driver's fake transport and recording, and spec/mavlink_defs.json."),
}
TECH["life"] = (
    "TLA+ model of the stream's loops, closing and logger checked in all interleavings; scenarios generated from it run against the real stream, and TLC validates the recorded histories against the observable-behaviour specification",
    "Design level: all interleavings within 3-4 environment operations. Code level: every recorded history judged by TLC against spec/StreamAbs.tla; schedules of the real code sampled (fake time, instrumented yield points, race detector). Trusts TLC and the driver's recording.")
TECH["udp"] = (
    "TLA+ model of the UDP endpoint checked in all interleavings; scenarios generated from it run against the real endpoint over a stand-in and over loopback sockets, and TLC validates the recorded histories",
    "Design level: all interleavings within 5-6 operations. Code level: every recorded history judged by TLC against spec/UdpAbs.tla; schedules of the real code sampled. Trusts TLC, the driver's recording and the loopback interface.")
TECH["link"] = (
    "TLA+ model of two streams back to back (order, no loss, liveness); scenarios generated from it run against real linked streams, and TLC validates what was received against what was sent",
    "Design level: all interleavings of 2-3 messages each way. Code level: every received message judged by TLC against spec/TraceLink.tla over fake-time links, UDP loopback and under the race detector; schedules and values sampled. Trusts TLC, the driver's recording and spec/mavlink_defs.json.")
TECH["conc"] = (
    "TLA+ specification of the wire format, codec and dialects; TLC judges every call recorded from 8 concurrent goroutines as if it were alone; race detector",
    "Every distinct call recorded under concurrency is judged by TLC against spec/TraceCalls.tla; schedules sampled by the Go scheduler, with and without the race detector. Trusts TLC, the driver's recording and the race detector.")
TECH["ports"] = (
    "TLA+ model of several UDP endpoints over the sockets of one host; random walks of it run against real endpoints on loopback, and TLC validates the recorded histories",
    "Design level: all sequences of 5-8 operations on up to three endpoints. Code level: every recorded history judged by TLC against spec/PortsAbs.tla; walks of 30 operations sampled. Trusts TLC, the driver's recording, the loopback interface and Linux's rules for binding.")
TECH["many"] = (
    "TLA+ model of several streams side by side, each with an observer of its own, checked in all interleavings; scenarios generated from the stream's model run on several real streams at once, and TLC validates each stream's history as if it were alone",
    "Design level: two streams' read sides, all interleavings within 4-5 operations. Code level: every history of 2-4 streams in step judged by TLC against spec/StreamAbs.tla, schedules sampled; what a stream does alone too is left to C06-C10. Trusts TLC, the driver's recording and the race detector.")
CLAIMED = {p: "calls" for p in ["C%02d" % i for i in list(range(11, 20)) + [22, 25, 26]]}
CLAIMED.update({"C%02d" % i: "framing" for i in range(1, 6)})
CLAIMED.update({"C%02d" % i: "life" for i in range(6, 11)})
CLAIMED.update(C24="conc", C20="udp", C21="udp", C23="link", C27="ports", C28="many")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        t, note = TECH[CLAIMED[p]]
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
