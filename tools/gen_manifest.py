#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "results compared online with an independent reference model (self-tested on published ANSI X9.24 vectors)"
T = {
 "C01": ("reference-model monitor", REF),
 "C02": ("reference-model monitor", REF + "; counters include every weight up to ten"),
 "C03": ("reference-model monitor", REF),
 "C04": ("trace monitor over KSN progressions", "the whole TDES counter space is walked and counted; other KSNs are sampled"),
 "C05": ("trace monitor over KSN progressions", "sampled runs of the 32-bit counter space, every structural boundary included"),
 "C06": ("reference-model monitor", REF),
 "C07": ("reference-model monitor", REF),
 "C08": ("round-trip and reference-model monitor", REF + "; known finding: PINs of 10 to 12 digits in the ISO-0 family"),
 "C09": ("round-trip and reference-model monitor", REF),
 "C10": ("panic monitor over hostile inputs", "panics are caught per call; also dead or stuck processes"),
 "C11": ("rejection monitor over malformed inputs", "each malformed class is driven at library, unified and service interfaces"),
 "C12": ("buffer canary and aliasing monitor", "argument bytes, spare capacity and address ranges are compared before and after each call"),
 "C13": ("race detector and reference-model monitor under concurrency", "the Go race detector sees the interleavings that happened"),
 "C14": ("race detector and offline linearizability checker over recorded histories", "porcupine against a sequential model; many short histories with injected delays"),
 "C15": ("race detector and offline atomicity checker over recorded histories", "results are attributed to the KSN under which they were computed, then porcupine"),
 "C16": ("race detector and offline linearizability checker over recorded histories", "porcupine against a registry model, repository and service"),
 "C17": ("state-conservation monitor with fault injection", "all machines are compared before and after each call, storage faults injected"),
 "C18": ("trace monitor over whole device lives", "all 1,048,575 TDES pairs recorded and checked for repetition; AES lives sampled"),
 "C19": ("reference-model monitor at the HTTP boundary", REF),
 "C20": ("response monitor with fault injection", "success is decided by a twin call at the service"),
 "C21": ("panic and response monitor over hostile requests", "raw TCP bytes; server error log watched"),
 "C22": ("reference-model monitor of the program", REF),
 "C23": ("exit and output monitor of the program", "missing and invalid options enumerated per operation, values sampled"),
 "C24": ("race detector, response and termination monitor of the program", "in-flight requests are confirmed to be inside handlers before the signal"),
 "C25": ("handshake and response monitor of the program", "control server shows that the old-version clients would succeed if allowed"),
 "C26": ("log monitor of the program (secret search)", "unique random secrets in all usual renderings; control shows the search finds them"),
 "C27": ("header monitor at the HTTP boundary", "origin rule written independently"),
 "C28": ("reference-model monitor", "reference is the Go standard library's block ciphers"),
 "C29": ("reference-model monitor", REF),
 "C31": ("statistical monitor of PIN block fill", "fills are read with the reference model; limits on equal fills are far above chance, so that a false alarm is practically impossible"),
 "C32": ("resource monitor (heap, goroutines, files)", "growth must go on in longer rounds to count, so that bounded caches are allowed"),
 "C33": ("termination, output and socket monitor of the program", "reasons come from the same failing calls made by the check"),
 "C34": ("connection monitor of the program", "sockets of the process in /proc tell when a connection was given up; 60 s of slack beyond each limit"),
 "C35": ("response and state monitor at both addresses of the program", "undocumented paths are enumerated and taken from the code's own literals; others are sampled"),
 "C36": ("log grammar monitor of the program", "every line of every process is parsed; controls show that the parser refuses broken records"),
 "C37": ("system-call monitor (strace), /proc and directory monitor of the programs", "a control shows that strace sees the calls; where it is not usable only /proc and the directories are watched"),
 "C38": ("response form monitor at the handler and on the connection", "own strict JSON reader; headers sampled from known names, near misses and the code's literals"),
 "C30": ("race detector and isolation monitor", "handed-out machines are overwritten and compared"),
}
checks = []
for i in sorted(T):
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check %s thorough" % i, "technique": "runtime monitoring: " + t, "level": "exploration",
                   "level_note": "Held on the executions reported in the evidence, not verified. Oracle: %s. Trusted: Go toolchain and standard library, the reference model in harness/ref." % n})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every monitor observes at exported interfaces and process boundaries. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
