#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "SETs and GETs by 2-6 connections (and hauls of 67 000 requests) on 1-4 cores; joint linearizability search over keys with time bounds",
 "C02": "as C01 with time to live; simulated clocks, coarse-tick granularity, wall-clock jumps, stalls at expiry",
 "C03": "pipelines of mixed commands, replies matched to requests one to one",
 "C04": "requests cut at any offset and delayed, short reads, sizes across the buffer boundaries",
 "C05": "big replies against short writes, blocked sends, stalling and slow readers",
 "C06": "hostile byte streams, commands with thousands of elements, aborts and vanishing peers next to honest connections",
 "C07": "malformed request at any place of a pipeline; closes in bound, no reply after, no effect",
 "C08": "pipelines followed by end of stream at every schedule the seeds reach",
 "C09": "ids asked for by HELLO, ID, INFO, LIST over connect/disconnect histories of up to 66 500 connections",
 "C10": "listings against the history of up to 5000 connections at once, 66 500 one after the other",
 "C11": "names against a per-connection register",
 "C12": "hostile text in every text position; strict RESP3 reader",
 "C13": "errors injected into accept, address queries and socket options",
 "C14": "non-reading, half-sending, idle, flooding, vanishing clients, alone and in crowds of 150 with up to 2 MB each, next to honest ones",
 "C15": "connection churn, all endings; sockets, double closes and live heap of the real code",
 "C16": "limits 1-18, more clients than the limit, all endings, set-up errors",
 "C18": "the program from main on: configuration files, environments, .env files, read errors and short reads, failing system calls at start; addresses listened on, limit enforced, exit status",
 "C19": "connections left idle, half-sent, unread, half-closed, waiting for the limit, accept failing for long; processor time over idle stretches of up to minutes",
 "C20": "standard output and error failing (EPIPE, ENOSPC, EIO, EAGAIN) or blocking for ever, from main on or at any moment, next to the workloads of C01, C03, C06-C08, C10-C14",
}
checks = []
for p, n in NOTE.items():
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
        "level": "exploration",
        "level_note": n + ". The whole real server runs in one process; seeds explored, not all executions. "
                      "Sequentially consistent memory, switches at atomic operations and system calls of the instrumented crates.",
    })
na = [
 {"property": "C17", "reason": "pure function of the number of parts and the key; no concurrency, time, I/O or fault to simulate, and no caller uses more than one part"},
]
json.dump({"version": 1, "setup_cmd": "./sim/build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
