#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys

VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

NOTES = {
    "C01": ("differential runtime monitoring of generated expressions against an exact rational reference interpreter",
            "Every observed evaluation is compared with exact arithmetic; trusts Python's fractions and the reference grammar. Expressions beyond the generated sizes are not observed."),
    "C02": ("differential runtime monitoring of operator chains against a precedence-climbing reference parser",
            "All operator mixes of short chains plus random long ones are observed; trusts the reference parser (written from the statement, not the code)."),
    "C03": ("differential runtime monitoring of number literals against positional values",
            "Accepted and rejected literals in all 15 radices; trusts Python integers."),
    "C04": ("differential runtime monitoring of the displayed digits against a reference formatter",
            "Every observed display is compared with exact rounding; ties, carries and boundary precisions are generated on purpose."),
    "C05": ("runtime monitoring of fractional output and re-entry of displayed results",
            "Lowest terms, sign and radix of each displayed fraction and a round trip through the calculator itself."),
    "C06": ("runtime monitoring of roots with an exact integer-arithmetic error bound and a CPU-time watchdog",
            "The error bound is decided with exact integer roots, no floating point; degrees up to 12 (plus chosen large degrees)."),
    "C07": ("stress with hostile lines, options and key streams while monitoring panics, signals, answers and liveness",
            "No panic/abort/silent exit in the observed runs; development profile with overflow checks. Very deep nesting is a listed finding."),
    "C08": ("runtime monitoring of acceptance against a reference grammar on exhaustive short and random long token sequences",
            "Accept/reject compared with an independent grammar; values of accepted lines are C01-C03's matter."),
    "C09": ("runtime monitoring of undefined operations planted inside generated expressions",
            "Each expression is known by construction to be undefined; a value or an assignment would be a violation."),
    "C10": ("online monitoring of interactive sessions against a variable-store model",
            "Each answer of a session is compared with a model holding exact values."),
    "C11": ("online monitoring of setting-command histories against a settings model and a freshly started calculator",
            "Every evaluation after a command is compared with the model; part of them also with one-shot runs with the equivalent options."),
    "C12": ("online monitoring of invalid commands with full state read-back after each",
            "After each rejected command all settings, probes of variables and the capacity are read back."),
    "C13": ("online monitoring of key streams against a line-editor model, observed at the submitted line",
            "The submitted line is observed on the terminal and in the database."),
    "C14": ("online monitoring of history navigation against a model of the histories",
            "Observed at the submitted line and on the displayed prompt."),
    "C15": ("terminal-emulator monitor of the inline prompt after every key (display invariants)",
            "Display invariants are checked against the emulator's screen, not against an exact rendering."),
    "C16": ("terminal-emulator monitor of alternate-screen sessions after every key and answer",
            "Full-window comparison against the wrapped line, cursor and answers; lines that fit the window."),
    "C17": ("offline checker of the saved-history file after every submitted line, against a bounded-list model",
            "The database file is dumped after every step and compared with the model and with well-formedness rules."),
    "C18": ("online and offline monitoring of variables over sequential and overlapping sessions against a two-level store model",
            "Values compared exactly, in answers and in the database file."),
    "C19": ("offline checker of stored variables after every step against a last-mention model",
            "Stored variables and their last mention are compared with the model after every submitted line."),
    "C20": ("stress of concurrent sessions with injected delays at database file operations; offline conservation/order checker",
            "Exactly-once, per-session order and well-formedness are checked over recorded histories; schedules are sampled."),
    "C21": ("kill injection before file-system calls with recovery oracle",
            "SIGKILL before the N-th file-system call for every N of each workload; recovery by the real binary."),
    "C22": ("fault injection (ENOSPC/EIO) at file-system calls with session and recovery oracle",
            "Every call of a workload is failed once or persistently; answers, session liveness and stored data are checked."),
    "C23": ("file-system call monitor and byte comparison of the data directory in modes without a database",
            "All path-taking calls are observed through a preload shim, the directory is compared byte for byte."),
    "C24": ("runtime monitoring on generated and damaged databases with answer and byte-comparison oracle",
            "Databases are written from the reference schema and damaged field by field."),
    "C25": ("monitor of terminal modes, alternate-screen sequences and exit status on every way out",
            "termios of the pty is compared before and after; sessions are ended in random editing states."),
    "C26": ("AddressSanitizer/UBSan and overflow-checked builds under the workloads of the other properties",
            "Sanitized Rust and C (SQLite) code under mixed workloads."),
    "C27": ("recorded file-system calls replayed onto a disk model that loses unsynced writes, recovery by the real binary",
            "Power loss is simulated at every recorded call with several subsets of unsynced writes lost."),
    "C28": ("online monitoring of help texts against the availability observed by executing the commands",
            "Relations between help texts and behaviour are checked in all kinds of sessions."),
    "C29": ("runtime monitoring of random command lines against the documented settings, refusals and defaults",
            "Effects are observed in answers, setting queries, screen and files; only documented options and clap's usual spellings are generated."),
    "C30": ("metamorphic monitoring: the same lines in several kinds of sessions and fresh one-shot runs must answer alike",
            "No reference interpreter is involved, so irrational results and error messages are covered too; wrong answers common to all modes are other checks' matter."),
    "C31": ("stress with type-ahead of random piece sizes and timings against a model of keys typed one at a time",
            "Schedules are sampled; at most about 400 bytes are unread at a time, and pieces never cut an escape sequence in two."),
    "C32": ("monitoring of the bytes on every standard stream, the unread input, terminal modes and exit status of one-shot runs",
            "Streams are pipes, files, pseudo-terminals, /dev/full and broken pipes; environments are sampled."),
    "C33": ("monitoring of recorded file-system calls and of the whole scratch tree around sessions with hostile directory names and spellings",
            "Names and spellings are sampled from hostile pools; the journal is recognised by its name beside the database."),
    "C34": ("monitoring of locks, processor time, open files and memory of waiting sessions; signals and hang-ups injected",
            "Waiting is recognised by the process sleeping in poll with nothing unread; memory may grow up to 2500 KiB over 200 inputs."),
    "C35": ("monitoring of the saved data by a second implementation of its format that takes turns with real sessions",
            "The second implementation is a transcription of the statements the first build of this version uses; turns alternate, sessions of both never overlap."),
    "C36": ("online monitoring of error messages against the causes found by a reference grammar and an evaluation of all subexpressions",
            "Messages are classified by a few words; beyond these and the quoted names their wording is free."),
}
LEVEL = {"C21": "fault_enumeration", "C22": "fault_enumeration", "C27": "fault_enumeration"}

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(VERIF, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": NOTES[i][0],
            "level": LEVEL.get(i, "exploration"),
            "level_note": NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed at the process boundary (standard streams, "
              "pseudo-terminal, database file, file-system calls)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
