#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
RT = "real process_instruction, executed in-process through the runtime's account ABI under a stand-in for the runtime (ed25519 precompile, system program, instructions sysvar, account-change and rent rules); trusts that stand-in and that SHA-256/ed25519 are unforgeable; holds on everything enumerated, within the stated bounds"
CLI = "the real spl-slashing binary, run against a mock cluster that executes the real program; trusts the mock cluster's RPC semantics and the runtime stand-in; holds on everything enumerated, within the stated bounds"
P = "exhaustive enumeration of a bounded product space on the real code, against an independent reference model"
H = "explicit-state breadth-first exploration of all bounded transaction histories on the real program, every transition compared with a reference model, plus exhaustive product spaces"
F = "exhaustive enumeration of single request faults over every request of the real client's runs against a mock cluster"
S = "exhaustive enumeration of interleavings: every order of two real clients' mutually visible requests, and every action of another party before every request, against a mock cluster under a controlled scheduler"
V = "exhaustive enumeration of a forking cluster's views (processed, confirmed, final) and of late and abandoned confirmation of every transaction of the real client's runs"
L = "explicit-state breadth-first exploration of all bounded histories of commands, each run with the real client on a mock cluster and killed after every transaction it gets executed, every step compared with a reference model"
checks = {
 "C01": ("exploration", P, RT), "C02": ("exploration", P, RT), "C03": ("exploration", P, RT),
 "C04": ("exploration", P, RT), "C05": ("exploration", P, RT),
 "C06": ("model_checking", H, RT), "C07": ("model_checking", H, RT), "C08": ("exploration", P, RT),
 "C09": ("model_checking", H, RT), "C10": ("exploration", P, RT), "C11": ("exploration", P, RT),
 "C12": ("exploration", P, RT), "C13": ("exploration", P, RT), "C14": ("exploration", P, RT),
 "C15": ("exploration", P, RT),
}
checks.update({
 "C16": ("exploration", P, CLI), "C17": ("exploration", P, CLI), "C18": ("exploration", P, CLI),
 "C19": ("fault_enumeration", F, CLI), "C20": ("fault_enumeration", F, CLI), "C21": ("exploration", P, CLI),
 "C22": ("exploration", P, CLI), "C23": ("fault_enumeration", F, CLI), "C24": ("exploration", S, CLI),
 "C25": ("fault_enumeration", V, CLI),
 "C26": ("model_checking", L, CLI),
})
na = []
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [
    {"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
     "evidence_file": f"evidence/{k}.json", "technique": t, "level": l, "level_note": n}
    for k, (l, t, n) in sorted(checks.items())], "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed through the public interface. Replay a violation with ./check.sh replay <file>."}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
