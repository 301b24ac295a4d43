#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime monitor: round-trip oracle on recorded encode/decode pairs",
 "C02": "runtime monitor: strict reference reader over every encoder output, legal and hostile packet values",
 "C03": "runtime monitor: independent MQTT reader decodes encoder output and compares fields",
 "C04": "runtime monitor: independent MQTT writer lays out legal frames, decoder results compared with what was written",
 "C05": "runtime monitor: per-call consumption and outcome trace checked against single-frame runs",
 "C06": "runtime monitor with stream fault injection at every cut position",
 "C07": "runtime monitor: differential runs under varied read chunking, buffer sizes and interrupted reads",
 "C08": "stress with panic, overflow, hang and abort monitors",
 "C09": "runtime monitor: allocation accounting against bytes delivered, with reads left hanging",
 "C10": "runtime monitor: independent reference reader judges defective frames",
 "C11": "runtime monitor: exhaustive and random primitive traffic against arithmetic definitions",
 "C12": "runtime monitor: exhaustive byte values against transcribed MQTT tables",
 "C13": "runtime monitor: every identifier in every place against the transcribed property table",
 "C14": "runtime monitor: differential encode runs across versions and v5-only content",
 "C15": "online checker of ByteReader operation histories against a reference limit stack",
 "C16": "conservation monitor: element counting and order checking in both directions",
 "C17": "runtime monitor: forwarding histories (decode, encode, decode) of generated and damaged frames",
 "C18": "runtime monitor: serde round trips in six formats with encode and decode comparison",
 "C19": "runtime monitor: interleaved, concurrent and long histories compared with isolated runs",
 "C20": "runtime monitor: differential entry points and constructor postconditions",
 "C21": "AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over the codec workloads",
 "C22": "runtime monitor: gate stream that knows every frame's end records each read issued after it; reader operation histories against what they need",
 "C23": "runtime monitor: thread CPU time and allocator traffic at growing sizes against the linear prediction",
 "C24": "runtime monitor: comparison and clone results of packet pairs against a field-by-field oracle",
 "C25": "runtime monitor: per-thread seccomp filter traps every system call issued during codec calls, interposed C library functions report reads of the clock and the environment",
 "C26": "differential execution monitor: one recorded workload in nine builds and machines (native profiles, features, compilers, WebAssembly, Miri for big-endian, Windows and macOS)",
}
N = {
 "default": "Holds on every execution the monitors observed: systematic sources cover their listed dimension completely, the rest is seeded random generation. Trusts the transcription of the MQTT tables in harness/src/spec.rs, refdec.rs and refenc.rs.",
 "C21": "No report from AddressSanitizer, MemorySanitizer (std rebuilt and instrumented), ThreadSanitizer (std rebuilt) or Miri (stacked and tree borrows, strict leak check) on the executed workloads. Trusts these tools; Miri sees far fewer cases than the others.",
 "C18": "Holds on every packet value sent through JSON and bincode. Trusts serde, serde_json and bincode.",
 "C09": "Bound checked on live heap bytes during decoding, counted by the harness's global allocator; stack use is not counted.",
 "C23": "Growth is measured between sizes n and 64 n or 256 n (thorough up to 1024 n) for fifty-five shapes; work that stays below twelve times the linear prediction plus 25 ms is not noticed.",
 "C24": "Every one of the field paths of all packet types has been the only difference of compared pairs; values within a field are sampled.",
 "C25": "Sees system calls and the C library functions that the standard library reads clocks and environment variables through; process-wide memory is not watched (its effects on results are C19's).",
 "C26": "The same numbered cases in each configuration; on the machines that are interpreted by Miri only a few hundred of them. Machines other than x86-64 Linux are represented by V8 and Miri.",
 "C12": "Byte values are enumerated completely for every coded field; the tables are transcribed from the OASIS standard.",
 "C04": "Legal frames only as far as the reference writer generates them; binary fields that the library types as text are recorded as known findings.",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    cmd = f"checks/{i}.sh" if os.path.exists(os.path.join(root, "checks", i + ".sh")) else f"checks/run.sh {i}"
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick {cmd}", "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                   "technique": T[i], "level": "exploration", "level_note": N.get(i, N["default"])})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the public API and a global allocator in the harness give the monitors everything they need. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
