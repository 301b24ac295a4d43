"""Compares what the differently built copies of the library did (C26), writes evidence and replay."""
import glob, json, os, re, struct, subprocess, sys, time

root, w, seed, tier, t0 = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[5])
BASE = f"{root}/target/release/trace"
WASM = f"{root}/target/c26-wasm/wasm32-unknown-unknown/release/wasmmon.wasm"
PANIC = None
NAMES = {
    "plain": "optimised, no overflow checks, no debug assertions",
    "small": "optimised for size, whole-program",
    "cpu": "optimised for the processor at hand",
    "serde": "with the serde feature",
    "nightly": "another compiler version",
    "unopt": "not optimised",
    "wasm": "WebAssembly (32 bit)",
    "powerpc-unknown-linux-gnu": "PowerPC (32 bit, big endian)",
    "s390x-unknown-linux-gnu": "s390x (64 bit, big endian)",
    "armv7-unknown-linux-gnueabihf": "ARM (32 bit)",
    "i686-pc-windows-gnu": "Windows (32 bit)",
    "aarch64-apple-darwin": "macOS (ARM)",
}
named = (open(f"{w}/named").read() if os.path.exists(f"{w}/named") else "").split()
NAMES.update({t: t for t in named if t not in NAMES})
NATIVE = {"plain": "plain", "small": "small", "cpu": "plain", "serde": "plain", "nightly": "plain", "unopt": "unopt"}
violations, unclear, observed = [], [], {}


def rd(p, mode="r"):
    try:
        with open(p, mode) as f:
            return f.read()
    except OSError:
        return None


def tail(p, n=40):
    return "\n".join((rd(p) or "").splitlines()[-n:])


def counts(text):
    return {k: int(v) for k, v in re.findall(r"^([a-z][^=\n]*)=(\d+)$", text or "", re.M)}


def show(config, idx):
    """the case in words, as this configuration sees it"""
    env = dict(os.environ)
    if config == "base-small":
        cmd = [BASE, "show", seed, "1", str(idx)]
    elif config == "base":
        cmd = [BASE, "show", seed, "0", str(idx)]
    elif config in NATIVE:
        cmd = [f"{root}/target/c26-{config}/{NATIVE[config]}/trace", "show", seed, "0", str(idx)]
    elif config == "wasm":
        cmd = ["node", f"{root}/wasmmon/run.js", WASM, f"{w}/dict", seed, "show", str(idx)]
    else:
        env["CARGO_TARGET_DIR"] = f"{root}/target/c26-miri-{config}"
        env["MIRIFLAGS"] = "-Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", config, "--manifest-path", f"{root}/harness/Cargo.toml", "--bin", "trace", "--", "show", seed, "1", str(idx)]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=60, errors="replace")
        return r.stdout if r.returncode == 0 else r.stdout + f"(ended with {r.returncode})\n" + r.stderr[-1500:], " ".join(cmd)
    except subprocess.TimeoutExpired:
        return "(no answer)", " ".join(cmd)


def violation(config, what, body):
    p = f"{root}/replays/C26-{config}-{seed}.replay"
    with open(p, "w") as f:
        f.write(f"property: C26\nseed: {seed}\ntier: {tier}\nconfiguration: {config} ({NAMES.get(config, config)})\nwhat: {what}\n{body}\n")
    violations.append((p, f"{NAMES.get(config, config)}: {what}"))


def differs(config, idx, small):
    ref = "base-small" if small else "base"
    a, ca = show(ref, idx)
    b, cb = show(config, idx)
    la, lb = a.splitlines(), b.splitlines()
    k = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
    what = f"case {idx} comes out differently: {(la[k] if k < len(la) else '(nothing)')[:300]} against {(lb[k] if k < len(lb) else '(nothing)')[:300]}"
    violation(config, what, f"reference: {ca}\nother: {cb}\n--- reference\n{a[:20000]}\n--- {config}\n{b[:20000]}")


def ended(config, part, idx_hint=""):
    rc = (rd(f"{w}/{config}.{part}.rc") or "").strip()
    if rc == "0":
        return True
    err = tail(f"{w}/{config}.{part}.err")
    if rc == "7":
        at = re.search(r"^STUCK (\d+)$", rd(f"{w}/{config}.{part}.out") or "", re.M)
        at = at[1] if at else "?"
        violation(config, f"case {at} (or one of the fifteen after it) does not end, where the reference is done at once", f"reference: {BASE} show {seed} 0 {at}\n{show('base', at)[0][:8000]}")
        return False
    # 124: time limit; 137: killed from outside
    if rc in ("124", "137", "", "2"):
        unclear.append(f"{config}: run {part} ended with {rc or 'nothing'}")
    elif rc.isdigit() and (int(rc) >= 128 or "abnormal termination" in err or "process abort" in err):
        violation(config, f"the process ended abnormally ({rc}) where the reference did not", err)
    else:
        unclear.append(f"{config}: run {part} ended with {rc}: {err[-600:]}")
    return False


# the reference itself must have run
for c, p in (("base", 0), ("small-base", 0)):
    rc = (rd(f"{w}/{c}.{p}.rc") or "").strip()
    if rc != "0":
        print(f"inconclusive: the reference run ended with {rc}\n{tail(f'{w}/{c}.{p}.err')}", file=sys.stderr)
        sys.exit(2)
base = rd(f"{w}/base.bin", "rb")
bc = counts(rd(f"{w}/base.0.out"))
small = {int(a): (b, c) for a, b, c in re.findall(r"^(\d+) ([0-9a-f]{16}) ([0-9a-f]{16})$", rd(f"{w}/small-base.0.out"), re.M)}
configs = list(NATIVE) + ["wasm"] + [c for c in NAMES if os.path.exists(f"{w}/{c}.log") and "-" in c]
compared = 0
for c in configs:
    b = (rd(f"{w}/{c}.build") or "").strip()
    if b != "0":
        log = rd(f"{w}/{c}.log") or ""
        if b == "101" and re.search(r"could not compile `mqtt_packet_3_5`", log) or (b != "124" and re.search(r"^error.*\n\s+--> /repo/src", log, re.M)):
            violation(c, "the library does not compile in this configuration", tail(f"{w}/{c}.log", 60))
        else:
            unclear.append(f"{c}: the build ended with {b or 'nothing'}: {tail(f'{w}/{c}.log', 8)}")
        continue
    n = 0
    if "-" not in c:
        parts = sorted(glob.glob(f"{w}/{c}.[0-9].rc"))
        if not parts:
            unclear.append(f"{c}: did not run")
        at = 0
        for pf in parts:
            p = int(pf.split(".")[-2])
            if not ended(c, p):
                continue
            for k, v in counts(rd(f"{w}/{c}.{p}.out")).items():
                observed[f"{k} ({c})"] = observed.get(f"{k} ({c})", 0) + v
            d = rd(f"{w}/{c}.bin" if c != "wasm" else f"{w}/{c}.{p}.bin", "rb")
            # parts of one configuration follow each other
            at = p * len(d)
            ref = base[at:at + len(d)]
            n += len(d) // 16
            if ref == d:
                continue
            bad = [i for i in range(len(d) // 16) if d[16 * i:16 * i + 16] != ref[16 * i:16 * i + 16]]
            if any(d[16 * i:16 * i + 8] != ref[16 * i:16 * i + 8] for i in bad):
                i = next(i for i in bad if d[16 * i:16 * i + 8] != ref[16 * i:16 * i + 8])
                unclear.append(f"{c}: case {at // 16 + i} had another input than in the reference")
                continue
            observed[f"cases that differ ({c})"] = len(bad)
            differs(c, at // 16 + bad[0], False)
    else:
        for pf in sorted(glob.glob(f"{w}/{c}.[0-9].rc")):
            p = int(pf.split(".")[-2])
            if not ended(c, p):
                continue
            out = rd(f"{w}/{c}.{p}.out")
            for k, v in counts(out).items():
                observed[f"{k} ({c})"] = observed.get(f"{k} ({c})", 0) + v
            for a, x, y in re.findall(r"^(\d+) ([0-9a-f]{16}) ([0-9a-f]{16})$", out, re.M):
                a = int(a)
                if a not in small:
                    continue
                n += 1
                if (x, y) == small[a]:
                    continue
                if x != small[a][0]:
                    unclear.append(f"{c}: case {a} had another input than in the reference")
                else:
                    differs(c, a, True)
                break
    if n == 0 and not any(f"{NAMES.get(c, c)}:" in v[1] for v in violations) and not any(u.startswith(c + ":") for u in unclear):
        unclear.append(f"{c}: nothing was compared")
    compared += n
    observed[f"cases compared ({c})"] = n

ins = {base[i:i + 8] for i in range(0, len(base), 16)}
for k, v in bc.items():
    observed[f"{k} (reference)"] = v
samples = []
for i in (0, 6, 11):
    samples.append(f"[case {i}] " + re.sub(r"\s+", " ", show("base", i)[0])[:500])
ev = {
    "property": "C26", "tier": tier, "seed": int(seed), "level": "exploration",
    "coverage": {
        "evaluations": compared,
        "distinct_nontrivial": len(ins),
        "rule": "One fixed workload (streams in pieces, damaged and failing; packets legal and hostile at all versions; reader, writer and code-table operations; constructors, comparison, cloning) with every result folded into one number per case; an evaluation is one case of one configuration compared with the reference, distinct by input.",
        "samples": samples,
        "observed": observed,
        "configurations": {c: NAMES[c] for c in configs},
    },
    "assumptions": ["the wording of errors and the order in which a map yields user properties with different keys are free", "the machines other than x86-64 are represented by V8 running WebAssembly and by the Miri interpreter"],
    "wall_s": round(time.time() - t0, 1),
    "violations": len(violations),
}
os.makedirs(f"{root}/evidence", exist_ok=True)
with open(f"{root}/evidence/C26.json", "w") as f:
    json.dump(ev, f, indent=1)
for p, m in violations[:6]:
    print(f"VIOLATION property=C26 replay={p}")
    print(f"  {m[:700]}")
# a target that only runs because the source names it may not be available here
skipped = [u for u in unclear if u.split(":")[0] in named]
unclear = [u for u in unclear if u not in skipped]
for u in skipped:
    print(f"note: {u}", file=sys.stderr)
for u in unclear:
    print(f"inconclusive: {u}", file=sys.stderr)
if violations:
    sys.exit(1)
if unclear:
    sys.exit(2)
print(f"OK property=C26 evaluations={compared} distinct_nontrivial={len(ins)} configurations={len(configs)} wall={ev['wall_s']}s")
