"""Targets the interpreter can run for the systems and machines named (in quotes) in the source: c26_named.py <src> <targets run anyway>"""
import pathlib, re, sys

TARGETS = {
    "freebsd": "x86_64-unknown-freebsd",
    "android": "aarch64-linux-android",
    "solaris": "x86_64-pc-solaris",
    "illumos": "x86_64-unknown-illumos",
    "musl": "x86_64-unknown-linux-musl",
    "msvc": "x86_64-pc-windows-msvc",
    "riscv64": "riscv64gc-unknown-linux-gnu",
    "mips": "mips-unknown-linux-gnu",
    "sparc64": "sparc64-unknown-linux-gnu",
    "loongarch64": "loongarch64-unknown-linux-gnu",
    "aarch64": "aarch64-unknown-linux-gnu",
    "powerpc64": "powerpc64le-unknown-linux-gnu",
    "s390x": "s390x-unknown-linux-gnu",
    "arm": "armv7-unknown-linux-gnueabihf",
    "x86": "i686-unknown-linux-gnu",
}
text = "\n".join(p.read_text(errors="replace") for p in sorted(pathlib.Path(sys.argv[1]).rglob("*.rs")))
out = []
for name, target in TARGETS.items():
    if re.search(rf'"{name}"', text) and target not in sys.argv[2:] and target not in out:
        out.append(target)
print(" ".join(out[:4]))
