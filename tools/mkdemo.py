#!/usr/bin/env python3
"""mkdemo.py ID PKG DIR   fill seeded/ID with demo.sh and shim.tgz; ID/demo.rs is a test module which is compiled
inside package PKG (sources in REPO/DIR/src) against the shim crates"""
import sys, os, io, tarfile, gzip, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, pkg, d = sys.argv[1:4]; O = f'{V}/seeded/{i}'; os.makedirs(O, exist_ok=True)
b = io.BytesIO()
with tarfile.open(fileobj=b, mode='w') as t:
    fs = sorted(subprocess.run(['git', 'ls-files', 'shim', 'tools/genws.py', 'tools/genrt.py', 'harness/seed-runtime/lib.rs'], cwd=V, capture_output=True, text=True).stdout.split())
    for f in fs:
        ti = tarfile.TarInfo(f); data = open(f'{V}/{f}', 'rb').read(); ti.size = len(data); ti.mode = 0o644; t.addfile(ti, io.BytesIO(data))
open(f'{O}/shim.tgz', 'wb').write(gzip.compress(b.getvalue(), mtime=0))
open(f'{O}/demo.sh', 'w').write(f'''#!/bin/bash
# Compiles demo.rs as a test module of {pkg}, from the sources in the current directory (the repository), with the
# unreachable git dependencies replaced by the stand-ins in shim.tgz, and runs it. Works in a scratch directory only.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
tar xzf "$D/shim.tgz" -C "$T" && python3 "$T/tools/genws.py" "$T/ws" "$R" "$T" || exit 2
S="$T/ws/src/repo/{d}/src"; cp "$D/demo.rs" "$S/vdemo.rs" && printf '\\n#[cfg(test)]\\nmod vdemo;\\n' >> "$S/lib.rs" || exit 2
unset RUSTUP_TOOLCHAIN; export CARGO_TARGET_DIR="${{DEMO_TARGET:-$T/target}}" RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 RUST_MIN_STACK=67108864
cd "$T/ws" && cargo test --offline -q -p {pkg} --lib vdemo
''')
os.chmod(f'{O}/demo.sh', 0o755)
