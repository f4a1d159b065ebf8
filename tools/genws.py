#!/usr/bin/env python3
"""Generate a cargo workspace that compiles the repository's own crates against the shim crates.

usage: genws.py OUT_DIR [REPO [VERIF]]
Every generated member keeps its package name and points `[lib] path` at the repository's source file.
"""
import sys, os, glob, tomllib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import genrt
OUT = os.path.abspath(sys.argv[1])
REPO = os.path.abspath(sys.argv[2]) if len(sys.argv) > 2 else '/repo'
VERIF = os.path.abspath(sys.argv[3]) if len(sys.argv) > 3 else os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = VERIF + '/shim'
CRATES_IO = {  # served from the offline cargo registry
    'serde': '{ version = "1", features = ["derive", "alloc", "rc"] }', 'serde_json': '{ version = "1", features = ["alloc"] }',
    'sha2': '"0.10"', 'hex': '{ version = "0.4", features = ["alloc"] }', 'log': '"0.4"', 'parking_lot': '"0.12"', 'futures': '"0.3"',
    'proc-macro2': '"1"', 'quote': '"1"', 'syn': '{ version = "1", features = ["extra-traits", "fold", "full", "visit"] }',
    'thiserror': '"1"', 'tokio': '{ version = "1", features = ["full"] }',
}
def shim_map():
    m = {}
    for p in glob.glob(SHIM + '/*/Cargo.toml'):
        m[tomllib.load(open(p, 'rb'))['package']['name']] = os.path.dirname(p)
    return m
def repo_members():
    root = tomllib.load(open(REPO + '/Cargo.toml', 'rb'))
    r = {}
    for m in root['workspace']['members']:
        for p in glob.glob(REPO + '/' + m):
            t = tomllib.load(open(p + '/Cargo.toml', 'rb'))
            r[t['package']['name']] = (p, t)
    for extra in ('evm-precompiles/utils/macro', 'ethy-gadget', 'ethy-gadget/rpc'):  # path dependencies that are not listed as members
        if os.path.exists(f'{REPO}/{extra}/Cargo.toml'):
            t = tomllib.load(open(f'{REPO}/{extra}/Cargo.toml', 'rb')); r.setdefault(t['package']['name'], (f'{REPO}/{extra}', t))
    return r, root['workspace'].get('dependencies', {})
SKIP = {'seed-client', 'substrate-wasm-builder'}
def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not (os.path.exists(path) and open(path).read() == text):
        open(path, 'w').write(text)
def sync(src, dst):
    """mirror src into dst by content (never trusting timestamps), so that cargo rebuilds exactly what changed"""
    keep = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules')]
        for f in fs:
            a = os.path.join(d, f); r = os.path.relpath(a, src); b = os.path.join(dst, r); keep.add(r)
            data = open(a, 'rb').read()
            if os.path.exists(b) and open(b, 'rb').read() == data: continue
            os.makedirs(os.path.dirname(b), exist_ok=True); open(b, 'wb').write(data)
    for d, ds, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in keep: os.remove(os.path.join(d, f))
def main():
    global REPO, VERIF, SHIM
    S = OUT + '/src'
    for x in ('pallet', 'primitives', 'evm-precompiles', 'ethy-gadget', 'runtime', 'client'):
        if os.path.isdir(f'{REPO}/{x}'): sync(f'{REPO}/{x}', f'{S}/repo/{x}')
    os.makedirs(S + '/repo', exist_ok=True); put(S + '/repo/Cargo.toml', open(REPO + '/Cargo.toml').read())
    sync(SHIM, S + '/shim'); sync(VERIF + '/harness', S + '/harness')
    REPO, VERIF, SHIM = S + '/repo', S, S + '/shim'
    shim = shim_map(); members, wsdeps = repo_members()
    # sub-crates with a path dependency that are not themselves listed as members
    def resolve(name, key, v):
        """-> manifest line or None when the dependency is unavailable"""
        pkg = key
        if isinstance(v, dict):
            if v.get('workspace'):
                w = wsdeps.get(key, {})
                pkg = (w.get('package', key) if isinstance(w, dict) else key)
            pkg = v.get('package', pkg)
        ren = f'package = "{pkg}", ' if pkg != key else ''
        if pkg in shim: return f'{key} = {{ {ren}path = "{shim[pkg]}" }}'
        if pkg in members and pkg not in SKIP: return f'{key} = {{ {ren}path = "{OUT}/members/{pkg}" }}' if pkg in wanted else None
        if pkg in CRATES_IO: return f'{key} = {CRATES_IO[pkg]}'
        return None
    wanted = {n for n in members if n not in SKIP and (n == 'ethy-gadget-rpc' or not n.endswith(('-rpc', '-rpc-runtime-api')))}
    names = []
    for n in sorted(wanted):
        p, t = members[n]
        lib = t.get('lib', {})
        src = os.path.join(p, lib.get('path', 'src/lib.rs'))
        if not os.path.exists(src): continue
        lines, seen = [], set()
        dev = []
        for sec, out in (('dependencies', lines), ('dev-dependencies', dev)):
            for k, v in t.get(sec, {}).items():
                if isinstance(v, dict) and v.get('optional') and k != 'similar-asserts': continue
                l = resolve(n, k, v)
                if l and (sec != 'dev-dependencies' or k not in seen): out.append(l)
                seen.add(k)
        if n == 'seed-runtime':
            have = {l.split(' = ')[0].replace('-', '_') for l in lines}
            hand = VERIF + '/harness/seed-runtime/lib.rs'
            put(f'{OUT}/gen/seed-runtime/lib.rs', genrt.gen(p, have, {k for k in have if any(k.replace('_', '-') == m or k == m for m in members)}, open(hand).read()))
            src = f'{OUT}/gen/seed-runtime/lib.rs'
        feats = set(t.get('features', {})) | {'std'}
        feats.discard('default')
        f = 'default = ["std"]\n' + ''.join(f'{x} = []\n' for x in sorted(feats))
        pm = 'proc-macro = true\n' if lib.get('proc-macro') else ''
        ln = f'name = "{lib["name"]}"\n' if 'name' in lib else ''
        text = f'[package]\nname = "{n}"\nversion = "{t["package"].get("version") if isinstance(t["package"].get("version"), str) else "1.0.0"}"\nedition = "2021"\n[lib]\n{ln}{pm}path = "{src}"\ndoctest = false\n[features]\n{f}[dependencies]\n' + '\n'.join(lines) + '\n[dev-dependencies]\n' + '\n'.join(dev) + '\n'
        put(f'{OUT}/members/{n}/Cargo.toml', text); names.append(n)
    # harness crates: <verif>/harness/<name>/deps lists one dependency name per line (package name or key=package)
    for d in sorted(glob.glob(VERIF + '/harness/*/deps')):
        hd = os.path.dirname(d); n = os.path.basename(hd); lines = []
        for l in open(d).read().split('\n'):
            l = l.strip()
            if not l or l.startswith('#'): continue
            k, _, pk = l.partition('=')
            pk = pk or k
            if os.path.isdir(f'{VERIF}/harness/{pk}'): lines.append(f'{k} = {{ path = "{OUT}/members/{pk}" }}'); continue
            r = resolve(n, k, {'package': pk})
            if r is None: sys.exit(f'{n}: cannot resolve {l}')
            lines.append(r)
        kind = f'[lib]\npath = "{hd}/src/lib.rs"\ndoctest = false\n' if os.path.exists(hd + '/src/lib.rs') else f'[[bin]]\nname = "{n}"\npath = "{hd}/src/main.rs"\n'
        put(f'{OUT}/members/{n}/Cargo.toml', f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\n{kind}[features]\ndefault = ["std"]\nstd = []\n[dependencies]\n' + '\n'.join(lines) + '\n')
        names.append(n)
    put(f'{OUT}/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"members/{n}"' for n in names) + ']\n[profile.dev]\nopt-level = 1\ndebug = 1\nincremental = true\noverflow-checks = true\ndebug-assertions = true\n[profile.test]\nopt-level = 0\n')
    for p in glob.glob(OUT + '/members/*'):
        if os.path.basename(p) not in names: shutil.rmtree(p)
main()
