"""Derive a runtime crate for the shim workspace from the repository's own runtime/src/lib.rs.

`gen(runtime_dir, out_file, have, hand)` copies every top-level item of lib.rs whose pallets and crates exist in the shim
workspace (`have`) and leaves out the ones that need a crate which is not installed; the few things the left-out
pallets provided are hand-written in harness/seed-runtime/src/lib.rs.
"""
import re, os
# pallets of construct_runtime! that have no stand-in, by crate path
DROP_PALLETS = {'pallet_babe', 'pallet_recovery', 'pallet_multisig', 'pallet_authorship', 'pallet_offences', 'pallet_grandpa', 'pallet_session::historical',
                'pallet_preimage', 'pallet_election_provider_multi_phase', 'pallet_bags_list'}
# crates whose Config is written by hand
HAND_CONFIG = {'pallet_session', 'pallet_staking', 'pallet_im_online', 'pallet_session::historical'} | DROP_PALLETS
DROP_LEAVES = {'generate_solution_type', 'onchain', 'SequentialPhragmen', 'impl_runtime_apis', 'impl_opaque_keys', 'NativeVersion', 'RuntimeVersion', 'GrandpaId', 'fg_primitives',
               'GrandpaAuthorityList', 'OnChainAccuracy', 'OpaqueMetadata', 'create_runtime_str', 'TransactionStatus', 'EVMAccount', 'StakerStatus', 'TrackedStorageKey', 'transact'}
DROP_PARAMS = {'Version', 'MaxNominations', 'OffchainSolutionWeightLimit', 'OffchainSolutionLengthLimit', 'RuntimeBlockWeights', 'RuntimeBlockLength', 'BagThresholds', 'Preimage'}
DROP_MODS = {'staking', 'weights', 'bag_thresholds', 'tests', 'benches', 'keys'}
def skip_lit(s, i):
    """if a comment/string/char literal starts at i return its end, else i"""
    if s.startswith('//', i):
        j = s.find('\n', i); return len(s) if j < 0 else j
    if s.startswith('/*', i):
        d, j = 1, i + 2
        while d and j < len(s):
            if s.startswith('/*', j): d += 1; j += 2
            elif s.startswith('*/', j): d -= 1; j += 2
            else: j += 1
        return j
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m: return s.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
    if s[i] == '"':
        j = i + 1
        while s[j] != '"': j += 2 if s[j] == '\\' else 1
        return j + 1
    if s[i] == "'":
        m = re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)
        if m: return m.end()
    return i
def items(s):
    """top-level items as text, leading attributes and comments included"""
    out, start, i, depth = [], 0, 0, 0
    while i < len(s):
        j = skip_lit(s, i)
        if j != i: i = j; continue
        c = s[i]
        if c in '([{': depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0 and c == '}':
                # attribute? no: those end with ']'
                k = i + 1
                while k < len(s) and s[k].isspace(): k += 1
                if k < len(s) and s[k] == ';': i = k
                out.append(s[start:i + 1]); start = i + 1
        elif c == ';' and depth == 0:
            out.append(s[start:i + 1]); start = i + 1
        i += 1
    return out
def strip(item):
    """(attributes, body) with comments removed from the front"""
    attrs, i = [], 0
    while i < len(item):
        if item[i].isspace(): i += 1; continue
        if item.startswith('//', i) or item.startswith('/*', i): i = skip_lit(item, i); continue
        if item.startswith('#', i):
            j = item.index('[', i); d, k = 0, j
            while True:
                e = skip_lit(item, k)
                if e != k: k = e; continue
                if item[k] == '[': d += 1
                if item[k] == ']':
                    d -= 1
                    if d == 0: break
                k += 1
            attrs.append(item[i:k + 1]); i = k + 1; continue
        break
    return attrs, item[i:].rstrip()
def nocom(s):
    o, i = [], 0
    while i < len(s):
        if s.startswith('//', i) or s.startswith('/*', i): i = skip_lit(s, i); continue
        j = skip_lit(s, i)
        if j != i: o.append(s[i:j]); i = j; continue
        o.append(s[i]); i += 1
    return ''.join(o)
def leaves(tree, pre=''):
    """expand a use tree -> [(path, alias)]"""
    tree = tree.strip()
    i = tree.find('{')
    if i < 0:
        m = re.match(r'(.*?)\s+as\s+(\w+)$', tree, re.S)
        p, a = (m.group(1).strip(), m.group(2)) if m else (tree, None)
        p = pre + p
        if p.endswith('::self'): p = p[:-6]
        return [(p, a)]
    head = tree[:i].strip(); body = tree[i + 1:tree.rindex('}')]
    out, d, cur = [], 0, ''
    for c in body:
        if c == '{': d += 1
        if c == '}': d -= 1
        if c == ',' and d == 0:
            if cur.strip(): out += leaves(cur, pre + head)
            cur = ''
        else: cur += c
    if cur.strip(): out += leaves(cur, pre + head)
    return out
def split_entries(body, sep):
    out, d, cur, i = [], 0, '', 0
    while i < len(body):
        j = skip_lit(body, i)
        if j != i: cur += body[i:j]; i = j; continue
        c = body[i]
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == sep and d == 0: out.append(cur); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return out
def gen(rdir, have, local, hand):
    w, ext = weights(rdir, local)
    hand_names = set(re.findall(r'pub (?:const |static )?(\w+)\s*:', hand))
    src = open(rdir + '/src/lib.rs').read()
    o = ['// hand-written part: harness/seed-runtime/lib.rs\n' + hand.replace('@WEIGHTS@', w).replace('@EXTERNAL@', ext) + '\n// generated from runtime/src/lib.rs\n']
    consts_of = {}
    for it in items(src):
        attrs, b = strip(it)
        if any('feature = "runtime-benchmarks"' in a or 'feature = "try-runtime"' in a or a.replace(' ', '').startswith('#[cfg(test)') for a in attrs): continue
        if any(a.startswith('#!') for a in attrs) and not b: continue
        if b.startswith(('extern crate', 'include!')): continue
        m = re.match(r'(pub(?:\([^)]*\))?\s+)?use\s+(.*);$', b, re.S)
        if m:
            vis = m.group(1) or ''
            for p, a in leaves(nocom(m.group(2))):
                p = re.sub(r'\s+', '', p); root = p.lstrip(':').split('::')[0]; leaf = a or p.split('::')[-1]
                if leaf in DROP_LEAVES or p.split('::')[-1] in DROP_LEAVES: continue
                if root in DROP_MODS or (root not in have and root not in ('crate', 'self', 'super', 'core', 'std', 'alloc') and not os.path.exists(f'{rdir}/src/{root}.rs') and not os.path.isdir(f'{rdir}/src/{root}')): continue
                o.append(f'#[allow(unused_imports)] {vis}use {p}{" as " + a if a else ""};\n')
            continue
        m = re.match(r'(pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*(;|\{)', b)
        if m:
            n = m.group(2)
            if n in DROP_MODS: continue
            if m.group(3) == ';':
                f = f'{rdir}/src/{n}.rs'
                if not os.path.exists(f): f = f'{rdir}/src/{n}/mod.rs'
                o.append(f'#[path = "{f}"] {m.group(1) or ""}mod {n};\n')
            else: o.append(b + '\n')
            continue
        if re.match(r'(pub\s+)?const\s+(VERSION|BABE_GENESIS_EPOCH_CONFIG)\b', b) or re.match(r'pub\s+fn\s+native_version', b): continue
        if re.match(r'(impl_opaque_keys|generate_solution_type|impl_runtime_apis)\s*!', b) or re.match(r'pub\s+struct\s+OnChainSeqPhragmen', b): continue
        m = re.match(r'parameter_types\s*!\s*\{(.*)\}$', b, re.S)
        if m:
            keep = []
            for e in split_entries(m.group(1), ';'):
                n = re.search(r'pub\s+(?:const\s+|static\s+|storage\s+)?(\w+)\s*:', nocom(e))
                if not n or n.group(1) in DROP_PARAMS or n.group(1) in hand_names: continue
                keep.append(nocom(e).strip() + ';')
            o.append('parameter_types! {\n' + '\n'.join(keep) + '\n}\n'); continue
        m = re.match(r'construct_runtime\s*!\s*\((.*)\)\s*;$', b, re.S)
        if m:
            body = nocom(m.group(1)); i = body.index('{'); inner = body[i + 1:body.rindex('}')]
            keep = []
            for e in split_entries(inner, ','):
                if not e.strip(): continue
                mm = re.match(r'\s*(?:#\[[^\]]*\]\s*)*(\w+)\s*:\s*([\w:]+?)(?:::\{|\s*=|\s*$|\s*<)', e)
                path = mm.group(2)
                if path in DROP_PALLETS or path.split('::')[0] not in have: continue
                e = e.strip()
                if path in ('pallet_xrpl', 'pallet_ethereum') and '::{' not in e: e = e.replace(path, path + '::{Pallet, Call, Storage, Event, Origin}')
                keep.append(e)
            o.append('construct_runtime!(\n' + body[:i] + '{\n' + ',\n'.join(keep) + ',\n});\n'); continue
        m = re.match(r'impl(?:<[^{]*?>)?\s+([\w:]+?)::(Config|MinerConfig)\s+for\s+(\w+)', b)
        if m:
            p = m.group(1).lstrip(':')
            if p in HAND_CONFIG or p.split('::')[0] not in have or p == 'onchain': continue
        # bodies may contain cfg(feature = "runtime-benchmarks") members: those stay disabled by the feature
        o.append('\n'.join(a for a in attrs if not a.startswith('#[cfg(feature = "std")') and not a.startswith('#!')) + ('\n' if attrs else '') + b + '\n')
    return ''.join(o)
def weights(rdir, local):
    """the runtime's weights: the real files for the repository's own pallets, unit weights for stand-ins"""
    o, ext = [], []
    for f in sorted(os.listdir(rdir + '/src/weights')):
        n = f[:-3]
        if n == 'mod': continue
        if n in local: o.append(f'#[path = "{rdir}/src/weights/{f}"] pub mod {n};\n')
        else: ext.append(n)
    return ''.join(o), ' '.join(ext)
