#!/usr/bin/env python3
"""mutants.py REPO OUT.json [SEED]: lists small source mutations (file, line, before, after) of the repository's non-test code."""
import re, sys, json, random, os
repo, out = sys.argv[1], sys.argv[2]
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
FILES = """mopaq/src/archive.rs mopaq/src/builder.rs mopaq/src/header.rs mopaq/src/compression/compress.rs
mopaq/src/compression/decompress.rs mopaq/src/compression/methods.rs mopaq/src/crypto/decryption.rs mopaq/src/crypto/encryption.rs
mopaq/src/crypto/hash.rs mopaq/src/crypto/keys.rs mopaq/src/crypto/signature.rs mopaq/src/special_files/attributes.rs
mopaq/src/special_files/listfile.rs mopaq/src/tables/bet.rs mopaq/src/tables/block.rs mopaq/src/tables/common.rs
mopaq/src/tables/hash.rs mopaq/src/tables/het.rs storm-ffi/src/lib.rs storm-cli/src/output.rs storm-cli/src/main.rs
storm-cli/src/commands/archive.rs storm-cli/src/commands/file.rs storm-cli/src/commands/hash.rs storm-cli/src/config.rs""".split()
for d in os.listdir(os.path.join(repo, 'mopaq/src/compression')):
    p = os.path.join(repo, 'mopaq/src/compression', d)
    if os.path.isdir(p):
        FILES += ['mopaq/src/compression/%s/%s' % (d, f) for f in sorted(os.listdir(p)) if f.endswith('.rs') and f != 'mod.rs']
SUB = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' << ', ' >> '), (r' >> ', ' << '),
       (r' & ', ' | '), (r' \| ', ' & '), (r' \^ ', ' | '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '),
       (r' \|= ', ' ^= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'),
       (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\bcontinue;', 'break;'), (r'if !', 'if '), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
       (r'\.\.=', '..'), (r'is_some\(', 'is_none('), (r'is_empty\(\)', 'len() == 1'), (r'saturating_sub', 'wrapping_sub'), (r'\bSome\(([a-z_]+)\)$', 'None')]
res = []
for f in FILES:
    p = os.path.join(repo, f)
    if not os.path.exists(p):
        continue
    lines = open(p).read().split('\n')
    end = next((i for i, l in enumerate(lines) if l.strip().startswith('#[cfg(test)]') and i + 1 < len(lines) and lines[i + 1].strip().startswith('mod ')), len(lines))
    depth_log = 0
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('*') or s.startswith('"'):
            continue
        if re.search(r'log::|println!|format!\(|with_capacity|assert|\.expect\(|vp_hooks', l):
            continue
        code = l
        muts = set()
        for a, b in SUB:
            for m in re.finditer(a, code):
                if re.search(r'fn |impl|where|->|<.*>', code) and a.strip() in ('<', '>', ' < ', ' > '):
                    continue
                if '//' in code[:m.start()] or code[:m.start()].count('"') % 2:
                    continue
                muts.add(code[:m.start()] + m.expand(b) + code[m.end():])
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?![\w.])', code):
            if '//' in code[:m.start()] or code[:m.start()].count('"') % 2 or re.match(r'\s*(pub )?const ', code) and rnd.random() < .7:
                continue
            v = int(m.group(1).replace('_', ''), 0)
            for w in {v + 1, max(0, v - 1)} - {v}:
                muts.add(code[:m.start()] + (hex(w) if m.group(1).startswith('0x') else str(w)) + code[m.end():])
        # whole statements
        if s.endswith(';') and re.match(r'(self\.|\*|[a-z_.\[\]0-9]+ (\+|-|\||\^)?= |[a-z_.]+\(|[a-z_]+\.[a-z_]+\()', s) and not s.startswith('return'):
            if s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                muts.add(re.match(r'\s*', l).group(0) + '// removed')
        for b in muts:
            if b != l:
                res.append({'file': f, 'line': i + 1, 'before': l, 'after': b})
rnd.shuffle(res)
json.dump(res, open(out, 'w'), indent=0)
from collections import Counter
print(len(res), Counter(r['file'] for r in res).most_common())
