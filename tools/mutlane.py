#!/usr/bin/env python3
"""mutlane.py LANE MUTANTS.json OUT.jsonl: in copies of /repo and the harness under /tmp/laneN, applies each mutant, drops those that
do not build or that the repository's tests notice, and runs the quick checks (scaled down) on the rest."""
import json, os, subprocess, sys, shutil, re
lane, src, out = sys.argv[1:4]
L = f'/tmp/lane{lane}'
R, V = L + '/repo', L + '/verif'
env = dict(os.environ, RUSTUP_TOOLCHAIN='1.86-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', VP_SCALE=os.environ.get('VP_SCALE', '30'), VP_DIR=V, VP_CLI=V + '/target/debug/storm-cli', VP_NOSHRINK='1')
def sh(cmd, t, **kw):
    e = dict(env, **kw)
    try:
        p = subprocess.run(['timeout', '-k', '5', str(t), 'bash', '-c', cmd], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
    except Exception as x:
        return 99, str(x)
if not os.path.isdir(R):
    os.makedirs(L, exist_ok=True)
    subprocess.run(f'git clone -q /repo {R} && mkdir -p {V} && cp -r /verif/harness {V}/ && cp /verif/known_findings.txt {V}/ && grep -rl "/repo" {V}/harness --include=*.toml --include=*.rs | xargs -r sed -i "s#/repo/#{R}/#g"', shell=True, check=True)
CORE = 'M01 M16 M02 M03 M04 M29 M18 M19 M17 M13 M14 M15 M05 M06 M07 M11 M27 M08 M09 M10 M12'.split()
def checks(f):
    if f.startswith('storm-ffi'): return ['M20', 'M21', 'M22', 'M23', 'M28']
    if f.startswith('storm-cli'): return ['M24', 'M25', 'M26', 'M30']
    first = []
    for k, v in [('adpcm', ['M06', 'M11']), ('compression', ['M05', 'M11', 'M06']), ('signature', ['M09']), ('attributes', ['M14']), ('listfile', ['M27']),
                 ('bet', ['M16', 'M04']), ('het', ['M02', 'M16']), ('crypto', ['M07', 'M09']), ('header', ['M16', 'M13', 'M15', 'M10']), ('builder', ['M29', 'M01', 'M12', 'M19'])]:
        if k in f: first += [x for x in v if x not in first]
    r = first + [c for c in CORE if c not in first]
    if f.startswith('mopaq/src/compression'): r = [c for c in r if c in ('M05', 'M06', 'M11', 'M01', 'M16', 'M29', 'M10', 'M14')]
    return r
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['line'], d['after']))
for m in json.load(open(src)):
    if (m['file'], m['line'], m['after']) in done: continue
    p = f"{R}/{m['file']}"
    orig = open(p).read()
    ls = orig.split('\n')
    if ls[m['line'] - 1] != m['before']: continue
    ls[m['line'] - 1] = m['after']
    open(p, 'w').write('\n'.join(ls))
    r = dict(m)
    try:
        rc, o = sh(f'cd {R} && cargo test -q --workspace --no-run --offline --locked', 300, CARGO_TARGET_DIR=R + '/target')
        if rc != 0:
            r['status'] = 'nobuild'
        else:
            rc, o = sh(f'cd {R} && cargo test --workspace --offline --locked -- --test-threads 4', 150, CARGO_TARGET_DIR=R + '/target')
            if rc != 0:
                r['status'] = 'tests'
            else:
                ids = checks(m['file'])
                t = f'CARGO_TARGET_DIR={V}/target RUSTFLAGS="--cfg vp_hooks -Awarnings" cargo build -q --offline --manifest-path {V}/harness/Cargo.toml -p vp'
                if m['file'].startswith('storm-cli') : t += f' && CARGO_TARGET_DIR={V}/target RUSTFLAGS="--cfg vp_hooks -Awarnings" cargo build -q --offline --manifest-path {R}/Cargo.toml -p storm-cli'
                rc, o = sh(t, 600)
                if rc != 0:
                    r['status'] = 'harness-nobuild'; r['out'] = o[-500:]
                else:
                    r['status'] = 'SURVIVED'
                    for c in ids:
                        rc, o = sh(f'cd {V} && {V}/target/debug/vp {c} quick', 400)
                        if rc == 1 and 'VIOLATION' in o:
                            r['status'] = 'caught'; r['by'] = c; r['msg'] = o[:200]; break
                        if rc != 0:
                            r['status'] = f'ODD {c} rc={rc}'; r['msg'] = o[-300:]; break
    finally:
        open(p, 'w').write(orig)
    with open(out, 'a') as f:
        f.write(json.dumps(r) + '\n')
