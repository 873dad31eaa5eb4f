#!/usr/bin/env python3
"""plant.py BUGS.py [ids..]: builds each planted bug described in BUGS.py in a scratch copy of /repo, confirms it
(builds, stable tests pass, demo passes before and fails after), and writes /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
import xml.etree.ElementTree as ET
S = '/tmp/plant'
R = S + '/repo'
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# cwd: the repository. Builds main.rs against it and runs it; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
essay-tensor = { path = "$PWD" }
essay-opt = { path = "$PWD/crates/essay-opt" }
num-complex = "0.4"
num-traits = "0.2"
[workspace]
EOT
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build -q --offline @FLAGS@ --manifest-path "$d/Cargo.toml" 2>"$d/log" || { cat "$d/log" >&2; exit 3; }
timeout 60 "$d/target/@DIR@/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    sh('rm -f %s/target/nextest/default/junit.xml' % R)
    r = sh('. /opt/vp/env.sh; cd %s && cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml' % R)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    m = re.search(r'(\d+) tests? run: (\d+) passed.*', r.stdout)
    fails = sorted({x.strip().replace(' ', '::') for x in re.findall(r'(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT|SIG\w+) \[[^\]]*\] (?:\([^)]*\) )?(.*)', r.stdout)} & set(names))
    return m.group(0) if m else r.stdout[-800:], fails


def main():
    bugs = {}
    exec(open(sys.argv[1]).read(), bugs)
    todo = sys.argv[2:] or [b['id'] for b in bugs['BUGS']]
    if not os.path.exists(R):
        os.makedirs(S)
        sh('cp -a /repo %s' % R)
    for b in bugs['BUGS']:
        if b['id'] not in todo:
            continue
        sh('git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f FETCH_HEAD; git -C %s clean -fdq' % (R, R, R))
        for f, old, new in b['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            diff = sh('git -C %s diff' % R).stdout
            o = os.path.join(S, 'out', b['id'])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            rel = b.get('release')
            open(o + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', '--release' if rel else '').replace('@DIR@', 'release' if rel else 'debug'))
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/main.rs', 'w').write(b['demo'].lstrip())
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            t, fails = tests()
            bad = sh('cd %s && bash %s/demo.sh' % (R, o))
            sh('git -C %s checkout -q -f FETCH_HEAD' % R)
            good = sh('cd %s && bash %s/demo.sh' % (R, o))
            ok = good.returncode == 0 and bad.returncode not in (0, 3) and not fails and 'passed' in t
            print('%s %s clean demo=%d patched demo=%d tests: %s %s' % (b['id'], 'OK' if ok else 'REJECT', good.returncode, bad.returncode, t[:60], fails[:4]), flush=True)
            if not ok:
                print(bad.stdout[-600:], good.stdout[-600:])
            if ok:
                d = os.path.join(OUT, b['id'])
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(o, d)


main()
