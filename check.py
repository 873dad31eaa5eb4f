#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--only HARNESS] [--keep]

1. builds the engine (if needed) and the harness crate, together with /repo's current source and the
   standard library, to LLVM IR;
2. runs every harness of the property through the symbolic executor, in parallel;
3. replays every counterexample natively against the real code before reporting it;
4. rewrites evidence/ID.json.
exit 0: held on everything explored; 1: VIOLATION; 2: the check could not decide.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
B = os.path.join(V, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
TARGET = 'x86_64-unknown-linux-gnu'
ENGINE = os.path.join(B, 'engine', 'release', 'symex')
SOLVER = 'z3-new -in'


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN)
    e.update(kw)
    return e


class Undecided(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Undecided('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(V, 'engine'), env=env(CARGO_TARGET_DIR=os.path.join(B, 'engine')))


def lock():
    # the lock file the sandbox uses for /repo; the harness crate adds only itself
    src = '/repo/Cargo.lock' if os.path.exists('/repo/Cargo.lock') else '/opt/vp/Cargo.lock'
    dst = os.path.join(V, 'harness', 'Cargo.lock')
    if not os.path.exists(dst):
        shutil.copy(src, dst)


IRFLAGS = '--cap-lints=allow --cfg vp_hooks --emit=llvm-ir,link -C codegen-units=1 -C opt-level=3 -C no-prepopulate-passes -Zshare-generics=n'
DBG = ' -C debug-assertions=on -C overflow-checks=on'
REL = ' -C debug-assertions=off -C overflow-checks=off'


def build_ir(features, profile):
    lock()
    td = os.path.join(B, 'ir-' + profile)
    deps = os.path.join(td, TARGET, 'debug', 'deps')
    os.makedirs(td, exist_ok=True)
    flags = IRFLAGS + (DBG if profile == 'dbg' else REL)
    cmd = ['cargo', 'build', '--offline', '--lib', '-Zbuild-std=std,panic_unwind', '--target', TARGET, '--features', ','.join(features)]
    e = env(RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=td, RUSTFLAGS=flags, CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0')
    # the crate under test and the harness are always rebuilt from the current tree
    for p in ('libvh', 'vh', 'essay_tensor', 'libessay_tensor', 'essay_opt', 'libessay_opt'):
        for f in glob.glob(os.path.join(deps, p + '-*')):
            os.remove(f)
    for f in glob.glob(os.path.join(td, TARGET, 'debug', '.fingerprint', 'vh-*')) + glob.glob(os.path.join(td, TARGET, 'debug', '.fingerprint', 'essay-*')) + glob.glob(os.path.join(td, 'debug', '.fingerprint', 'essay-*')):
        shutil.rmtree(f, ignore_errors=True)
    run(cmd, cwd=os.path.join(V, 'harness'), env=e)
    newest = {}
    for f in glob.glob(os.path.join(deps, '*.ll')):
        b = re.sub(r'-[0-9a-f]{16}\.ll$', '', os.path.basename(f))
        if b not in newest or os.path.getmtime(f) > os.path.getmtime(newest[b]):
            newest[b] = f
    lls = [newest[b] for b in sorted(newest)]
    if not any(os.path.basename(x).startswith('vh-') for x in lls) or not any(os.path.basename(x).startswith('essay_tensor-') for x in lls):
        raise Undecided('no IR for the harness crate')
    # another configuration's build replaces these
    keep = os.path.join(B, 'work', 'ir-' + '-'.join(features) + '-' + profile)
    shutil.rmtree(keep, ignore_errors=True)
    os.makedirs(keep)
    for i, f in enumerate(lls):
        if os.path.basename(f).startswith(('vh-', 'essay_')):
            lls[i] = shutil.copy(f, keep)
    return lls


def build_replay(features, release):
    lock()
    td = os.path.join(B, 'replay')
    cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--features', ','.join(features)] + (['--release'] if release else [])
    run(cmd, cwd=os.path.join(V, 'harness'), env=env(CARGO_TARGET_DIR=td, RUSTFLAGS='--cap-lints=allow --cfg vp_hooks'))
    return os.path.join(td, 'release' if release else 'debug', 'replay')


def model_text(h, m, tier):
    out = ['harness ' + h, 'tier %d' % tier]
    for k, v in m['inputs']:
        out.append('in %s %s' % (k, v))
    for f, args, v in m['ufs']:
        if re.fullmatch(r'f\d+', str(f)):
            out.append('uf %s %s = %s' % (f[1:], ' '.join(str(a) for a in args), v))
    return '\n'.join(out) + '\n'


WHY = {70: 'error', 72: 'memory error', 73: 'zero-size allocation', 74: 'a call that must succeed panicked', 75: 'leak', 76: 'valgrind error', 77: 'assertion', 124: 'does not terminate'}


def native(binary, h, path, mode, timeout):
    cmd = ['timeout', '-s', 'KILL', str(timeout), binary, h, path] + (['plain'] if mode == 'valgrind' else [])
    if mode == 'valgrind':
        cmd = cmd[:4] + ['valgrind', '-q', '--error-exitcode=76', '--exit-on-first-error=yes'] + cmd[4:]
    r = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'x'] + cmd if mode != 'valgrind' else cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    rc = r.returncode
    if rc in (-9, 137):
        rc = 124
    return rc, r.stdout[-1500:]


def replay(features, h, models, vdir, tag, tier):
    """returns (path, description) of a model that reproduces natively, else None"""
    bins = []
    logs = []
    for i, m in enumerate(models):
        p = os.path.join(vdir, '%s-%s-%d.model' % (h, tag, i))
        with open(p, 'w') as f:
            f.write(model_text(h, m, tier))
        for rel in (False, True):
            b = build_replay(features, rel)
            for mode in ('plain', 'valgrind'):
                rc, out = native(b, h, p, mode, 60 if mode == 'plain' else 240)
                logs.append('%s %s %s: exit %s %s' % (os.path.basename(p), 'release' if rel else 'debug', mode, rc, out.strip()[-300:]))
                if rc in (72, 73, 74, 75, 76, 77, 124) or rc < 0 or rc >= 128:
                    why = WHY.get(rc, 'crash (%d)' % rc)
                    with open(p, 'a') as f:
                        f.write('# native %s build, %s: %s\n# %s\n' % ('release' if rel else 'debug', mode, why, out.strip().replace('\n', '\n# ')))
                    return p, why, logs
    return None, None, logs


def setup():
    build_engine()
    for feats, prof in ((['c01'], 'dbg'), (['c01'], 'rel')):
        build_ir(feats, prof)
    for rel in (False, True):
        build_replay(['c01'], rel)
    print('ready')
    return 0


def main():
    if sys.argv[1:] == ['--setup']:
        return setup()
    from props import PROPS
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--noreplay', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.id]
    thorough = a.tier == 'thorough'
    tier = 1 if thorough else 0
    vdir = os.path.join(B, 'replays', a.id)
    shutil.rmtree(vdir, ignore_errors=True)
    os.makedirs(vdir)
    work = os.path.join(B, 'work', a.id)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        build_engine()
        jobs = []
        irs = {}
        feats_of = {}
        for h in P['harnesses']:
            if a.only and a.only != h['name']:
                continue
            if h.get('tier', 'quick') == 'thorough' and not thorough:
                continue
            feats = [P['feature']] + h.get('features', [])
            profs = h.get('profiles', ['dbg'])
            if thorough:
                profs = sorted(set(profs) | {'rel'})
            for prof in profs:
                key = (tuple(feats), prof)
                irs.setdefault(key, None)
                n = h.get('slices', 1) * (2 if thorough else 1) if h.get('slices', 1) > 1 else 1
                for s in range(n):
                    jobs.append((h, key, s, n))
        for key in irs:
            irs[key] = build_ir(list(key[0]), key[1])
        tb = time.time()
        limit = P.get('time', 500) if not thorough else P.get('time_thorough', 5400)

        def one(j):
            h, key, s, n = j
            out = os.path.join(work, '%s-%s-%d.json' % (h['name'], '_'.join(key[0][1:] + (key[1],)), s))
            cmd = [ENGINE]
            for l in irs[key]:
                cmd += ['--ll', l]
            cmd += ['--entry', h['name'], '--out', out, '--tier', str(tier), '--solver', h.get('solver', SOLVER)]
            tl = h.get('time', limit) if not thorough else limit
            cmd += ['--time', str(tl), '--steps', str(h.get('steps', 20000000)), '--qtimeout', str(h.get('qtimeout', 20000 if not thorough else 200000))]
            if n > 1:
                cmd += ['--slice', '%d/%d' % (s, n)]
            if h.get('fp') == 'exact':
                cmd += ['--fp', 'exact']
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            try:
                R = json.load(open(out))
            except Exception:
                R = {'status': 'error: engine exit %d %s' % (r.returncode, r.stdout[-1500:]), 'violations': []}
            if R['status'] == 'error':
                R['status'] = 'error: ' + str(R.get('error'))[:700]
            R['_h'], R['_key'], R['_slice'] = h, key, '%d/%d' % (s, n)
            if a.v:
                print('  %-32s %-10s %s %s paths=%s q=%s %.1fs' % (h['name'], R['_slice'], key[1], R['status'][:300], R.get('paths'), R.get('queries'), R.get('wall_s', 0)), flush=True)
            return R
        # longest first where the configuration says so
        jobs.sort(key=lambda j: -j[0].get('weight', 1))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        te = time.time()
        known = [k for k in load_known() if k['property'] == a.id and k.get('kind') == 'finding']
        found, problems, knownhit, seen = [], [], [], set()
        for R in res:
            h = R['_h']
            for i, v in enumerate(R.get('violations', [])):
                sig = (h['name'], v['kind'], v['id'], v['msg'] if v['kind'] != 'assertion' else '')
                kf = next((k for k in known if k['harness'] == h['name'] and k['kind_of'] == v['kind'] and str(k['id']) == str(v['id'])), None)
                if sig in seen or found:
                    continue
                if a.noreplay:
                    seen.add(sig)
                    found.append((h, v, '-', 'not replayed'))
                    continue
                p, why, logs = replay(list(R['_key'][0]), h['name'], v['models'], vdir, '%d' % len(seen) + R['_key'][1], tier)
                if p:
                    seen.add(sig)
                    if kf:
                        knownhit.append((kf, p, why))
                    else:
                        found.append((h, v, p, why))
                else:
                    problems.append('%s: counterexample for %s "%s" does not reproduce natively: %s' % (h['name'], v['kind'], v['msg'], ' | '.join(logs)[:1200]))
            if R['status'] not in ('ok', 'violation'):
                problems.append('%s slice %s: %s' % (h['name'], R['_slice'], R['status']))
        # concrete inputs of explored paths run natively: the real code must follow the same path to the same verdict
        validated = 0
        if not found and not a.noreplay:
            todo = []
            for R in res:
                for i, m in enumerate(R.get('sample_models', [])[:3]):
                    p = os.path.join(work, 'sample-%d.model' % len(todo))
                    with open(p, 'w') as f:
                        f.write(model_text(R['_h']['name'], m, tier))
                    todo.append((list(R['_key'][0]), R['_h'], p))
            for feats in set(tuple(t[0]) for t in todo):
                binary = build_replay(list(feats), False)
                mine = [t for t in todo if tuple(t[0]) == feats]
                with ThreadPoolExecutor(8) as ex:
                    outs = list(ex.map(lambda t: native(binary, t[1]['name'], t[2], 'plain', 60), mine))
                for t, (rc, out) in zip(mine, outs):
                    if rc == 0:
                        validated += 1
                    elif rc in (72, 73, 74, 75, 77) and not found:
                        p = os.path.join(vdir, t[1]['name'] + '-native.model')
                        shutil.copy(t[2], p)
                        found.append((t[1], {'kind': 'native', 'id': 0, 'msg': 'an explored path fails natively: ' + out.strip()[-300:]}, p, WHY[rc]))
                    elif a.v:
                        print('  sample not followed natively: %s rc %s %s' % (t[1]['name'], rc, out.strip()[-200:]))
        # every harness must reach the end of its body on some path of the whole run
        by = {}
        for R in res:
            by.setdefault(R['_h']['name'], []).append(R)
        for n, rs in by.items():
            marks = set()
            for R in rs:
                marks |= set(str(x) for x in R.get('reach', []))
            need = [str(x) for x in rs[0]['_h'].get('reach', [1])]
            miss = [x for x in need if x not in marks]
            if miss and not any(f[0]['name'] == n for f in found) and not any(k['harness'] == n for k, _, _ in knownhit):
                problems.append('%s: vacuous, markers %s are not reached' % (n, miss))
        for k in known:
            if not any(x[0] is k for x in knownhit):
                print('note: known finding no longer observed: %s' % k['what'])
        write_evidence(a, P, res, found, problems, t0, tb, te, validated)
        for k, p, why in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (a.id, k['what']))
        for h, v, p, why in found:
            src = source_line(h['name'], v['id']) if v['kind'] == 'assertion' else ''
            print('%s: %s (%s); natively: %s %s' % (h['name'], v['msg'], v['kind'], why, src))
        if found:
            print('VIOLATION property=%s replay=%s' % (a.id, found[0][2]))
            return 1
        if problems:
            for p in problems:
                print('UNDECIDED: ' + p)
            return 2
        tot = sum(R.get('paths', 0) for R in res)
        print('ok: %s held on %d paths, %d solver queries, %.1f s (build %.1f s)' % (a.id, tot, sum(R.get('queries', 0) for R in res), te - t0, tb - t0))
        return 0
    except Undecided as e:
        print('UNDECIDED: ' + str(e))
        return 2


def source_line(h, ident):
    m = re.match(r'h_(c\d+)', h)
    f = os.path.join(V, 'harness', 'src', m.group(1) + '.rs')
    try:
        return '[%s:%s %s]' % (os.path.basename(f), ident, open(f).read().splitlines()[int(ident) - 1].strip()[:120])
    except Exception:
        return ''


def load_known():
    out = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def write_evidence(a, P, res, found, problems, t0, tb, te, validated):
    def tot(k):
        return sum(R.get(k, 0) for R in res)
    funcs, exts = {}, {}
    for R in res:
        for f in R.get('functions', []):
            funcs[f if isinstance(f, str) else f[0]] = 1
        for f in R.get('modelled_externals', []):
            exts[f if isinstance(f, str) else f[0]] = 1
    mine = sorted(f for f in funcs if 'essay' in f)
    samples = []
    for R in res:
        for s in R.get('samples', [])[:2]:
            samples.append({'harness': R['_h']['name'], 'path': s})
    per = []
    for R in res:
        per.append({'harness': R['_h']['name'], 'slice': R['_slice'], 'build': R['_key'][1], 'features': list(R['_key'][0]), 'status': R['status'][:200], 'paths': R.get('paths', 0),
                    'steps': R.get('steps', 0), 'queries': R.get('queries', 0), 'unsat': R.get('unsat', 0), 'sat': R.get('sat', 0), 'solver_s': R.get('solver_s', 0), 'wall_s': R.get('wall_s', 0)})
    cov = {
        'paths': tot('paths'),
        'rule': 'states: symbolic program states stepped through (one per IR instruction executed); transitions: points where both sides of a decision were feasible and the state was split; paths: feasible paths of the harnesses through the real code that satisfy the assumptions (pairwise disjoint), on each of which the data inputs stay symbolic and the verdict covers every value; traces_validated_against_impl: solver models of explored paths run natively through the same harness, ending with the same verdict.',
        'samples': samples[:12],
        'explanation': 'symbolic execution of the LLVM IR rustc emits for /repo and the harness; obligations are decided by the SMT solver for every value of the symbolic inputs within the bounds',
        'bounds': {h['name']: h['bounds'] for h in P['harnesses'] if any(R['_h'] is h for R in res)},
        'outside_the_bounds': P.get('outside', ''),
        'functions_encoded_from_repo': mine[:400],
        'functions_encoded_total': len(funcs),
        'modelled_externals': sorted(exts)[:200],
        'obligations': tot('obligations'),
        'obligations_concretely_true': tot('obligations_concrete'),
        'instructions': tot('steps'), 'forks': tot('forks'),
        'solver': SOLVER, 'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'solver_s': round(tot('solver_s'), 2),
        'build_s': round(tb - t0, 1), 'explore_s': round(te - tb, 1),
        'harnesses': per,
        'undecided': problems,
    }
    ev = {'property': a.id, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(found)}
    if ev['level'] == 'model_checking':
        cov['states'] = tot('steps')
        cov['transitions'] = tot('forks')
        cov['traces_validated_against_impl'] = validated
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
