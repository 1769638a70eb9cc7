#!/usr/bin/env python3
"""Own testing of the checks. Builds /verif/seeded/<id>/ from /tmp/plant/specs/<id>.py and validates it in
a scratch copy of the repository (/tmp/plant/repo).

  plant.py make ID...     build patch, demo; confirm: builds, tests pass, demo passes without/fails with
  plant.py run ID[:CHECK,...]...  apply to /repo, run the property's check (or others), undo
"""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
SEED = Path('/verif/seeded'); REPO = Path('/tmp/plant/repo'); SPECS = Path('/tmp/plant/specs'); KIT = Path('/tmp/plant/kit')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')

def sh(cmd, cwd=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]

def spec(i):
    g = {}
    exec((SPECS / f'{i}.py').read_text(), g)
    return g

def reset():
    sh('git checkout -- . && git clean -fdq -e target -e Cargo.lock', REPO)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def make(i):
    s = spec(i)
    reset()
    for f, old, new in s['edits']:
        t = (REPO / f).read_text()
        if t.count(old) != 1:
            return f'edit not unique/found in {f}: {t.count(old)}: {old[:60]!r}'
        (REPO / f).write_text(t.replace(old, new))
    rc, diff = sh('git diff', REPO)
    dst = SEED / i
    shutil.rmtree(dst, ignore_errors=True); dst.mkdir(parents=True)
    (dst / 'patch.diff').write_text(diff)
    (dst / 'main.rs').write_text(s['main'])
    shutil.copy(KIT / 'kit.rs', dst); shutil.copy(KIT / 'demo.sh', dst)
    (dst / 'meta.json').write_text(json.dumps({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    rc, out = sh('cargo build --offline -q 2>&1 && cargo test --workspace --all-features --no-fail-fast --offline --lib --tests -- --test-threads 8', REPO, 400)
    ok = out.count(' ... ok')
    bad = [l for l in out.splitlines() if 'FAILED' in l or l.startswith('error')]
    msg = []
    if rc or ok < 15: msg.append(f'TESTS rc={rc} ok={ok} {bad[:6]}')
    rc, out = sh(['bash', str(dst / 'demo.sh')], REPO, 300)
    if rc in (0, 3): msg.append(f'DEMO with patch rc={rc} {out[-1500:]}')
    last = [l for l in out.splitlines() if 'panicked' in l or 'assert' in l or 'left' in l or 'right' in l][:4]
    reset()
    rc, out2 = sh(['bash', str(dst / 'demo.sh')], REPO, 300)
    if rc: msg.append(f'DEMO without patch rc={rc} {out2[-1500:]}')
    return ' | '.join(msg) if msg else 'ok ' + ' / '.join(last)[:300]

V = Path('/tmp/plant/v'); R = Path('/tmp/plant/r')

def sync():
    """A copy of the checks that explores a copy of the repository, so that /repo is left alone."""
    V.mkdir(exist_ok=True); R.mkdir(exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ /tmp/plant/r/ 2>/dev/null || (rm -rf /tmp/plant/r && mkdir /tmp/plant/r && cd /repo && tar cf - --exclude=./target . | tar xf - -C /tmp/plant/r)')
    sh('rm -rf /tmp/plant/v/harness && mkdir -p /tmp/plant/v && cp -a /verif/harness /verif/run.sh /verif/known_findings.json /tmp/plant/v/')
    f = V / 'harness/Cargo.toml'
    f.write_text(f.read_text().replace('path = "/repo"', 'path = "/tmp/plant/r"'))

def run(arg):
    i, _, c = arg.partition(':')
    meta = json.load(open(SEED / i / 'meta.json'))
    checks = c.split(',') if c else [meta['property']]
    sh('git checkout -- .', R)
    rc, out = sh(['git', 'apply', str(SEED / i / 'patch.diff')], R)
    if rc: return f'{i}: patch does not apply: {out}'
    res = []
    ENV['FINDEX_REPO'] = str(R); ENV['VERIF_SEED'] = '1'
    try:
        for ck in checks:
            t = time.time()
            rc, out = sh(['bash', str(V / 'run.sh'), ck], V, 1000)
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            res.append(f'{ck}: rc={rc} {time.time()-t:.0f}s {"CAUGHT" if rc == 1 and v else "MISSED" if rc == 0 else "ERROR " + out[-800:]} {v[:1]}')
    finally:
        sh('git checkout -- .', R)
    return f'{i} -> ' + '; '.join(res)

cmd, *ids = sys.argv[1:]
if cmd == 'run':
    sync()
for i in ids:
    print(i, ':', make(i) if cmd == 'make' else run(i), flush=True)
