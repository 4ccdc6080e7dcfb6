#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds.py and confirms each in a scratch copy:
builds, passes the stable tests, the demonstration exits 0 without and non-zero with the change.
   mkseed.py [--no-confirm] [id ...]
No check uses this."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS

SIM = ['main.rs', 'client.rs', 'crypt.rs', 'mem.rs', 'sim.rs', 'wire.rs']

HEAD = '''#!/bin/bash
# Exits 0 if the property holds in this situation, 1 if not. Run in /repo.
here=$(cd "$(dirname "$0")" && pwd)
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
'''
DEMO = {
    'sim': HEAD + '''cp -r "$here/kit" "$dir/kit" || exit 2
(cd "$dir/kit" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
timeout 120 "$dir/target/debug/demo" run "$here/kit/tables.json" "$here/script.jsonl" "$dir/out.jsonl" 1 || exit 1
python3 "$here/judge.py" "$dir/out.jsonl"
''',
    'fair': HEAD + '''cp -r "$here/kit" "$dir/kit" || exit 2
(cd "$dir/kit" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
timeout 200 "$dir/target/debug/demo" fair "$here/kit/tables.json" "$here/script.jsonl" "$dir/out.jsonl" 1 || exit 1
python3 "$here/judge.py" "$dir/out.jsonl"
''',
    'mem': HEAD + '''cp -r "$here/kit" "$dir/kit" || exit 2
(cd "$dir/kit" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
timeout 200 "$dir/target/debug/demo" mem "$here/kit/tables.json" "$here/script.jsonl" "$dir/out.jsonl" 1 || exit 1
python3 "$here/judge.py" "$dir/out.jsonl"
''',
    'fresh': HEAD + '''cp -r "$here/kit" "$dir/kit" || exit 2
(cd "$dir/kit" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
for i in 1 2; do
	timeout 120 "$dir/target/debug/demo" fresh "$here/kit/tables.json" "$here/script.jsonl" "$dir/out.jsonl" 1 || exit 1
	cat "$dir/out.jsonl" >>"$dir/all.jsonl"
done
python3 "$here/judge.py" "$dir/all.jsonl"
''',
    'core': HEAD + '''cp -r "$here/kit" "$dir/kit" || exit 2
(cd "$dir/kit" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
timeout 120 "$dir/target/debug/demo"
''',
    'scp': HEAD + '''(cd /repo && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q -p nora_scp 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
mkdir "$dir/work"
timeout 120 python3 "$here/judge.py" "$dir/target/debug/nora_scp" "$dir/work"
''',
    'sshd': HEAD + '''(cd /repo && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q -p nora_sshd 2>"$dir/log") || { tail -20 "$dir/log"; exit 2; }
mkdir "$dir/work"; chmod 755 "$dir" "$dir/work"; cp "$dir/target/debug/nora_sshd" "$dir/work/"
timeout 200 python3 "$here/judge.py" "$dir/work"
''',
}


def write(sid, s):
    d = os.path.join(VERIF, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    # the patch
    t = tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'], check=True)
        for f, old, new in s['edits']:
            p = f'{t}/w/{f}'
            x = open(p).read()
            assert x.count(old) == 1, (sid, f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/w', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
        assert diff
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t, ignore_errors=True)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO[s['kind']])
    os.chmod(d + '/demo.sh', 0o755)
    if s['kind'] in ('sim', 'fair', 'mem', 'fresh', 'core'):
        os.makedirs(d + '/kit/src')
        toml = open(VERIF + '/harness/Cargo.toml').read().replace('name = "harness"', 'name = "demo"')
        open(d + '/kit/Cargo.toml', 'w').write(toml)
        lock = open(VERIF + '/harness/Cargo.lock').read().replace('name = "harness"', 'name = "demo"')
        open(d + '/kit/Cargo.lock', 'w').write(lock)
    if s['kind'] in ('sim', 'fair', 'mem', 'fresh'):
        for f in SIM:
            shutil.copy(f'{VERIF}/harness/src/bin/sim/{f}', d + '/kit/src/' + f)
        shutil.copy('/tmp/kt/tables.json', d + '/kit/tables.json')
        with open(d + '/script.jsonl', 'w') as f:
            for sc in s['scripts']:
                f.write(json.dumps({'name': sid, 'seed': 1, 'ops': sc}) + '\n')
        open(d + '/judge.py', 'w').write('import json, sys\nT = [json.loads(l)["trace"] for l in open(sys.argv[1])]\n'
            'def srv(t, name=None): return [e["m"] for e in t if e["e"] == "srv" and name in (None, e["m"]["t"])]\n'
            'def ev(t, name): return [e for e in t if e["e"] == name]\n' + s['judge'])
    elif s['kind'] == 'core':
        open(d + '/kit/src/main.rs', 'w').write(s['main'])
    else:
        open(d + '/judge.py', 'w').write(s['judge'])


def confirm(sid):
    """In /repo itself, as vcheck does, restored afterwards."""
    d = os.path.join(VERIF, 'seeded', sid)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE, text=True).stdout
    def demo():
        r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout[-600:]
    a = demo()
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        b = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/mkseed-out.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open('/tmp/mkseed-out.json'))
        stable = set(base.get('stable') or base.get('passed') or base.get('tests') or [])
        passed = set(out['passed'])
        c = demo()
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    ok = a[0] == 0 and b.returncode == 0 and stable and stable <= passed and c[0] != 0 and c[0] != 2
    print(('ok  ' if ok else 'BAD '), sid, 'demo', a[0], c[0], 'build', b.returncode, 'tests missing', len(stable - passed), '' if ok else (a, b.stdout[-800:], c), flush=True)
    if ok:
        print('     ', c[1].strip().splitlines()[-1:] )


args = [a for a in sys.argv[1:] if not a.startswith('--')]
for sid in args or SEEDS:
    write(sid, SEEDS[sid])
    if '--no-confirm' not in sys.argv:
        confirm(sid)
