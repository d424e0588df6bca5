#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from compact descriptions (tools/bugs/*.py) and tries them out.
  mkbugs.py gen [id...]   generate folders (expected outputs are recorded from /repo's current build)
  mkbugs.py try [id...]   apply, build, stable tests, demo, property check; undo; summary in /tmp/bugs.json
No check reads this or seeded/."""
import sys, os, json, subprocess, glob, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = os.environ.get('VERIF_REPO', '/repo')
BUGS = {}
def bug(id, prop, file, old, new, needs, breaks, demo, also=()):
    BUGS[id] = dict(id=id, prop=prop, edits=[(file, old, new), *also], needs=needs, breaks=breaks, demo=demo)
def run(prog, args='', stdin=''): return dict(kind='run', prog=prog, args=args, stdin=stdin)
def dbg(prog, cmds): return dict(kind='dbg', prog=prog, cmds=cmds)
def cpp(src, libs=''): return dict(kind='cpp', src=src, libs=libs)
for f in sorted(glob.glob(HERE + '/bugs/*.py')): exec(open(f).read())

STRIP = r"sed 's/\x1B\[[0-9;]*[A-Za-z]//g'"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo_script(d):
    head = '#!/bin/bash\n# exit 0: behaves as it should\ncd "$(dirname "$0")" && D=$PWD && cd - >/dev/null\n'
    if d['kind'] == 'run':
        return head + f'OUT=$(timeout 60 _build/t86-cli/t86-cli "$D/prog.t86" {d["args"]} < "$D/input" 2>/dev/null; echo "exit $?")\n' + '[ "$OUT" == "$(cat "$D/expected")" ]\n'
    if d['kind'] == 'dbg':
        return head + f'OUT=$(cd "$D" && timeout 60 "$OLDPWD/_build/dbg-cli/dbg-cli" prog.t86 < input 2>/dev/null | {STRIP}; echo "exit ${{PIPESTATUS[0]}}")\n' + '[ "$OUT" == "$(cat "$D/expected")" ]\n'
    libs = d['libs'] or 'common t86 t86-parser debugger'
    return head + f'''S=$PWD/src; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRCS=$(for l in {libs}; do find $S/$l -name '*.cpp' ! -name main.cpp; done)
printf '%s\\n' $SRCS "$D/demo.cpp" | xargs -P 8 -I{{}} sh -c 'g++ -std=c++20 -O0 -w -DLOG_LEVEL=0 -I'$S' -I'$S'/common -c {{}} -o '$T'/$(echo {{}} | md5sum | cut -c1-12).o' || exit 2
g++ $T/*.o -lfmt -lpthread -o $T/demo || exit 2
timeout 100 $T/demo
'''
def expect(d, dd):
    r = sh(f'bash {dd}/demo.sh', cwd=REPO)   # a placeholder run with an empty expectation
    src = open(dd + '/demo.sh').read().replace('[ "$OUT" == "$(cat "$D/expected")" ]', 'printf "%s\\n" "$OUT" > "$D/expected"')
    open('/tmp/_exp.sh', 'w').write(src.replace('$(dirname "$0")', dd))
    sh('bash /tmp/_exp.sh', cwd=REPO)
def patch(b):
    for f, o, n in b['edits']:
        p = f'{REPO}/{f}'; s = open(p).read()
        if s.count(o) < 1: raise SystemExit(f"{b['id']}: text not found in {f}: {o}")
        if s.count(o) > 1 and not o.startswith('\n'): raise SystemExit(f"{b['id']}: text found {s.count(o)} times in {f}")
        open(p, 'w').write(s.replace(o, n, 1))
def undo(): sh(f'git -C {REPO} checkout -- .')
def gen(b):
    dd = f"{V}/seeded/{b['id']}"; os.makedirs(dd, exist_ok=True); d = b['demo']
    try:
        patch(b); diff = sh(f'git -C {REPO} diff').stdout
    finally: undo()
    open(dd + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(dd + '/meta.json', 'w'), indent=1)
    if d['kind'] in ('run', 'dbg'):
        open(dd + '/prog.t86', 'w').write(d['prog']); open(dd + '/input', 'w').write(d.get('stdin', d.get('cmds', '')))
    else: open(dd + '/demo.cpp', 'w').write(d['src'])
    open(dd + '/demo.sh', 'w').write(demo_script(d))
    if d['kind'] in ('run', 'dbg'): expect(d, dd)
def vp(n):   # the build or test script, for REPO
    if REPO == '/repo': return f'/opt/vp/{n}.sh'
    t = open(f'/opt/vp/{n}.sh').read().replace('/opt/vp/build.sh', '/tmp/_vp.build.sh').replace('/repo', REPO); open(f'/tmp/_vp.{n}.sh', 'w').write(t); return f'/tmp/_vp.{n}.sh'
def build(): 
    vp('build')
    r = sh(f'bash {vp("build")}'); return r.returncode == 0, (r.stdout + r.stderr)[-1500:]
def stable():
    sh(f'bash {vp("test")} /tmp/o.{os.getpid()}.json')
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(f'/tmp/o.{os.getpid()}.json'))
    return [t for t in base if t not in o['passed']]
def main():
    mode, ids = sys.argv[1], sys.argv[2:] or list(BUGS)
    if mode == 'gen':
        for i in ids:
            gen(BUGS[i]); r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=REPO); print(i, 'demo on HEAD:', r.returncode, (r.stdout + r.stderr)[-500:]); 
            if BUGS[i]['demo']['kind'] != 'cpp': print(open(f'{V}/seeded/{i}/expected').read()[-600:])
    if mode == 'try':
        res = json.load(open('/tmp/bugs.json')) if os.path.exists('/tmp/bugs.json') else {}
        for i in ids:
            b = BUGS[i]; undo(); r = dict(prop=b['prop'])
            if sh(f'git -C {REPO} apply {V}/seeded/{i}/patch.diff').returncode: print(i, 'patch does not apply'); continue
            try:
                ok, log = build(); r['builds'] = ok
                if not ok: print(i, 'BUILD', log)
                else:
                    r['demo'] = sh(f'bash {V}/seeded/{i}/demo.sh', cwd=REPO).returncode
                    r['broken_tests'] = stable() if '--notest' not in sys.argv else []
                    t = time.time(); c = sh(f"python3 {V}/check.py {b['prop']}"); r['check'] = c.returncode; r['secs'] = round(time.time() - t)
                    r['viol'] = [l for l in c.stderr.splitlines() if l.startswith('---')][:1]
            finally: undo()
            res[i] = r; json.dump(res, open('/tmp/bugs.json', 'w'), indent=1)
            good = r.get('builds') and r.get('demo') and not r.get('broken_tests')
            print(i, b['prop'], 'VALID' if good else 'INVALID', 'CAUGHT' if r.get('check') == 1 else 'MISSED', r, flush=True)
        build()
main()
