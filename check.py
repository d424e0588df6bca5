#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay suite#idx] [--only suite]

Builds the harness of one property together with the sources in /repo's working tree, lets it enumerate
its bounded space, and turns the result into exit code, VIOLATION / KNOWN-FINDING lines and evidence."""
import sys, os, json, hashlib, subprocess, glob, time, concurrent.futures, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
sys.path.insert(0, HERE)
BUILD = HERE + '/.build'
CXX = 'g++'
BASE = ['-std=c++20', '-g1', '-DLOG_LEVEL=0', '-D_GLIBCXX_ASSERTIONS', '-fwrapv', '-w', '-I' + SRC, '-I' + SRC + '/common', '-I' + HERE + '/harness']
VMLIBS = ['common', 't86', 't86-parser']
DBGLIBS = VMLIBS + ['debugger']
ASAN = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
FAST = ['-O1']
BOTH = [('fast', FAST), ('asan', ASAN)]   # a wide sweep, and a narrower one with memory-error detection
PROPS = {
    # id: harness, libraries, flags, level
    'P01': dict(src='p01.cpp', libs=VMLIBS, passes=BOTH),
    'P02': dict(src='p02.cpp', libs=VMLIBS, passes=BOTH),
    'P03': dict(src='p03.cpp', libs=VMLIBS, passes=BOTH),
    'P04': dict(src='p04.cpp', libs=VMLIBS, passes=BOTH),
    'P05': dict(src='p05.cpp', libs=VMLIBS, passes=BOTH),
    'P06': dict(src='p06.cpp', libs=DBGLIBS, passes=BOTH),
    'P07': dict(src='p07.cpp', libs=DBGLIBS, passes=BOTH),
    'P08': dict(src='p08.cpp', libs=DBGLIBS, passes=BOTH),
    'P09': dict(src='p09.cpp', libs=DBGLIBS, passes=BOTH),
    'P10': dict(src='p10.cpp', libs=DBGLIBS, passes=BOTH),
    'P11': dict(src='p11.cpp', libs=DBGLIBS, passes=BOTH),
    'P12': dict(src='p12.cpp', libs=DBGLIBS, passes=BOTH),
    'P15': dict(src='p15.cpp', libs=DBGLIBS, passes=BOTH),
    'P16': dict(src='p16.cpp', libs=DBGLIBS, passes=BOTH),
    'P17': dict(src='p17.cpp', libs=DBGLIBS, passes=BOTH),
    'P18': dict(src='p18.cpp', libs=DBGLIBS, passes=BOTH),
    'P19': dict(src='p19.cpp', libs=DBGLIBS, passes=BOTH, extra=['-I' + SRC + '/dbg-cli']),
    'P20': dict(src='p19.cpp', libs=DBGLIBS, passes=BOTH, extra=['-I' + SRC + '/dbg-cli'], hflags=['-DP20'], mains=[('dbg-cli/main.cpp', 'dbg_cli_main')]),
    'P21': dict(src='p21.cpp', libs=DBGLIBS, passes=BOTH, extra=['-I' + SRC + '/dbg-cli'], link=['-ldl', '-rdynamic']),
    'P22': dict(src='p22.cpp', libs=VMLIBS, passes=BOTH),
    'P23': dict(src='p23.cpp', libs=VMLIBS, passes=BOTH),
    'P24': dict(src='p24.cpp', libs=VMLIBS, passes=BOTH),
    'P25': dict(src='p25.cpp', libs=VMLIBS, passes=BOTH, mains=[('t86-cli/main.cpp', 't86_cli_main')], link=['-ldl', '-rdynamic']),
    'P14': dict(src='p14.cpp', libs=DBGLIBS, passes=[('fast', FAST)], link=['-ldl', '-rdynamic']),
    'P13': dict(src='p13.cpp', more=['mcsched.cpp'], libs=['common'], passes=[('fast', FAST)], hflags=['-fsanitize=thread'], link=['-ldl', '-rdynamic']),
}
LEVEL = 'model_checking'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f: return f.read()

def sources(libs):
    out = []
    for l in libs:
        for p in sorted(glob.glob(f'{SRC}/{l}/**/*.cpp', recursive=True)):
            b = os.path.basename(p)
            if b == 'main.cpp' or '/tests/' in p or '/benchmarks/' in p: continue
            out.append(p)
    return out

def compile_all(jobs):
    """jobs: list of (source, flags, object)."""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    def one(j):
        src, flags, obj, *sym = j
        if os.path.exists(obj): return None
        tmp = f'{obj}.{os.getpid()}.tmp'
        r = subprocess.run([CXX, *flags, '-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode: return f'{src}:\n{r.stderr[-6000:]}'
        if sym: subprocess.run(['objcopy', f'--redefine-sym=main={sym[0]}', tmp], check=True)
        os.rename(tmp, obj); return None
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        sys.stderr.write('BUILD FAILED\n' + '\n'.join(errs)); sys.exit(3)

def build(prop, spec, name, pflags):
    hdr = hashlib.sha256()
    for p in sorted(glob.glob(f'{SRC}/**/*.h', recursive=True) + glob.glob(f'{SRC}/**/*.hpp', recursive=True)):
        if '/tests/' in p and '/debugger/' not in p: continue
        hdr.update(p.encode()); hdr.update(read(p))
    hh = hdr.hexdigest()
    for p in sorted(glob.glob(HERE + '/harness/*.h')): hdr.update(read(p))
    hhh = hdr.hexdigest()
    flags = BASE + pflags + spec.get('extra', [])
    jobs, objs = [], []
    harness = [HERE + '/harness/' + s for s in [spec['src']] + spec.get('more', [])]
    for s in harness + sources(spec['libs']):
        fl = flags + (spec.get('hflags', []) if s == harness[0] else [])
        o = f'{BUILD}/obj/{os.path.basename(s)}.{sha(s, read(s), hhh if s in harness else hh, " ".join(fl))}.o'
        jobs.append((s, fl, o)); objs.append(o)
    for rel, sym in spec.get('mains', []):   # a program's own main(), under another name once it is compiled
        s = f'{SRC}/{rel}'
        o = f'{BUILD}/obj/{os.path.basename(s)}.{sha(s, sym, read(s), hh, " ".join(flags))}.o'
        jobs.append((s, flags, o, sym)); objs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    jobs.sort(key=lambda j: j[0] not in harness)
    compile_all(jobs)
    exe = f'{BUILD}/{prop}.{name}.{sha(*objs)}'
    if not os.path.exists(exe):
        for old in glob.glob(f'{BUILD}/{prop}.{name}.*'):
            if not os.path.isdir(old): os.unlink(old)
        r = subprocess.run([CXX, *flags, *objs, '-lfmt', '-lpthread', *spec.get('link', []), '-o', exe], capture_output=True, text=True)
        if r.returncode: sys.stderr.write('LINK FAILED\n' + r.stderr[-6000:]); sys.exit(3)
    # keep the object cache bounded
    cached = sorted(glob.glob(BUILD + '/obj/*.o'), key=os.path.getmtime)
    for o in cached[:-600]: os.unlink(o)
    return exe

def known():
    """known_findings.txt: 'finding: property=<id> case=<exact case text> :: <what fails>'"""
    res = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) case=(.*?) :: (.*)$', l.strip())
            if m: res.append(m.groups())
    return res

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); extra = []
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 2
        elif a[i] in ('--replay', '--only'): extra.append(f'{a[i]}={a[i+1]}'); i += 2
        else: extra.append(a[i]); i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[prop]
    passes = spec.get('passes', [('asan', ASAN)])
    if os.environ.get('MUTATE_PASSES'): passes = [p for p in passes if p[0] in os.environ['MUTATE_PASSES']]   # tools/mutate.py only
    exes = [(n, build(prop, spec, n, fl)) for n, fl in passes]
    tb = time.time() - t0
    out = f'{BUILD}/run.{prop}.{os.getpid()}'
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:quarantine_size_mb=16', LANG='C.UTF-8')
    env.pop('LD_PRELOAD', None)
    res = None; rc = 0
    for name, exe in exes:
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        r = subprocess.run([exe, f'--prop={prop}', f'--tier={tier}', f'--out={out}', f'--seed={seed}', f'--pass={name}', *extra], env=env, cwd=out)
        if any(e.startswith('--replay') for e in extra): rc = rc or r.returncode; continue
        try: one = json.load(open(out + '/result.json'))
        except Exception as e:
            sys.stderr.write(f'{prop}: the harness left no result ({e}), exit code {r.returncode}\n'); sys.exit(4)
        if res is None: res = one
        else:
            for k in ('cases', 'states', 'transitions', 'traces', 'skipped', 'interesting'): res[k] += one[k]
            res['truncated'] |= one['truncated']; res['violations'] += one['violations']; res['suites'].update(one['suites']); res['samples'] += one['samples']
            res['assumptions'] += [x for x in one['assumptions'] if x not in res['assumptions']]
    if res is None: shutil.rmtree(out, ignore_errors=True); sys.exit(rc)
    shutil.rmtree(out, ignore_errors=True)
    ev = HERE + '/evidence'; os.makedirs(ev, exist_ok=True)
    for f in glob.glob(f'{ev}/{prop}.violation.*'): os.unlink(f)
    kf = [(c, w) for p, c, w in known() if p == prop]
    hit, new = {}, []
    for v in res['violations']:
        case = v['desc'].split('\ncase: ', 1)[-1].split('\nstderr:', 1)[0].strip()
        k = next(((c, w) for c, w in kf if c == case), None)
        if k: hit[k[0]] = k[1]
        else: new.append(v)
    for c, w in hit.items(): print(f'KNOWN-FINDING: property={prop} {w} (case: {c})')
    for n, v in enumerate(new):
        p = f'{ev}/{prop}.violation.{n}.txt'
        with open(p, 'w') as f:
            f.write(f"property {prop}, case {v['suite']}#{v['idx']}\n{v['desc']}\n\nreplay: python3 {HERE}/check.py {prop} --tier {tier} --replay '{v['suite']}#{v['idx']}'\n")
        if n < 5:
            sys.stderr.write(f"--- {v['suite']}#{v['idx']}: {v['desc'][:1200]}\n")
            print(f'VIOLATION property={prop} replay={p}')
    wall = time.time() - t0
    cov = dict(states=res['states'], transitions=res['transitions'], traces_validated_against_impl=res['traces'],
               samples=res['samples'][:40], evaluations=res['cases'], distinct_nontrivial=res['interesting'],
               skipped_outside_bounds=res['skipped'], rule=res['rule'], suites=res['suites'], build_s=round(tb, 1),
               exhaustive=not res['truncated'] and not res.get('incomplete', False))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov, assumptions=res['assumptions'],
                   wall_s=round(wall, 2), violations=len(new)), open(f'{ev}/{prop}.json', 'w'), indent=1)
    sys.stderr.write(f"{prop} {tier}: {res['cases']} executions, {res['states']} states, {res['transitions']} transitions, {len(new)} violations, build {tb:.0f} s, total {wall:.0f} s\n")
    sys.exit(1 if new else 0)

main()
