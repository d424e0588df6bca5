#!/usr/bin/env python3
"""Self-test of the checks: small syntactic changes of the code, one at a time, and which checks notice.
  mutate.py <scratch copy of /repo/src's parent> <n> <seed> [file substring]     log: /tmp/mutants.<seed>.log
No check uses this.  Survivors are read by hand: equivalent, not judged by design, or a hole to close."""
import sys, os, re, random, subprocess, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
MAP = [('dbg-cli/CLI', 'P20 P19 P21'), ('dbg-cli', 'P20'), ('t86-cli', 'P25'), ('common/TCP', 'P14 P21'), ('common/threads', 'P13'), ('common/parsing', 'P04 P18 P17 P05 P25 P20'), ('common/helpers', 'P20 P12 P18'), ('common/config', 'P22 P25'), ('t86/config', 'P22 P25'),
       ('stats_logger', 'P24 P22'), ('t86-parser', 'P04 P18 P05 P25'), ('t86/program/', 'P23'), ('t86/program.h', 'P23 P08 P12'), ('t86/debug', 'P12 P07 P09 P21'), ('t86/os', 'P12 P03 P25 P21 P22'), ('debugger/Source/Expr', 'P17 P20'), ('debugger/Source/Pars', 'P18'), ('debugger/Source', 'P16 P15 P18 P17 P20'),
       ('debugger/', 'P11 P09 P07 P10 P08 P12 P19 P15 P21 P20'), ('t86/', 'P01 P02 P03 P22 P24 P23 P06 P12 P09 P10 P05')]
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-])<(?![<=])(?=\s)', '<='), (r'(?<![>\-])>(?![>=])(?=\s)', '>='), (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'!(?=[A-Za-z_(])', ''), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'\+\+', '--'), (r'\+=', '-='), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\bif \((?!.*constexpr)', 'if (!'), (r'\bbegin\(\)', 'end()'), (r'\blower_bound\b', 'upper_bound'), (r'\bfront\b', 'back'), ('DEL', '')]
def files():
    out = []
    for p in sorted(glob.glob(R + '/src/**/*', recursive=True)):
        if p.endswith(('.cpp', '.h')) and not re.search(r'/(tests|benchmarks|utility)/', p) and ONLY in p: out.append(p)
    return out
def sites():
    res = []
    for p in files():
        raw = False
        for n, l in enumerate(open(p).read().split('\n')):
            s = l.strip(); was = raw
            if 'R"(' in l: raw = True
            if raw and ')"' in l.split('R"(')[-1]: raw = False
            if was or raw: continue
            if s.startswith(('//', '#', '*', '/*', 'static_assert', 'template', 'using', 'namespace', 'log_', 'assert')) or 'log_debug' in s or 'log_info' in s or 'throw' in s: continue
            code = l.split('//')[0]
            for o, r in OPS:
                if o == 'DEL':
                    if re.match(r'^\s*[A-Za-z_][\w.\->\[\]]*(\(.*\)|\s*[-+|&]?=\s.*);\s*$', code) and not re.match(r'\s*(return|auto|const|int|size_t|bool|std::\w+ \w)', code): res.append((p, n, l, '    ;'))
                    elif re.match(r'^\s*(break|continue|return);\s*$', code): res.append((p, n, l, '    ;'))
                    continue
                for m in re.finditer(o, code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                    if o.startswith(r'\bif') :
                        # negate the whole condition when it closes on this line
                        i = m.end() - 0; d = 1
                        while i < len(code) and d: d += {'(': 1, ')': -1}.get(code[i], 0); i += 1
                        if d: continue
                        new = l[:m.start()] + 'if (!(' + code[m.end():i - 1] + '))' + l[i:]
                    else: new = l[:m.start()] + r + l[m.end():]
                    res.append((p, n, l, new))
    return res
def main():
    S = sites(); random.Random(SEED).shuffle(S); log = open(f'/tmp/mutants.{SEED}.log', 'a'); print(len(S), 'sites')
    env = dict(os.environ, VERIF_REPO=R, MUTATE_PASSES='fast')
    for p, n, l, new in S[:N]:
        text = open(p).read(); ls = text.split('\n'); ls[n] = new; t0 = time.time(); rel = p[len(R) + 5:]
        verdict = 'SURVIVED'
        try:
            open(p, 'w').write('\n'.join(ls))
            props = next(v for k, v in MAP if k in rel).split()
            for q in props:
                r = subprocess.run(['python3', V + '/check.py', q], env=env, capture_output=True, text=True, cwd=V)
                if r.returncode == 3: verdict = 'nobuild'; break
                if r.returncode: verdict = f'{q} ' + ('' if r.returncode == 1 else f'rc={r.returncode}'); break
        finally: open(p, 'w').write(text)
        log.write(f'{verdict}\t{time.time() - t0:.0f}s\t{rel}:{n+1}\t{l.strip()}\t=>\t{new.strip()}\n'); log.flush()
main()
