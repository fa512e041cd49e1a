#!/usr/bin/env python3
"""mutate.py WORK [--files GLOB] [--seed N] [--max N] [--slots N]: one-token mutants of
/repo's sources, each run against the quick checks that concern its file until
one of them reports it.  WORK/out lists "killed by", "SURVIVED" or "no build"
per mutant; survivors are read by hand (equivalent, outside every property, or
a gap).  Development aid: no registered command uses it."""
import sys, os, re, random, subprocess, shutil, fnmatch, argparse, concurrent.futures as cf, time
a = argparse.ArgumentParser(); a.add_argument('work'); a.add_argument('--files', default='*'); a.add_argument('--seed', type=int, default=1)
a.add_argument('--max', type=int, default=10**9); a.add_argument('--slots', type=int, default=2); a.add_argument('--list', action='store_true')
a.add_argument('--only', default=''); a.add_argument('--timeout', type=int, default=60); a.add_argument('--frac', type=float, default=1); a.add_argument('--start', type=int, default=0); a = a.parse_args()
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [  # first match
    ('fstrm/control.c', '01 02 03 07 06 04 17'), ('fstrm/reader.c', '06 05 07 08 27 21'), ('fstrm/writer.c', '04 07 08 05 26'),
    ('fstrm/rdwr.c', '08 04 06 07 27'), ('fstrm/file.c', '10 05 27 08'), ('fstrm/unix_writer.c', '09 24 22'), ('fstrm/tcp_writer.c', '09 24 22'),
    ('fstrm/iothr.c', '12 11 13 14 15 26 23'), ('fstrm/time.c', '14 13 15 11'), ('fstrm/*', '08 04 06 05'),
    ('libmy/my_queue*', '16 11 12'), ('libmy/print_string.h', '21'), ('libmy/argv*', '25 22 21'), ('libmy/read_bytes.h', '09 22'),
    ('libmy/my_time.h', '14 13'), ('libmy/ubuf.h', '05 06 08 01'), ('libmy/vector.h', '05 06 08 01 04'), ('libmy/*', '04 06 11 16'),
    ('src/fstrm_capture.c', '17 18 19 20 25 23'), ('src/fstrm_dump.c', '21 27 23'), ('src/fstrm_replay.c', '22 25 23')]
OPS = [(r'(?<![<>=!\-])<(?![<=>])', ['<=']), (r'<=', ['<']), (r'(?<![<>=\-])>(?![>=])', ['>=']), (r'(?<!>)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\+\+', ['--']), (r'(?<!-)--(?!-)', ['++']), (r'\+=', ['=', '-=']), (r'-=', ['+=']),
       (r'(?<=[\w\)\]]) \+ (?=[\w\(&\*])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(&\*])', [' + ']), (r'(?<=[\w\)\]]) \* (?=[\w\(])', [' + ']), (r'(?<=[\w\)\]]) / (?=[\w\(])', [' * ']), (r'(?<=[\w\)\]]) % (?=[\w\(])', [' / ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<=return )fstrm_res_success', ['fstrm_res_failure']), (r'(?<=return )fstrm_res_failure', ['fstrm_res_success']), (r'\bfstrm_res_stop\b', ['fstrm_res_failure']), (r'fstrm_res_again', ['fstrm_res_failure']),
       (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'(?<=if \()!', ['']), (r'(?<=if \()(?![!\(])(?=\w+\))', ['!']), (r'(?<![\w.])(\d+)(?![\w.])', ['+1', '-1']), (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&'])]
def mutants(rel, src):
    out = []; pos = 0; incomment = False; depth = 0
    for n, line in enumerate(src.split('\n')):
        start = pos; pos += len(line) + 1
        if '/*' in line and '*/' not in line: incomment = True; continue
        if incomment:
            if '*/' in line: incomment = False
            continue
        depth0 = depth; depth += line.count('{') - line.count('}')
        if not depth0 or line.lstrip().startswith(('#', '*', '//', '/*')) or rel.endswith('.h') and False: continue
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|/\*.*?\*/|//.*', lambda m: '\1' * len(m.group()), line)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if pat.startswith(r'(?<![\w.])(\d'): r = str(int(m.group()) + int(r)) if int(m.group()) + int(r) >= 0 else None
                    if r is None: continue
                    out.append((rel, n + 1, start + m.start(), start + m.end(), r))
        s = code.strip()
        if re.match(r'[A-Za-z_\*\(][^={}]*(\(.*\)|[^=!<>]=[^=].*|\+\+|--);$', s) and not re.match(r'(return|goto|break|continue|static|const|struct|if|for|while|else|int|size_t|bool|unsigned|ssize_t|char|uint\w+|fstrm_res|my_\w+_t|FILE|void) ', s) and s.count('(') == s.count(')'):
            i = start + len(line) - len(line.lstrip())
            out.append((rel, n + 1, i, i + len(line.strip()), ';'))
    return out
repo = os.environ.get('REPO', '/repo'); M = []
for d in ('fstrm', 'libmy', 'src'):
    for f in sorted(os.listdir(f'{repo}/{d}')):
        rel = f'{d}/{f}'
        if f.endswith(('.c', '.h')) and fnmatch.fnmatch(rel, a.files): M += mutants(rel, open(f'{repo}/{rel}').read())
random.Random(a.seed).shuffle(M)
if a.list: print(len(M)); [print(m) for m in M[:a.max]]; sys.exit()
W = a.work; os.makedirs(W, exist_ok=True)
env = dict(os.environ, UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=1', VERIF_SEED='1')
def run(slot, i, m):
    rel, n, s, e, r = m; R = f'{W}/r{slot}'; B = f'{W}/b{slot}'
    if not os.path.isdir(R): subprocess.run(['git', 'clone', '-q', repo, R], check=True); shutil.copytree(f'{H}/harness', f'{W}/h{slot}')
    src = open(f'{repo}/{rel}').read(); mut = src[:s] + r + src[e:]
    ln = src.split('\n')[n - 1].strip(); desc = f'#{i} {rel}:{n} `{ln[:90]}` [{src[s:e][:50]}] -> [{r}]'
    with open(f'{R}/{rel}', 'w') as f: f.write(mut)
    checks = next(c for g, c in CHECKS if fnmatch.fnmatch(rel, g)).split(); res = None; t0 = time.time()
    def prep():
        if rel.endswith('.h'): subprocess.run(f'rm -rf {B}/lib {B}/sim {B}/prog', shell=True)
    prep()
    for c in checks:
        b = subprocess.run(['make', '-s', '-C', f'{W}/h{slot}', '-j6', f'REPO={R}', f'B={B}', f'{B}/c{c}'], capture_output=True)
        if b.returncode: res = 'no build'; break
        n = int(re.search(r'"(?:exploration|fault_enumeration|[a-z_]+)", (\d+), \d+, \d+', open(f'{H}/harness/c{c}.cpp').read()).group(1))
        try: p = subprocess.run([f'{B}/c{c}', '--shrink', '1', *(['--cases', str(int(n * a.frac))] if a.frac < 1 else []), '--replaydir', f'{W}/rep{slot}'], capture_output=True, env=env, timeout=a.timeout * 4, cwd=W)
        except subprocess.TimeoutExpired: res = f'killed by C{c} (no end)'; break
        if p.returncode: res = f'killed by C{c} rc={p.returncode}'; break
    with open(f'{R}/{rel}', 'w') as f: f.write(src)
    prep(); os.utime(f'{R}/{rel}')
    with open(f'{W}/out', 'a') as f: f.write(f'{res or "SURVIVED"} {desc} {time.time()-t0:.0f}s\n')
import queue
q = queue.Queue(); [q.put(x) for x in list(enumerate(M))[a.start:a.max] if not a.only or str(x[0]) in a.only.split(',')]
def worker(slot):
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        run(slot, i, m)
with cf.ThreadPoolExecutor(a.slots) as ex: [f.result() for f in [ex.submit(worker, k) for k in range(a.slots)]]
open(f'{W}/out', 'a').write('MUTDONE\n')
