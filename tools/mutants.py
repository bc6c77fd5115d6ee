#!/usr/bin/env python3
"""Mutation trial, for finding weak spots of the checks (not a check itself; nothing registered uses it).

mutants.py tests WORK [N]     mutates each line of a copy of /repo/src in turn, keeps the mutants that build and pass the tests
mutants.py checks WORK SCALE  runs the checks about the changed file, with SCALE of the cases, on those kept; prints which check notices
Everything happens in copies below WORK; remove WORK afterwards."""
import json, os, re, shutil, subprocess, sys, threading, queue
FILES = ['src/config.rs', 'src/hash_type.rs', 'src/read.rs', 'src/bin/index.rs'] + ['src/v1/%s.rs' % x for x in 'emitter hash merge mod parser progress scan threaded_writer writer'.split()]
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', PATH='/root/.cargo/bin:' + os.environ['PATH'])

RELATED = {k: v.split() for k, v in {'config.rs': 'C28 C21 C06', 'hash_type.rs': 'C28 C11', 'read.rs': 'C18 C13 C27', 'index.rs': 'C23 C25 C30', 'emitter.rs': 'C20 C27', 'hash.rs': 'C04 C19 C25 C08', 'merge.rs': 'C16 C17 C13 C26',
    'mod.rs': 'C08 C28 C03 C06', 'parser.rs': 'C12 C11 C14 C15 C19 C32 C20 C13', 'progress.rs': 'C25 C30 C03', 'scan.rs': 'C01 C02 C22 C30 C10 C09', 'threaded_writer.rs': 'C06 C09 C21 C08 C03 C31 C10', 'writer.rs': 'C01 C02 C03 C04 C05 C08'}.items()}

def variants(line):
    code = line.split('//')[0]
    out = []
    def sub(pat, new):
        for m in re.finditer(pat, code):
            out.append(line[:m.start()] + m.expand(new) + line[m.end():])
    for a, b in [('==', '!='), ('!=', '=='), ('&&', '||'), (r'\|\|(?=\s)', '&&'), (r'(?<=\s)<=(?=\s)', '<'), (r'(?<=\s)>=(?=\s)', '>'), (r'(?<=\s)<(?=\s)', '<='), (r'(?<=\s)>(?=\s)', '>='),
                 (r'(?<=[\w)] )\+(?= )', '-'), (r'(?<=[\w)] )-(?= )', '+'), (r'\+=', '-='), (r'-=', '+='), (r'(?<=[\w)] )\*(?= )', '+'), (r'(?<=[\w)] )/(?= )', '*'), (r'%', '/'),
                 (r'\bLess\b', 'Greater'), (r'\bGreater\b', 'Less'), (r'\bEqual\b', 'Less'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'),
                 (r'break;', ''), (r'continue;', ''), (r'\?;', '.ok();'), (r'Ok\(Some\((\w+)\)\)', 'Ok(None)'), (r'Some\((\w+)\)$', 'None'), (r'push_front', 'push_back'), (r'push_back', 'push_front'),
                 (r'pop_front', 'pop_back'), (r'saturating_sub', 'wrapping_sub'), (r'is_none', 'is_some'), (r'is_empty\(\)', 'len() == 1'), (r'\.all\(', '.any('), (r'starts_with', 'ends_with'), (r'ends_with', 'starts_with'),
                 (r'<<', '>>'), (r'>>', '<<'), (r'(?<![&|])\|(?![|a-z_&(])', '&'), (r'\.lines', '.lines'), (r'next\(\)', 'last()')]:
        sub(a, b)
    for m in re.finditer(r"(?<![\w.'\"x])(0[xo])?(\d+)(?![\w.'\"])", code):
        n = int(m.group(2), {'0x': 16, '0o': 8, None: 10}[m.group(1)]) if m.group(1) != '0x' or True else 0
        for k in {n + 1, max(n - 1, 0), 0} - {n}:
            t = {'0x': '0x%x', '0o': '0o%o', None: '%d'}[m.group(1)] % k
            out.append(line[:m.start()] + t + line[m.end():])
    for m in re.finditer(r"b'(\\?.)'", code):
        out.append(line[:m.start()] + "b'~'" + line[m.end():])
    s = code.strip()
    if re.match(r'^[\w.&*()\[\], :?|]+;$', s) and not s.startswith(('let', 'use', 'return', 'break', 'continue', 'mod', 'pub')):
        out.append(line[:len(line) - len(line.lstrip())] + '// ' + line.lstrip())
    if re.match(r'^return .*;$', s): out.append(line.replace('return', 'let _ =', 1))
    return [o for o in dict.fromkeys(out) if o != line]

def mutants():
    for f in FILES:
        src = open('/repo/' + f).read().split('\n')
        skip = None
        depth = 0
        for i, l in enumerate(src):
            if '#[cfg(test)]' in l or l.startswith('#[test]') or 'quick_error! {' in l: skip = 'start'; depth = 0
            if skip:
                depth += l.count('{') - l.count('}')
                if '{' in l: skip = 'in'
                if skip == 'in' and depth <= 0: skip = None
                continue
            if l.strip().startswith(('//', '#', 'use ', 'extern')): continue
            for v in variants(l): yield f, i, l, v

def apply(root, m):
    f, i, old, new = m
    src = open('/repo/' + f).read().split('\n')
    src[i] = new
    open(root + '/' + f, 'w').write('\n'.join(src))
def undo(root, m): shutil.copy('/repo/' + m[0], root + '/' + m[0])

def tests(work, n):
    todo = queue.Queue()
    for m in mutants(): todo.put(m)
    total, kept, lock = todo.qsize(), [], threading.Lock()
    print(total, 'mutants', flush=True)
    def worker(k):
        root = '%s/%d/repo' % (work, k)
        if not os.path.exists(root):
            os.makedirs(os.path.dirname(root)); subprocess.check_call(['cp', '-a', '/repo', root])
        while True:
            try: m = todo.get_nowait()
            except queue.Empty: return
            apply(root, m)
            env = dict(ENV, CARGO_TARGET_DIR=root + '/target', CARGO_INCREMENTAL='1')
            ok = subprocess.run(['timeout', '120', 'cargo', 'test', '--offline', '-q', '--lib', '--bins', '--tests'], cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            ok = ok and subprocess.run(['timeout', '120', 'cargo', 'build', '--offline', '-q'], cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            undo(root, m)
            with lock:
                if ok:
                    kept.append(m); json.dump(kept, open(work + '/kept.json', 'w'))
                if todo.qsize() % 50 == 0: print(todo.qsize(), 'left,', len(kept), 'kept', flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(len(kept), 'of', total, 'pass the tests')

def checks(work, scale):
    root, v = work + '/v/repo', work + '/v/verif'
    if not os.path.exists(v):
        os.makedirs(work + '/v'); subprocess.check_call(['cp', '-a', '/repo', root]); subprocess.check_call(['cp', '-a', '/verif', v])
        for f in ['harness/Cargo.toml', 'cli/Cargo.toml', 'build.sh', 'harness/src/dict.rs']:
            s = re.sub(r'(?<![\w/])/repo(?=[/" ])', root, open(v + '/' + f).read()); open(v + '/' + f, 'w').write(s)
    kept, done = json.load(open(work + '/kept.json')), {}
    if os.path.exists(work + '/done.json'): done = json.load(open(work + '/done.json'))
    env = dict(ENV, VP_DIR=v, VP_SCALE=scale, VERIF_SEED='1', VERIF_TIER='quick')
    for m in kept:
        key = json.dumps(m)
        if key in done: continue
        f = m[0]
        order = RELATED[os.path.basename(f)]
        apply(root, m)
        hit = None
        b = subprocess.run(['./build.sh', 'harness', 'cli'], cwd=v, env=env, stdout=subprocess.PIPE, text=True)
        if b.returncode: hit = 'does not build'
        else:
            for p in order:
                r = subprocess.run(['timeout', '300', 'harness/target/release/vp-harness', 'run', p], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode: hit = '%s rc=%d' % (p, r.returncode); break
        undo(root, m)
        done[key] = hit
        json.dump(done, open(work + '/done.json', 'w'))
        print('%-14s %s:%d  %s  =>  %s' % (hit or 'MISSED', f, m[1] + 1, m[2].strip(), m[3].strip()), flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'tests': tests(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4)
    elif sys.argv[1] == 'checks': checks(sys.argv[2], sys.argv[3])
    else: print(sum(1 for _ in mutants()))
