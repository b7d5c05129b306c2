#!/usr/bin/env python3
"""Mutation sweep: mutate.py OUT.jsonl N [seed [file...]] - small edits of every kind all over the sources, each run against
the checks of the part concerned (quick tier, first violation ends it). What no check reports is listed with whether
the repository's tests notice it, to be looked at by hand: equivalent, or a hole in the checks.
MUT_OPS=2: other edits: narrower and differently signed types, adjacent statements exchanged, local variables made static,
similar names confused.
MUT_COV: coverage by check {file: {line: [property]}}; lines no check reaches are left out. Mutants whose optimised code
is that of the original are equivalent. Each scenario gets MUT_T seconds."""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.argv, ARGS = ['x'], sys.argv
import check
REPO = '/repo'
PROPS = {'CommonSEGD.cpp': ['C22', 'C12', 'C17', 'C20'], 'CommonSEGY.cpp': ['C08', 'C22', 'C02', 'C03', 'C11', 'C04'],
 'ISEGD.cpp': ['C12', 'C15', 'C16', 'C13', 'C14', 'C18'], 'OSEGD.cpp': ['C17'], 'OSEGDRev2_1.cpp': ['C17'],
 'ISEGY.cpp': ['C06', 'C02', 'C03', 'C04', 'C05', 'C01', 'C11', 'C10'], 'ISEGYSorted1D.cpp': ['C07', 'C10'],
 'OSEGY.cpp': ['C03', 'C02', 'C04', 'C01', 'C05', 'C11'], 'OSEGYRev0.cpp': ['C03', 'C05', 'C04', 'C01', 'C23'], 'OSEGYRev1.cpp': ['C03', 'C05', 'C04', 'C01', 'C23'],
 'OSEGYRev2.cpp': ['C03', 'C05', 'C04', 'C01', 'C23'], 'Trace.cpp': ['C19'], 'Exception.cpp': ['C21'], 'util.hpp': ['C09', 'C02', 'C12', 'C17']}
SWAPS = [(r'(?<![<>\-=])<=', '<'), (r'(?<![<>\-=])>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' << ', ' >> '), (r' >> ', ' << '), (r' & ', ' | '), (r' \| ', ' & '),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\buint32_t\b', 'uint16_t'),
 (r'\buint16_t\b', 'uint8_t'), (r'\+\+', '--'), (r'\+=', '-='), (r'\bdouble\b', 'float'), 
 (r'!(?=[a-zA-Z(])', '')]
NARROW = [(r'\bint64_t\b', 'int32_t'), (r'\buint64_t\b', 'uint16_t'), (r'\bsize_t\b', 'uint16_t'), (r'\bstreamoff\b', 'int32_t'), (r'\bstreampos\b', 'int32_t'),
 (r'\bstreamsize\b', 'int16_t'), (r'\b(?<!_)int (?=[a-z])', 'int8_t '), (r'\b(?<!_)int (?=[a-z])', 'int16_t '), (r'\bread_u(?=\d)', 'read_i'), (r'\bread_i(?=\d)', 'read_u'),
 (r'\bwrite_u8\b', 'write_u16'), (r'\bint16_t\b', 'int8_t'), (r'\bint32_t\b', 'int16_t'), (r'\buint8_t\b', 'int8_t'), (r'\bint16_t\b', 'uint16_t'),
 (r'\buint16_t\b', 'int16_t'), (r'\buint32_t\b', 'int32_t'), (r'\bint32_t\b', 'uint32_t'), (r'\blong long\b', 'int'), (r'\bunsigned\b', 'signed char')]
STMT = re.compile(r'^[\w.:>*&()\[\]<-].*;$')
def mutants2(path):
    out = []
    text = open(path).read().split('\n')
    names = {}
    for l in text:
        for w in re.findall(r'(?<=[.>])([a-z]\w{4,})', re.sub(r'"(\\.|[^"\\])*"', '', l)): names[w] = names.get(w, 0) + 1
    for n, l in enumerate(text):
        s = l.strip()
        if s.startswith(('//', '#', 'using', 'namespace', '///', '*', '/*', '"')) or '__LINE__' in l or not s: continue
        spans = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', l)]
        def put(a, b, new, kind):
            if not any(a < y and b > x for x, y in spans) and l[a:b] != new: out.append((n, l[:a] + new + l[b:], kind))
        for rx, new in NARROW:
            for m in re.finditer(rx, l):
                if l[:m.start()].endswith(('get<', 'holds_alternative<')): continue
                put(m.start(), m.end(), new, rx)
        if re.match(r'^\s+(const )?(u?int\d+_t|int|double|bool|string|vector<[^=]*>|char|size_t|optional<[^=]*>|auto|map<[^=]*>) \w+( =|;|\(| \{|\[)', l) and not l.startswith('    %s' % '') or re.match(r'^(\t|    )+(u?int\d+_t|int|double|bool|string|vector<[^=]*>|char) \w+( =.*|\[.*\]|\(.*\)|);$', l):
            m = re.match(r'^\s*', l)
            out.append((n, m.group(0) + 'static ' + l[m.end():], 'static'))
        if n + 1 < len(text):
            a, b = s, text[n + 1].strip()
            pv = text[n - 1].strip()
            if STMT.match(a) and STMT.match(b) and a != b and '(' in a + b and pv.endswith((';', '{', '}', ':')) and not a.startswith(('return', 'break', 'throw')) and not b.startswith(('return', 'break', 'throw')):
                out.append((n, text[n + 1] + '\n' + l, 'exchange'))
        for m in re.finditer(r'(?<=[.>])([a-z]\w{4,})', l):
            w = m.group(1)
            import difflib
            for o in difflib.get_close_matches(w, [x for x in names if x != w], 2, 0.8): put(m.start(), m.end(), o, 'name')
    return text, out
def mutants(path):
    if os.environ.get('MUT_OPS') == '2': return mutants2(path)
    out = []
    text = open(path).read().split('\n')
    comment = False
    for n, l in enumerate(text):
        s = l.strip()
        if s.startswith(('//', '#', 'using', 'namespace', '///', '*', '/*')) or '__LINE__' in l or not s: continue
        if s.startswith('"') : continue
        spans = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', l)]
        free = lambda a, b: not any(a < y and b > x for x, y in spans)
        cut = l.find('//')
        def put(a, b, new, kind):
            if free(a, b) and (cut < 0 or a < cut) and l[a:b] != new: out.append((n, l[:a] + new + l[b:], kind))
        for rx, new in SWAPS:
            for m in re.finditer(rx, l):
                if l[:m.start()].endswith(('get<', 'holds_alternative<')): continue
                put(m.start(), m.end(), m.expand(new) if '\\' in new else new, rx)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|0b[01]+|\d+)(?![\w.])', l):
            v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1))
            put(m.start(), m.end(), str(v + 1), 'const+1')
            if v: put(m.start(), m.end(), str(v - 1), 'const-1')
        for m in re.finditer(r'\b(if|while) \(', l):
            # whole condition on this line
            d, k = 0, m.end() - 1
            while k < len(l):
                d += l[k] == '('; d -= l[k] == ')'
                if not d: break
                k += 1
            if k < len(l):
                put(m.end(), k, 'false', 'cond-false')
                if m.group(1) == 'if': put(m.end(), k, 'true', 'cond-true')
        if s.endswith(';') and text[n - 1].strip().endswith((';', '{', '}', ':')) and not s.startswith(('return', 'break', 'throw', 'case', '}', 'class', 'struct')) and not re.match(r'^[\w:<>,\s*&]+ [\w*&]+( =|;|\{)', s):
            out.append((n, '', 'delete'))
        if s in ('break;', 'continue;'): pass
    return text, out
COV = json.load(open(os.environ['MUT_COV'])) if os.environ.get('MUT_COV') else None
T = int(os.environ.get('MUT_T', '15'))
def scenarios(p):
    t = open(V + '/harness/%s.cpp' % p.lower()).read()
    return re.findall(r'\{ "(\w+)",', t[t.index('explore_main('):])
def o2(src, obj): return subprocess.run([check.CXX, '-std=c++20', '-O2', '-w', '-I' + REPO + '/include', '-c', src, '-o', obj, '-frandom-seed=1'], capture_output=True).returncode
LOCK = threading.Lock()
def flags(): return [*check.FLAGS, '-I' + REPO + '/include', '-I' + V + '/harness']
def cc(src, obj, inc=()): return subprocess.run([check.CXX, *check.FLAGS, *inc, '-I' + REPO + '/include', '-I' + V + '/harness', '-c', src, '-o', obj], capture_output=True, text=True)
def main():
    out, N = ARGS[1], int(ARGS[2]); seed = int(ARGS[3]) if len(ARGS) > 3 else 1; only = ARGS[4:]
    base = os.environ.get('MUT_BASE', '/tmp/mut'); os.makedirs(base + '/obj', exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    files = [f for f in srcs + [REPO + '/include/util.hpp'] if not only or os.path.basename(f) in only]
    props = sorted({p for f in files for p in PROPS[os.path.basename(f)]} | {'C20'})
    jobs = [(s, base + '/obj/' + os.path.basename(s) + '.o') for s in srcs + [V + '/harness/explore.cpp'] + [V + '/harness/%s.cpp' % p.lower() for p in props]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(lambda j: cc(*j), jobs)): assert not r.returncode, r.stderr[:2000]
    for f in srcs:
        w = base + '/w'; os.makedirs(w, exist_ok=True); shutil.copy(f, w + '/' + os.path.basename(f)); o2(w + '/' + os.path.basename(f), base + '/obj/' + os.path.basename(f) + '.q')
    rnd = random.Random(seed)
    all_ = []
    for f in files:
        text, ms = mutants(f)
        if COV: ms = [m for m in ms if COV.get(f, {}).get(str(m[0] + 1)) or f.endswith(('util.hpp', 'Sorted1D.cpp'))]
        all_ += [(f, text, m) for m in ms]
    print(len(all_), 'mutants'); rnd.shuffle(all_)
    done = set()
    if os.path.exists(out): done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(out))}
    todo = [x for x in all_ if (os.path.basename(x[0]), x[2][0] + 1, x[2][1].strip()) not in done][:N]
    par = int(os.environ.get('MUT_PAR', '4')); workers = str(max(1, 8 // par))
    def one(k):
        f, text, (n, new, kind) = todo[k]; b = os.path.basename(f)
        d = '%s/%d' % (base, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        r = dict(file=b, line=n + 1, old=text[n].strip(), new=new.strip(), kind=kind, killed=None)
        t = text[:]; t[n] = new
        if kind == 'exchange': t[n + 1:n + 2] = []
        try:
            if b == 'util.hpp':
                os.makedirs(d + '/inc'); [shutil.copy(x, d + '/inc') for x in glob.glob(REPO + '/include/*')]
                open(d + '/inc/util.hpp', 'w').write('\n'.join(t))
                objs = {}
                for s in srcs:
                    o = d + '/' + os.path.basename(s) + '.o'; x = cc(s, o, ['-I' + d + '/inc'])
                    if x.returncode: r['killed'] = 'compile'; return r
                    objs[os.path.basename(s)] = o
                x = cc(V + '/harness/c09.cpp', d + '/c09.cpp.o', ['-I' + d + '/inc'])
                objs['c09.cpp'] = d + '/c09.cpp.o'
            else:
                open(d + '/' + b, 'w').write('\n'.join(t))
                x = cc(d + '/' + b, d + '/' + b + '.o')
                if x.returncode: r['killed'] = 'compile'; return r
                o2(d + '/' + b, d + '/q.o')
                if open(d + '/q.o', 'rb').read() == open(base + '/obj/' + b + '.q', 'rb').read(): r['killed'] = 'equivalent'; return r
                objs = {b: d + '/' + b + '.o'}
            for p in [q for q in PROPS[b] + ['C20'] * (kind == 'static' and 'C20' not in PROPS[b]) if not COV or q == 'C20' or b in ('util.hpp', 'ISEGYSorted1D.cpp') or q in COV[f][str(n + 1)]]:
                names = ['explore.cpp', p.lower() + '.cpp'] + [os.path.basename(s) for s in srcs]
                exe = d + '/check'
                x = subprocess.run([check.CXX, *check.FLAGS, *[objs.get(q, base + '/obj/' + q + '.o') for q in names], '-o', exe], capture_output=True, text=True)
                if x.returncode: r['killed'] = 'link'; return r
                sc = d + '/s'; sc = '/dev/shm/mut.%d.%d' % (os.getpid(), k); os.makedirs(sc, exist_ok=True)
                env = dict(os.environ, VERIF_SCRATCH=sc, VERIF_KNOWN='', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=202:quarantine_size_mb=16')
                t0 = time.time(); rc = 0
                for sc_ in scenarios(p):
                    x = subprocess.Popen([exe, '--tier', 'quick', '--workers', workers, '--out', d + '/o.json', '--replays', d, '--only', sc_], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    try: rc = x.wait(T)
                    except subprocess.TimeoutExpired: os.killpg(x.pid, 9); x.wait()
                    if rc: break
                shutil.rmtree(sc, ignore_errors=True)
                if rc != 0: r['killed'] = p; r['rc'] = rc; r['sc'] = sc_; r['t'] = round(time.time() - t0, 1); return r
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)
            with LOCK:
                open(out, 'a').write(json.dumps(r) + '\n')
                if not r['killed']: print('SURVIVES', b, n + 1, kind, '|', r['old'], '=>', r['new'], flush=True)
    with concurrent.futures.ThreadPoolExecutor(par) as ex: list(ex.map(one, range(len(todo))))
main()
