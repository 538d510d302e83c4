#!/usr/bin/env python3
"""Mutation sampling: small random changes of the library (in a scratch directory, never in /repo), each put through
the checks until one reports it.  Survivors are listed for inspection: equivalent, or something no check sees.
  mutate.py SOURCE(.c under /repo) COUNT SEED [first-line last-line]"""
import os, re, sys, random, subprocess, importlib.util, glob, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('check', os.path.join(V, 'check.py')); C = importlib.util.module_from_spec(spec); spec.loader.exec_module(C)
W = '/tmp/mut/work-' + os.path.basename(sys.argv[1] if len(sys.argv) > 1 else 'x')
SRC = {}
for p, (s, o) in C.HARNESS.items(): SRC.setdefault(s, []).append(p)
ORDER = {
 'mbus-protocol.c': 'P07 P09 P16 P10 P04 P08 P12 P14 P15 P13 P19 P20 P01 P02 P03 P05 P18 P29 P33 P34 P35 P36 P21 P22 P23 P30 P17 P06 P24 P25 P26 P37 P27 P28 P38 P31 P32'.split(),
 'mbus-protocol-aux.c': 'P29 P12 P35 P11 P17 P21 P22 P23 P24 P25 P26 P36 P37 P10 P12 P20 P06 P05 P30 P04 P16'.split(),
 'mbus-tcp.c': 'P27 P26 P38 P36 P21 P05 P06 P37'.split(), 'mbus-serial.c': 'P28 P26 P38 P36 P21 P05 P06 P37'.split(), 'mbus.c': 'P26 P04 P36'.split()}
TORDER = 'P31 P32'.split()
QUICK = {m.group(1): int(m.group(2)) for f in glob.glob(V + '/harness/*.cc') for m in re.finditer(r'VF_PROPERTY\((P\d+), (\d+), (\d+)', open(f).read())}
def setup():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + '/obj'); 
    sr = W + '/src'; shutil.copytree('/repo/mbus', sr + '/mbus'); shutil.copytree('/repo/bin', sr + '/bin')
    open(sr + '/config.h', 'w').write('#define VERSION "0.9.0"\n#define PACKAGE "libmbus"\n')
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(hobj, s) for s in list(SRC) + ['vf.cc']] + [ex.submit(cobj, c, sys_) for c in glob.glob(sr + '/mbus/*.c') for sys_ in (False, True)] + [ex.submit(tobj, c) for c in glob.glob(sr + '/bin/*.c')]
        for f in fs: f.result()
def sh(cmd): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def hobj(s):
    r = sh([C.CXX, '-std=c++17', '-w', '-c', os.path.join(C.H, s), '-o', f'{W}/obj/{s}.o', '-I', C.H, '-I', W + '/src'] + C.BASE); assert r.returncode == 0, r.stdout
def redefs(sys_):
    r = []
    for w in C.WRAP: r += ['--redefine-sym', f'{w}=vf_{w}']
    if sys_:
        for w in C.SYSWRAP: r += ['--redefine-sym', f'{w}=vs_{w}']
    return r
def cobj(c, sys_):
    o = f'{W}/obj/{os.path.basename(c)}{".sys" if sys_ else ""}.o'; sr = W + '/src'
    r = sh([C.CC, '-w', '-c', c, '-o', o, '-I', sr, '-I', sr + '/mbus', '-DHAVE_CONFIG_H'] + C.BASE)
    if r.returncode: return False
    sh(['objcopy'] + redefs(sys_) + [o]); return True
def equal(c, orig):
    f = ['-w', '-O2', '-g0', '-c', '-I', W + '/src', '-I', W + '/src/mbus', '-DHAVE_CONFIG_H']
    open(W + '/src/mbus/zz_orig.c.txt', 'w', encoding='latin1').write(orig)
    a, b = W + '/obj/a.cmp', W + '/obj/b.cmp'; x = c + '.tmp'
    sh([C.CC] + f + [c, '-o', a]); cur = open(c, encoding='latin1').read(); open(c, 'w', encoding='latin1').write(orig); sh([C.CC] + f + [c, '-o', b]); open(c, 'w', encoding='latin1').write(cur)
    return os.path.exists(a) and open(a, 'rb').read() == open(b, 'rb').read()
def tobj(c):
    n = os.path.basename(c)[:-2].replace('-', '_'); o = f'{W}/obj/tool_{n}.o'; sr = W + '/src'
    r = sh([C.CC, '-w', '-c', c, '-o', o, '-I', sr, '-I', sr + '/mbus', f'-Dmain=tool_{n}_main'] + C.BASE)
    if r.returncode: return False
    rs = redefs(False) + [f'--keep-global-symbol=tool_{n}_main']; sh(['objcopy'] + rs + [o])
    r2 = []
    for s in C.HARNESS['P31'][1]['toolsyms']: r2 += ['--redefine-sym', f'{s}=sim_{s}']
    sh(['objcopy'] + r2 + [o]); return True
def link(s):
    o = C.HARNESS[SRC[s][0]][1]; sys_ = o.get('sys'); exe = f'{W}/{s}.exe'
    objs = [f'{W}/obj/{s}.o', f'{W}/obj/vf.cc.o'] + [f'{W}/obj/{os.path.basename(c)}{".sys" if sys_ else ""}.o' for c in glob.glob(W + '/src/mbus/*.c')]
    if o.get('tools'): objs += glob.glob(W + '/obj/tool_*.o')
    r = sh([C.CXX] + objs + ['-o', exe] + C.BASE + ['-lm', '-lpthread', '-lutil']); assert r.returncode == 0, r.stdout[-2000:]
    return exe
def mutants(lines, lo, hi, rng):
    """(line number, new line, description)"""
    out = []; depth = 0; incomment = False
    for n, l in enumerate(lines, 1):
        s = l.strip()
        if incomment:
            if '*/' in s: incomment = False
            continue
        if s.startswith('/*') and '*/' not in s: incomment = True; continue
        if not (lo <= n <= hi) or not s or s.startswith(('//', '#', '*', '/*', 'return -')) or 'MBUS_ERROR(' in s or ('snprintf(error_str' in s) or 'fprintf(stderr' in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group(0)) - 2) + '"', l).split('//')[0]
        def sub(a, b, new, d): out.append((n, l[:a] + new + l[b:], d))
        for m in re.finditer(r'<=|>=|==|!=|&&|\|\||<<|>>|(?<![-<])[<>](?![<>=])|(?<![+\w(=,] )(?<=[\w)\]] )[+\-*/%](?= )|(?<![&|])[&|](?![&|=])(?= )', code):
            t = m.group(0)
            R = {'<=': ['<', '=='], '>=': ['>', '=='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<<': ['>>'], '>>': ['<<'], '<': ['<='], '>': ['>='], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['*'], '&': ['|'], '|': ['&']}
            for r in R.get(t, []): sub(m.start(), m.end(), r, f'{t} -> {r}')
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)(?![\w.])', code):
            t = m.group(1)
            if t.startswith('0x'):
                v = int(t, 16); sub(m.start(), m.end(), hex(v ^ 1), 'const'); sub(m.start(), m.end(), hex(v ^ (1 << max(0, v.bit_length() - 1))), 'const')
            elif re.fullmatch(r'\d+', t): sub(m.start(), m.end(), str(int(t) + 1), 'const+1'); (int(t) > 0) and sub(m.start(), m.end(), str(int(t) - 1), 'const-1')
            else: sub(m.start(), m.end(), t + '*10', 'const*10')
        if re.match(r'^\s*(if|while) \(', l) and l.rstrip().endswith(')'):
            m = re.match(r'^(\s*)(if|while) \((.*)\)\s*$', l)
            if m: out.append((n, f'{m.group(1)}{m.group(2)} (!({m.group(3)}))', 'negate')) if m.group(2) == 'if' else None; out.append((n, f'{m.group(1)}{m.group(2)} (0)', 'never'))
        if s.endswith(';') and not re.match(r'^(return|case|default|[a-z_]+ \*?[a-z_0-9]+( =.*)?;|(unsigned|static|const|char|int|long|size_t|struct) )', s) and s.count('(') == s.count(')'):
            out.append((n, re.match(r'^\s*', l).group(0) + ';', 'deleted'))
        m = re.search(r'"([^"\\%]{2,})"', l)
        if m and 'strcmp' not in l: sub(m.start(1), m.start(1) + 1, '#' if l[m.start(1)] != '#' else '@', 'string')
        if s == 'break;' : out.append((n, l.replace('break;', ';'), 'no break'))
    rng.shuffle(out); return out
def main():
    path = sys.argv[1]; count = int(sys.argv[2]); seed = int(sys.argv[3]); lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 10**9)
    base = os.path.basename(path); tool = 'bin/' in path
    global W; W = f'/tmp/mut/{base}.{seed}'
    setup(); src = open('/repo/' + path if not path.startswith('/') else path, encoding='latin1').read().split('\n')
    tgt = f'{W}/src/{"bin" if tool else "mbus"}/{base}'
    rng = random.Random(seed); ms = mutants(src, lo, hi, rng)
    hits = {}; log = open(f'/tmp/mut/{base}.{seed}.log', 'w')
    def func(n):
        while n > 0 and not re.match(r'^[A-Za-z_].*\(.*', src[n - 1]): n -= 1
        return n
    k = surv = 0
    for n, new, d in ms:
        if k >= count: break
        m = list(src); m[n - 1] = new; open(tgt, 'w', encoding='latin1').write('\n'.join(m))
        if tool:
            if not tobj(tgt): continue
        elif not (cobj(tgt, False) and cobj(tgt, True)): continue
        if equal(tgt, '\n'.join(src)): continue
        k += 1; f = func(n); t0 = time.time()
        order = TORDER if tool else ORDER[base]
        if 'scan.c' not in base and tool: order = ['P32', 'P31']
        h = hits.get(f, []); order = sorted(order, key=lambda p: -h.count(p))
        killed = None; linked = {}
        for p, div in [(p, 30) for p in order] + [(p, 4) for p in order]:
            s = C.HARNESS[p][0]
            if s not in linked: linked[s] = link(s)
            out = f'{W}/out.json'
            try: r = subprocess.run([linked[s], '--prop', p, '--seed', '1', '--jobs', '8', '--replays', W, '--out', out, '--limit', '120', '--cases', str(max(300, QUICK[p] // div))], env=C.ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
            except subprocess.TimeoutExpired: killed = p + '(timeout)'; break
            if r.returncode == 1: killed = p; break
            if r.returncode not in (0, 1): killed = f'{p} rc={r.returncode}?'; break
        if killed: hits.setdefault(f, []).append(killed)
        else: surv += 1
        print(f'{"killed " + killed if killed else "SURVIVED"} {n} [{d}] {src[n-1].strip()[:110]}  =>  {new.strip()[:110]}  ({time.time()-t0:.0f}s)', file=log, flush=True)
    print(f'{k} mutants, {surv} survive', file=log, flush=True); shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__': main()
