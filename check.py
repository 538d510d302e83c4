#!/usr/bin/env python3
"""Driver of every check:  check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the library (and, where needed, the programs) from /repo's working tree with sanitizers, builds the
property's harness, runs the generated-input search, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check could not run."""
import os, sys, json, time, subprocess, hashlib, glob, shutil, fcntl, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
H = os.path.join(HERE, 'harness')
BUILD = os.environ.get('VF_BUILD', os.path.join(HERE, '.build'))
REPLAYS = os.path.join(HERE, 'replays')
CC, CXX = 'clang', 'clang++'
SAN = '-fsanitize=address,bounds,signed-integer-overflow,shift-exponent,integer-divide-by-zero,return,vla-bound,unreachable'.split()
BASE = ['-g', '-O1', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all', '-fno-common'] + SAN
if os.environ.get('VF_COV'):      # measuring what the generators reach (never in a registered command)
    BASE += ['-fprofile-instr-generate', '-fcoverage-mapping']
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'asprintf', 'vasprintf']
UNINIT = ['-ftrivial-auto-var-init=pattern']   # locals of the library nobody initialised hold AA.., not what happens to be there
SYSWRAP = ['read', 'write', 'recv', 'send', 'select', 'poll', 'pselect', 'ppoll', 'tcsetattr', 'tcgetattr', 'tcflush', 'open', 'close',
           'socket', 'connect', 'setsockopt', 'isatty', 'usleep', 'sleep', 'nanosleep', 'shutdown', 'getaddrinfo', 'freeaddrinfo', 'tcdrain', 'gethostbyname', 'sendto', 'recvfrom',
           'sendmsg', 'recvmsg', 'readv', 'writev']
TOOLS = sorted(os.path.basename(p)[:-2] for p in glob.glob(os.path.join(REPO, 'bin', '*.c')))

# property -> (harness source, options)
HARNESS = {}
def _reg(src, ids, **kw):
    for i in ids.split():
        HARNESS[i] = (src, kw)
_reg('props_frame.cc', 'P01 P02 P03')
_reg('props_decode.cc', 'P04 P05 P06')
_reg('props_record.cc', 'P07 P08 P09 P10 P11 P12 P14 P15 P19 P20 P29 P30')
_reg('props_io.cc', 'P27 P28', sys=True)
_reg('props_xml.cc', 'P13 P16 P17 P18')
_reg('props_tools.cc', 'P31 P32', tools=True, toolsyms=['mbus_context_tcp', 'mbus_context_serial', 'mbus_serial_set_baudrate', 'exit'])
_reg('props_show.cc', 'P33 P34 P35 P36')
_reg('props_ctx.cc', 'P37 P38', sys=True)
_reg('props_bus.cc', 'P21 P22 P23 P24 P25 P26')

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        log(' '.join(cmd)); log(r.stdout.decode(errors='replace')[-6000:])
        raise SystemExit(2)
    return r.stdout

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def libfiles():
    return [f for p in ('mbus/*.c', 'mbus/*.h') for f in glob.glob(os.path.join(REPO, p))]

def build(prop, fuzz=False):
    src, opt = HARNESS[prop]
    os.makedirs(BUILD, exist_ok=True)
    hfiles = glob.glob(os.path.join(H, '*.h'))
    tools = opt.get('tools', False)
    deps = libfiles() + hfiles + [os.path.join(H, 'vf.cc'), os.path.join(H, src), os.path.abspath(__file__)]
    if tools:
        deps += glob.glob(os.path.join(REPO, 'bin', '*.c'))
    key = digest(deps, f'{src} {fuzz} {prop if fuzz else ""} {REPO} {os.environ.get("VF_COV", "")}')
    outdir = os.path.join(BUILD, key)
    exe = os.path.join(outdir, 'check')
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe):
        return exe
    # drop stale builds
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(d)), key=os.path.getmtime)
    for d in olds[:-24]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = outdir + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # headers found as "../config.h" from mbus/mbus.c: a generated one stands beside a copy of the sources
    srcroot = os.path.join(tmp, 'src')
    shutil.copytree(os.path.join(REPO, 'mbus'), os.path.join(srcroot, 'mbus'))
    if tools:
        shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(srcroot, 'bin'))
    with open(os.path.join(srcroot, 'config.h'), 'w') as f:
        f.write('#define VERSION "0.9.0"\n#define PACKAGE "libmbus"\n')
    flags = BASE + (['-fsanitize=fuzzer-no-link'] if fuzz else [])
    jobs = []
    objs = []
    defs = ['-D_GNU_SOURCE'] if opt.get('gnu') else []
    redefs = []
    for w in WRAP:
        redefs += ['--redefine-sym', f'{w}=vf_{w}']
    if opt.get('sys'):
        for w in SYSWRAP:
            redefs += ['--redefine-sym', f'{w}=vs_{w}']
    def cobj(c, extra=()):
        o = os.path.join(tmp, os.path.basename(c)[:-2] + '.o')
        sh([CC, '-w', '-c', c, '-o', o, '-I', srcroot, '-I', os.path.join(srcroot, 'mbus'), '-DHAVE_CONFIG_H'] + flags + UNINIT + defs + list(extra))
        sh(['objcopy'] + redefs + [o])
        objs.append(o)
    def tobj(c):
        n = os.path.basename(c)[:-2].replace('-', '_')
        o = os.path.join(tmp, 'tool_' + n + '.o')
        sh([CC, '-w', '-c', c, '-o', o, '-I', srcroot, '-I', os.path.join(srcroot, 'mbus'), f'-Dmain=tool_{n}_main'] + flags + UNINIT)
        # every other global of the program becomes local, so that the programs can be linked together
        sh(['objcopy'] + redefs + [f'--keep-global-symbol=tool_{n}_main', o])
        rs = []
        for s in opt.get('toolsyms', []):
            rs += ['--redefine-sym', f'{s}=sim_{s}']
        if rs:
            sh(['objcopy'] + rs + [o])
        objs.append(o)
    def xobj(c, extra=()):
        o = os.path.join(tmp, os.path.basename(c)[:-3] + '.o')
        sh([CXX, '-std=c++17', '-w', '-c', c, '-o', o, '-I', H, '-I', srcroot] + flags + list(extra))
        objs.append(o)
    fz = ['-DVF_FUZZ', f'-DVF_PROP="{prop}"'] if fuzz else []
    with ThreadPoolExecutor(8) as ex:
        for c in sorted(glob.glob(os.path.join(srcroot, 'mbus', '*.c'))):
            jobs.append(ex.submit(cobj, c))
        if tools:
            for c in sorted(glob.glob(os.path.join(srcroot, 'bin', '*.c'))):
                jobs.append(ex.submit(tobj, c))
        jobs.append(ex.submit(xobj, os.path.join(H, 'vf.cc'), fz))
        jobs.append(ex.submit(xobj, os.path.join(H, src), fz))
        for j in jobs:
            j.result()
    sh([CXX] + objs + ['-o', os.path.join(tmp, 'check')] + BASE + (['-fsanitize=fuzzer'] if fuzz else []) + ['-lm', '-lpthread', '-lutil'])
    for o in objs:
        os.unlink(o)
    shutil.rmtree(outdir, ignore_errors=True)
    os.rename(tmp, outdir)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:max_malloc_fill_size=4096:malloc_fill_byte=190:free_fill_byte=219:max_free_fill_size=4096',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LC_ALL='C', TZ='UTC',
           ASAN_SYMBOLIZER_PATH=shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or '')

def known(prop):
    """KNOWN-FINDING entries: (signature, text)."""
    r = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) sig=<(.*?)> (.*)', l.rstrip('\n'))
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return r

def fuzz_stage(prop, seed, tier, limit, kn):
    """coverage-guided search through the same property; returns (stats, violation)"""
    exe = build(prop, fuzz=True)
    runs = HARNESS[prop][1].get('fuzz_' + tier, 0)
    work = os.path.join(BUILD, f'fuzz-{prop}-{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    njobs = 8
    procs = []
    t0 = time.time()
    for k in range(njobs):
        d = os.path.join(work, f'c{k}'); os.makedirs(d)
        if k % 2 == 1:   # half of the campaigns start from the recorded telegrams, half from nothing
            seedcorpus(d)
        lf = open(os.path.join(work, f'log{k}'), 'w')
        cmd = [exe, f'-seed={(seed * 131 + k) % 2147483646 + 1}', f'-runs={runs // njobs}', f'-max_total_time={int(limit)}', '-max_len=1400', '-timeout=60', '-rss_limit_mb=3000',
               '-use_value_profile=1', '-len_control=20', f'-artifact_prefix={work}/art{k}-', '-print_final_stats=1', d]
        procs.append((k, subprocess.Popen(cmd, stdout=lf, stderr=lf, env=ENV, cwd=work)))
    st = {'executions': 0, 'corpus': 0, 'cov': 0, 'crashes': 0}
    viol = None
    for k, p in procs:
        p.wait()
        t = open(os.path.join(work, f'log{k}'), errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', t)
        if m: st['executions'] += int(m.group(1))
        for m in re.finditer(r'cov: (\d+) ft: (\d+) corp: (\d+)', t):
            last = m
        if 'last' in dir():
            st['cov'] = max(st['cov'], int(last.group(1))); st['corpus'] += int(last.group(3))
        for art in sorted(glob.glob(f'{work}/art{k}-*')):
            if os.path.basename(art).split('-')[1] not in ('crash', 'timeout', 'oom', 'leak'):
                continue
            st['crashes'] += 1
            if viol is None:
                viol = art
    return st, viol, work

def seedcorpus(d):
    n = 0
    for f in sorted(glob.glob(os.path.join(REPO, 'test', '*-frames', '*.hex'))):
        try:
            b = bytes.fromhex(open(f).read())
        except ValueError:
            continue
        open(os.path.join(d, f'seed{n}'), 'wb').write(b); n += 1

def main():
    if '--build-all' in sys.argv:
        done = set()
        for p, (src, _) in sorted(HARNESS.items()):
            if src not in done:
                done.add(src); build(p)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if '--build' in sys.argv:
        build(prop); return 0
    exe = build(prop)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if '--replay' in sys.argv:
        return subprocess.call([exe, '--prop', prop, '--replay', sys.argv[sys.argv.index('--replay') + 1], '--replays', REPLAYS], env=ENV)
    kn = known(prop)
    opt = HARNESS[prop][1]
    knargs = [x for s, _ in kn for x in ('--known', s)]
    out = os.path.join(BUILD, f'out-{prop}-{os.getpid()}.json')
    cases = []
    if os.environ.get('VF_CASES'):
        cases = ['--cases', os.environ['VF_CASES']]
    cap = 620 if tier == 'quick' else 700
    budget = cap - (time.time() - t0)
    rlimit = budget * (0.6 if opt.get('fuzz_' + tier) else 1.0)
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--jobs', '8', '--replays', REPLAYS, '--out', out, '--limit', str(rlimit)] + cases + knargs + (['--thorough'] if tier == 'thorough' else [])
    r = subprocess.run(cmd, env=ENV)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        log('harness ended with', r.returncode); return 2
    res = json.load(open(out)); os.unlink(out)
    viol = res['violations'] and (res['replay'], res['message'])
    fz = None
    if not viol and opt.get('fuzz_' + tier):
        left = cap - (time.time() - t0) - 30
        fz, art, work = fuzz_stage(prop, seed, tier, max(20, left), kn)
        if art:
            rr = subprocess.run([exe, '--prop', prop, '--bytes', art, '--replays', REPLAYS] + knargs, env=ENV, stdout=subprocess.PIPE)
            o = rr.stdout.decode(errors='replace')
            m = re.search(r'^REPLAY (.*)$', o, re.M)
            if rr.returncode == 1 and m:
                viol = (m.group(1), re.search(r'^MESSAGE (.*)$', o, re.M).group(1))
            else:
                log('fuzzer artefact did not reproduce:', o[-500:])
        shutil.rmtree(work, ignore_errors=True)
    for s, t in kn:
        print(f'KNOWN-FINDING: property={prop} {t}')
    cov = {'evaluations': res['evaluations'] + (fz['executions'] if fz else 0), 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': res['rule'],
           'samples': res['samples'] or ['(no sample)'], 'classes': res['labels'], 'nontrivial': res['nontrivial'], 'planned_cases': res['planned'],
           'discarded': res['discarded'], 'overlong': res['overlong'], 'unreproducible': res['unreproducible'], 'known_finding_hits': res['known']}
    if fz:
        cov['fuzzing'] = fz
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['sanitizer build of the working tree (clang -O1, ASan + selected UBSan checks), heap calls of the library redirected to a counting allocator'] + opt.get('assume', []),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if viol:
        print('violated:', viol[1])
        print(f'VIOLATION property={prop} replay={viol[0]}')
        return 1
    print(f'{prop} {tier}: held on {cov["evaluations"]} cases ({cov["distinct_nontrivial"]} distinct non-trivial) in {ev["wall_s"]} s')
    return 0

if __name__ == '__main__':
    sys.exit(main())
