#!/usr/bin/env python3
"""Planted bugs: builds seeded/<id> from an edit, confirms it, and runs the check of its property against it.

  plant.py make SPEC.py...     SPEC.py calls bug(id, prop, file, old, new, needs, breaks, demo); writes seeded/<id>/
  plant.py confirm ID...       in /repo: applies, builds, stable tests, demo with and without (leaves /repo clean)
  plant.py check ID... [--props P01,P02|--all]   runs checks against a scratch copy with the change"""
import sys, os, json, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, 'seeded'); R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
gcc -w -D_GNU_SOURCE -I. -I_build -o "$T/demo" "$D/demo.c" _build/mbus/.libs/libmbus.a -lm -lutil || exit 2
cd "$T" && timeout 120 ./demo
'''

PRE = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include "mbus/mbus.h"
typedef unsigned char u8;
#define CHECK(c) do { if (!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
/* a control (n = 0) or long telegram */
static int mk(u8 *b, int c, int a, int ci, const u8 *d, int n)
{
    int i, k = 0; u8 s = c + a + ci;
    b[k++] = 0x68; b[k++] = n + 3; b[k++] = n + 3; b[k++] = 0x68; b[k++] = c; b[k++] = a; b[k++] = ci;
    for (i = 0; i < n; i++) { b[k++] = d[i]; s += d[i]; }
    b[k++] = s; b[k++] = 0x16;
    return k;
}
static u8 HDR[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00 };
/* a reply with the header above and the given records */
static int var(u8 *b, const u8 *d, int n)
{
    u8 u[252]; memcpy(u, HDR, 12); memcpy(u + 12, d, n);
    return mk(b, 0x08, 0x01, 0x72, u, n + 12);
}
/* decodes records; NULL if refused */
static mbus_frame_data *dec(const u8 *d, int n)
{
    static mbus_frame f; u8 b[300]; int k = var(b, d, n); mbus_frame_data *r = mbus_frame_data_new();
    memset(&f, 0, sizeof f);
    CHECK(mbus_parse(&f, b, k) == 0);
    if (mbus_frame_data_parse(&f, r) != 0) { mbus_frame_data_free(r); return NULL; }
    return r;
}
static mbus_data_record *rec(mbus_frame_data *d, int i) { mbus_data_record *r = d->data_var.record; while (i-- && r) r = r->next; return r; }
/* a bus without wires: push() queues what the master will receive, SENT holds what it sent */
static struct { int rc, n; u8 b[300]; } Q[4000]; static int qh, qt;
static u8 SENT[4000][300]; static int SN[4000], sc;
static void (*react)(const u8 *b, int n);
static void push(int rc, const void *b, int n) { Q[qt].rc = rc; Q[qt].n = n; if (n) memcpy(Q[qt].b, b, n); qt++; }
static void ack(void) { push(0, "\xE5", 1); }
static int frecv(mbus_handle *h, mbus_frame *f)
{
    int k = qh;
    if (qh == qt) return MBUS_RECV_RESULT_TIMEOUT;
    qh++;
    if (Q[k].rc) return Q[k].rc;
    return mbus_parse(f, Q[k].b, Q[k].n) == 0 ? 0 : MBUS_RECV_RESULT_INVALID;
}
static int send_rc;
static int fsend(mbus_handle *h, mbus_frame *f)
{
    if (send_rc) return send_rc;
    SN[sc] = mbus_frame_pack(f, SENT[sc], 300); sc++;
    if (react) react(SENT[sc - 1], SN[sc - 1]);
    return 0;
}
static mbus_handle *bus(void) { mbus_handle *h = mbus_context_tcp("x", 1); h->recv = frecv; h->send = fsend; return h; }
static long used(void) { return mallinfo2().uordblks; }
"""
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def asan(flags=''): return DEMO.replace('_build/mbus/.libs/libmbus.a', '-g -fsanitize=address,undefined -fno-sanitize-recover=all mbus/mbus-*.c ' + flags).replace('cd "$T" &&', 'cd "$T" && ASAN_OPTIONS=detect_leaks=0')
def wrap(): return DEMO.replace('-lm', '-Wl,--wrap=malloc,--wrap=realloc,--wrap=strdup -lm')
def bug(id, prop, file, old, new, needs, breaks, demo, sh_demo=None, files=None, pre=True):
    """old/new: one edit of file (or lists of (file, old, new)); demo: C source, or sh_demo: shell"""
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='plant')
    edits = [(file, old, new)] if file else old
    try:
        sh(['git', '-C', R, 'worktree', 'prune'])
        subprocess.check_call(f'git -C {R} archive HEAD mbus bin | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True)
        for f, o, n in edits:
            p = os.path.join(t, f); s = open(p).read()
            if s.count(o) != 1: print(id, 'edit matches', s.count(o), 'times in', f, repr(o[:60])); return
            open(p, 'w').write(s.replace(o, n))
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', 'diff'], cwd=t).decode())
    finally:
        shutil.rmtree(t)
    if demo: open(os.path.join(d, 'demo.c'), 'w').write((PRE if pre else '') + demo)
    for n, c in (files or {}).items(): open(os.path.join(d, n), 'w').write(c)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh_demo or DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    made.append(id)
made = []
def confirm(ids):
    assert not sh(['git', '-C', R, 'status', '--porcelain']).stdout, 'repo not clean'
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    sh(['bash', '/opt/vp/build.sh'])
    good = []
    for i in ids:
        d = os.path.join(S, i); msg = []
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=R)
        if r.returncode: msg.append(f'demo fails on the clean tree ({r.returncode}): ' + r.stdout.decode()[-500:])
        clean = r.stdout
        a = sh(['git', '-C', R, 'apply', os.path.join(d, 'patch.diff')])
        if a.returncode: print(i, 'does not apply', a.stdout.decode()); continue
        try:
            sh(['bash', '/opt/vp/test.sh', '/tmp/plant-out.json'])
            o = json.load(open('/tmp/plant-out.json')); miss = base - set(o['passed'])
            if not o['passed'] or miss: msg.append(f'tests fail: {len(o["passed"])} passed, missing {sorted(miss)[:3]}')
            r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=R)
            if r.returncode in (0, 2): msg.append(f'demo gives {r.returncode} with the change: ' + r.stdout.decode()[-300:])
        finally:
            sh(['git', '-C', R, 'checkout', '--', '.'])
            sh(['bash', '/opt/vp/build.sh'])
        print(i, 'OK' if not msg else 'BAD ' + '; '.join(msg), flush=True)
        if not msg: good.append(i)
    sh(['bash', '/opt/vp/build.sh'])
    return good
def check_one(i, props):
    d = os.path.join(S, i); t = tempfile.mkdtemp(prefix='plantc')
    try:
        subprocess.check_call(f'mkdir {t}/repo && git -C {R} archive HEAD | tar x -C {t}/repo && cd {t}/repo && patch -s -p1 < {d}/patch.diff', shell=True)
        own = json.load(open(os.path.join(d, 'meta.json')))['property']
        res = []
        for p in props or [own]:
            r = subprocess.run(['python3', os.path.join(V, 'check.py'), p], env=dict(os.environ, VF_REPO=t + '/repo', VF_BUILD=t + '/b'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o = r.stdout.decode(errors='replace')
            if r.returncode == 1: res.append(p); m = re.search(r'violated: (.*)', o); first = m.group(1)[:150] if m else ''
            elif r.returncode: res.append(f'{p}:rc{r.returncode}'); first = r.stderr.decode()[-200:]
            if r.returncode and p == own: print(f'{i} [{own}] {first}', flush=True)
        print(f'{i} [{own}] ' + ('CAUGHT by ' + ' '.join(res) if res else 'MISSED'), flush=True)
        return i, own, res
    finally:
        shutil.rmtree(t)
if __name__ == '__main__':
    a = sys.argv[2:]; props = None
    if '--all' in a: a.remove('--all'); props = [f'P{k:02d}' for k in range(1, 33)]
    if '--props' in a: k = a.index('--props'); props = a[k + 1].split(','); del a[k:k + 2]
    if sys.argv[1] == 'make':
        for f in a: exec(open(f).read())
        ok = confirm(made)
        with ThreadPoolExecutor(3) as ex: list(ex.map(lambda i: check_one(i, None), ok))
    elif sys.argv[1] == 'confirm': confirm(a or sorted(os.listdir(S)))
    elif sys.argv[1] == 'check':
        with ThreadPoolExecutor(3) as ex: list(ex.map(lambda i: check_one(i, props), a or sorted(os.listdir(S))))
