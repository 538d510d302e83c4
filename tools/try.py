#!/usr/bin/env python3
"""Quick experiments: edits of the library (in a scratch directory, never in /repo) put through the checks that should see them.
  try.py SPEC.py [NAME...]     SPEC defines T = [(name, 'P01 P02', 'mbus/x.c', old, new), ...]; old/new may be lists for several sites"""
import sys, os, importlib.util, subprocess, time, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('mutate', os.path.join(V, 'tools/mutate.py')); M = importlib.util.module_from_spec(spec); spec.loader.exec_module(M)
M.W = '/tmp/mut/try%d' % os.getpid()
def main():
    T = runpy.run_path(sys.argv[1])['T']; want = sys.argv[2:]
    M.setup(); W = M.W
    for name, props, path, old, new in T:
        if want and name not in want: continue
        base = os.path.basename(path); tool = path.startswith('bin/'); tgt = f'{W}/src/{path}'
        src = open('/repo/' + path, encoding='latin1').read(); m = src
        for o, n in zip([old] if isinstance(old, str) else old, [new] if isinstance(new, str) else new):
            if m.count(o) != 1: print(f'{name}: found {m.count(o)} times: {o[:60]!r}'); m = None; break
            m = m.replace(o, n)
        if m is None: continue
        open(tgt, 'w', encoding='latin1').write(m)
        ok = M.tobj(tgt) if tool else M.cobj(tgt, False) and M.cobj(tgt, True)
        if not ok: print(f'{name}: does not compile'); open(tgt, 'w', encoding='latin1').write(src); continue
        t0 = time.time(); res = []
        for p in props.split():
            exe = M.link(M.C.HARNESS[p][0]); out = f'{W}/out.json'
            r = subprocess.run([exe, '--prop', p, '--seed', '1', '--jobs', '8', '--replays', W, '--out', out, '--limit', '200'], env=M.C.ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            msg = ''
            if r.returncode == 1:
                try: import json; msg = json.load(open(out))['message'][:140]
                except Exception: pass
            res.append((p, r.returncode, msg))
        hit = any(c == 1 for _, c, _ in res)
        print(('caught ' if hit else 'MISSED ') + name + '  ' + '; '.join(f'{p}:{"caught" if c == 1 else "quiet" if c == 0 else "rc=%d" % c} {g}' for p, c, g in res) + f' ({time.time()-t0:.0f}s)', flush=True)
        open(tgt, 'w', encoding='latin1').write(src)
        M.tobj(tgt) if tool else (M.cobj(tgt, False), M.cobj(tgt, True))
    shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__': main()
