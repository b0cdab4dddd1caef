"""Compiled C++ drivers: one text line per case on the standard input, one JSON line per case on the output (a crash of a case
is reported by the driver, which runs each case in a child process)."""
import json, os, signal, subprocess, tempfile, threading, concurrent.futures as cf
import vlib

def build(c, name, sub=(), shim=True, core=False):
    srcs = [vlib.VERIF + '/harness/cpp/%s.cpp' % name] + (c.build.sources(sub) if sub else [])
    return c.build.exe(name, srcs, c.build.objs if core else [], flags=['-include', vlib.VERIF + '/harness/cpp/shim.hpp'] if shim else [])

def run(exe, lines, hw=4, scratch='/tmp'):
    """One answer per line; after six answers that took too long or 200 crashes the rest is left out ('skipped')."""
    n = vlib.NCPU
    bad = {'slow': 0, 'crash': 0}
    left = {'status': 'crash', 'code': 'skipped', 'crash': 'skipped', 'count': 0, 'runs': []}
    def over():
        return bad['slow'] >= 6 or bad['crash'] >= 200
    def part(k):
        mine = lines[k::n]
        if not mine:
            return []
        out = []
        with tempfile.TemporaryFile('w+', dir=scratch) as f, tempfile.TemporaryFile('w+', dir=scratch) as err:
            f.write('\n'.join(mine) + '\n')
            f.seek(0)
            p = subprocess.Popen([exe], stdin=f, stdout=subprocess.PIPE, stderr=err, text=True, env=dict(os.environ, VP_HW=str(hw)), cwd=scratch, start_new_session=True)
            timer = threading.Timer(3000, p.kill)
            timer.start()
            for x in p.stdout:
                if x[:1] not in '{[':
                    continue
                o = json.loads(x)
                out.append(o)
                if isinstance(o, dict) and ('crash' in o or o.get('status') == 'crash'):
                    code = o.get('crash', o.get('code'))
                    bad['slow' if abs(int(code)) % 128 == 14 else 'crash'] += 1
                if over():
                    break
            cut = len(out) < len(mine) and over()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            timer.cancel()
            p.wait()
            if cut:
                return out + [left] * (len(mine) - len(out))
            if len(out) != len(mine):
                err.seek(0)
                raise vlib.Infra('driver answered %d of %d: %s' % (len(out), len(mine), err.read()[-500:]))
        return out
    res = [None] * len(lines)
    with cf.ThreadPoolExecutor(n) as ex:
        for k, o in enumerate(ex.map(part, range(n))):
            res[k::n] = o
    return res
