"""Run solver tasks in forked processes with a hard time limit each."""
import os, sys, time, pickle, select, signal, traceback, resource
def run_tasks(tasks, fn, nproc=8, limit=60, mem_gb=6, total=None, log=None):
    """fn(task) -> picklable result (run in a child).  Yields (task, result) ; result is
    {'status':'inconclusive', ...} on timeout/crash.  `total`: overall wall budget (s)."""
    t0 = time.time(); todo = list(tasks)[::-1]; live = {}
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop()
            if total and time.time() - t0 > total:
                yield t, {'status': 'inconclusive', 'detail': 'check budget exhausted before this task'}; continue
            r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                    sys.setrecursionlimit(20000)
                    try: res = fn(t)
                    except MemoryError: res = {'status': 'inconclusive', 'detail': 'memory limit'}
                    except BaseException as e:
                        res = {'status': 'error', 'detail': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
                    b = pickle.dumps(res); i = 0
                    while i < len(b): i += os.write(w, b[i:i+65536])
                    os.close(w)
                finally: os._exit(0)
            os.close(w)
            lim = t.get('limit', limit) if isinstance(t, dict) else limit
            live[r] = [t, pid, time.time() + lim, bytearray(), time.time()]
        if not live: continue
        rs, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in rs:
            b = os.read(r, 1 << 20)
            if b: live[r][3] += b; continue
            t, pid, dl, buf, ts = live.pop(r); os.close(r); os.waitpid(pid, 0)
            try: res = pickle.loads(bytes(buf))
            except Exception: res = {'status': 'inconclusive', 'detail': 'worker died (memory?)'}
            res['wall'] = round(now - ts, 3)
            yield t, res
        for r in list(live):
            t, pid, dl, buf, ts = live[r]
            if now > dl or (total and now - t0 > total + 5):
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); live.pop(r)
                yield t, {'status': 'inconclusive', 'detail': 'time limit', 'wall': round(now - ts, 3)}
