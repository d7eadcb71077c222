"""Independent parts of one analysis in parallel processes."""
import os, pickle, ctypes, signal, selectors, traceback

def jobs(): return max(1, min(6, int(os.environ.get('VERIF_JOBS', '0')) or len(os.sched_getaffinity(0))))
def fork_map(f, items):
    """[f(x) for x in items], each in a forked process; None for one that ended without a result"""
    items = list(items); n = jobs()
    if n == 1 or len(items) < 2: return [f(x) for x in items]
    out = [None] * len(items); todo = list(range(len(items))); run = {}; sel = selectors.DefaultSelector()
    def start(i):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # ends with the parent
                os.close(r); b = pickle.dumps(f(items[i]))
                with os.fdopen(w, 'wb') as fh: fh.write(b)
            except BaseException: 
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            finally: os._exit(0)
        os.close(w); run[r] = (i, pid, []); sel.register(r, selectors.EVENT_READ)
    while todo or run:
        while todo and len(run) < n: start(todo.pop(0))
        for key, _ in sel.select():
            r = key.fd; i, pid, parts = run[r]; b = os.read(r, 1 << 20)
            if b: parts.append(b); continue
            sel.unregister(r); os.close(r); del run[r]; os.waitpid(pid, 0)
            try: out[i] = pickle.loads(b''.join(parts)) if parts else None
            except Exception: out[i] = None
    return out
