"""Registry of the checks."""
import front, time
from report import Check, Ob
REG = {}
def check(*ids):
    def d(f):
        for i in ids: REG[i] = f
        return f
    return d
def run(pid):
    import checks_num, checks_struct
    prog = front.Program()
    if prog.errors: print('front end errors:', {k: v[-300:] for k, v in prog.errors.items()})
    REG[pid](pid, prog)
