"""C01-C09: registered expressions against their definitions."""
from checks import check
from report import Check, Ob
from compare import *
from par import fork_map
import os, traceback

GROUPS = {
    'chain': ('thunder_ns::compute_chain', ['T_#', 'T_0_#']),
    'jac': ('thunder_ns::compute_jacobians', ['J_#']),
    'adv': ('thunder_ns::compute_kin_adv', ['J_ee_dot', 'J_ee_ddot', 'J_ee_pinv']),
    'MCG': ('thunder_ns::compute_MCG', ['J_cm_#', 'M', 'G', 'C', 'C_std']),
    'dd': ('thunder_ns::compute_dyn_derivatives', ['M_dot', 'M_ddot', 'C_dot', 'C_ddot', 'G_dot', 'G_ddot']),
    'el': ('thunder_ns::compute_elastic', ['k', 'K#', 'd', 'D#', 'dm', 'Dm#', 'Mm']),
    'dl': ('thunder_ns::compute_Dl', ['dl', 'Dl#']),
    'Yr': ('thunder_ns::compute_Yr', ['reg_M', 'reg_C', 'reg_G', 'Yr']),
    'rdl': ('thunder_ns::compute_reg_Dl', ['reg_dl']),
    'rel': ('thunder_ns::compute_reg_elastic', ['reg_k', 'reg_d', 'reg_dm', 'reg_Mm']),
    'rJ': ('thunder_ns::compute_reg_J', ['reg_Jdq', 'reg_JTw'])}
PROPS = {
    'C01': [('chain', None)], 'C02': [('jac', None)], 'C03': [('adv', None)],
    'C04': [('MCG', ['J_cm_#', 'M', 'G'])], 'C05': [('MCG', ['C', 'C_std'])], 'C06': [('dd', None)],
    'C07': [('el', None), ('dl', None)], 'C08': [('Yr', None)], 'C09': [('rdl', None), ('rel', None), ('rJ', None)]}
RULE = ('value numbering by abstract interpretation. Every expression the code registers under a published name is computed as a term '
        'over the robot\'s variables (loops summarised by their index, other published quantities by name) and compared with its reference '
        'definition entry by entry; first with the number of joints, elastic joints and orders symbolic, then for fixed sizes')
EXTRA = [
    (4, (0, 1, 0, 1), {'K_order': 3, 'D_order': 4, 'Dl_order': 4, 'Dm_order': 4}, 'alt'),
    (5, (1, 1, 0, 0, 1), {'K_order': 2, 'D_order': 3, 'Dl_order': 5, 'Dm_order': 2}, 'alt2'),
    (6, (1, 0, 0, 1, 0, 1), {'K_order': 5, 'D_order': 4, 'Dl_order': 6, 'Dm_order': 3}, 'alt2'),
    (7, (0, 0, 1, 1, 0, 1, 1), {'K_order': 4, 'D_order': 5, 'Dl_order': 3, 'Dm_order': 5}, 'alt'),
    (9, (1, 1, 1, 1, 1, 0, 1, 1, 1), {'K_order': 9, 'D_order': 8, 'Dl_order': 9, 'Dm_order': 8}, 'alt2'),
    (12, (1, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 0), {'K_order': 2, 'D_order': 3, 'Dl_order': 2, 'Dm_order': 2}, 'alt'),
]
# largest number of joints analysed, quick and thorough
LIMIT = {'T_0_#': (6, 7), 'J_cm_#': (7, 9), 'M': (5, 7), 'G': (7, 9), 'C': (6, 7), 'C_std': (6, 7), 'C_ddot': (9, 12), 'reg_M': (7, 9), 'reg_C': (4, 5), 'Yr': (4, 5),
         'reg_Jdq': (9, 9), 'reg_JTw': (9, 9)}
SMALL = ('Yr', 'MCG')

def general(prog, grp, fams):
    fn, all_ = GROUPS[grp]
    try: return compare_param(prog, fn, fams or all_)
    except Exception as ex: return [Result(fn, 'open', 'analysis gave up: %s: %s' % (type(ex).__name__, ex), mode='any number of joints')]
def judged(prog, grp, fams, pat, pipe):
    fn, all_ = GROUPS[grp]
    try: return compare_instance(prog, fn, fams or all_, pat, pipe=pipe)
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return [Result(fn, 'undecided', 'analysis gave up: %s: %s' % (type(ex).__name__, ex), mode='n=%d' % pat[0])]
def instances(c, prog, grp, todo):
    """todo: (families, sizes or None for any size, registered through robot_from_file); True if all is proved for any size"""
    alone = True
    for (fams, pat, pipe), rs in zip(todo, fork_map(lambda t: general(prog, grp, t[0]) if t[1] is None else judged(prog, grp, *t), todo)):
        if pat is None:
            for r in rs or []: c.add(Ob(r.name, 'proved' if r.status == 'proved' else 'open', r.detail, r.loc, r.mode, key='%s:any:%s' % (grp, r.name)))
            alone = alone and bool(rs) and all(r.status == 'proved' for r in rs); continue
        if rs is None: rs = [Result(GROUPS[grp][0], 'undecided', 'the analysis ended without a result', mode='n=%d' % pat[0])]
        for r in rs:
            st = {'equal': 'bounded', 'violation': 'violation', 'agree': 'open', 'undecided': 'open', 'missing': 'open'}[r.status]
            c.add(Ob(r.name, st, r.detail, r.loc, r.mode, key='%s:%s' % (grp, r.name)))
    return alone

@check(*PROPS)
def run(pid, prog):
    c = Check(pid, RULE, 'other')
    c.assume = ['joint types are the four documented ones', 'casadi, Eigen and std operations behave as modelled in engine/lib.py', 'real arithmetic (rounding is not modelled)']
    for grp, fams in PROPS[pid]:
        fn = GROUPS[grp][0]
        f = prog.fn(fn)
        if f: c.funcs.add('%s (%s:%d)' % (fn, f['file'], f['l']))
        # which columns a parameter regressor has depends on the symbolic flags, entry by entry: fixed sizes only
        anyn = [(fams, None, False)] if grp not in ('rdl', 'rel', 'rJ') else []
        upto = lambda f: LIMIT.get(f, (12, 12))[c.tier == 'thorough']
        # the last one: the same functions as robot_from_file registers them
        first = [(fams, p, False) for p in PATTERNS] + [(fams, PATTERNS[1] if grp not in SMALL else PATTERNS[0], True)]
        extra = [(fs, p, False) for p in EXTRA for fs in [[f for f in fams or GROUPS[grp][1] if p[0] <= upto(f) and not (p[0] == 9 and grp in ('rdl', 'rel'))]] if fs]
        if grp in SMALL: anyn, first, extra = ([([f], p, q) for fs, p, q in l for f in fs or GROUPS[grp][1]] for l in (anyn, first, extra))
        if c.tier == 'thorough': instances(c, prog, grp, anyn + first + extra)
        elif not (instances(c, prog, grp, anyn + first) and anyn) and not any(o.status == 'violation' for o in c.obs): instances(c, prog, grp, extra)
    c.minimum = 1
    c.finish()
