"""C01-C04: analytic one-electron integrals."""
from verify import *
from scen import linearity


def geoms2(): return ['gen', 'AB']


def plan_two_centre(chk, kind):
    Ls = range(11); tasks = []
    for LA, LB in pairs(Ls):
        tasks.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, prim='sym', geom='gen')))
        if LA <= 4 and LB <= 4 or (LA, LB) in ((10, 10), (10, 0), (0, 10), (7, 9)) or TIER == 'thorough': tasks.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, prim='sym', geom='AB')))
        if LA <= 3 and LB <= 3:
            tasks.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, prim=['n', 'z', 'n'], primB=['z', 'n'], geom='gen')))
            tasks.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, prim=['z'], primB=1, geom='gen')))
            for ax in ('x', 'yz'): tasks.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, prim='sym', geom='gen', axis=ax)))
    small = [dict(LA=a, LB=b, geom='gen') for a, b in pairs(range(3))] + [dict(LA=1, LB=2, geom='AB'), dict(LA=4, LB=3, geom='gen'), dict(LA=5, LB=6, geom='gen')]
    tasks += explore(chk, kind, small, 60 if TIER == 'quick' else 600)
    tasks += extremes(kind, small, 33 if TIER == 'quick' else 330, kind)
    tasks += aliased(kind)
    # bounded: the compiled library against the multiprecision specification
    nat = [(0, 0), (1, 0), (2, 1), (1, 3), (4, 2), (3, 5), (6, 6), (10, 10)]
    for k, (LA, LB) in enumerate(nat * (2 if TIER == 'quick' else 8)):
        c = dict(LA=LA, LB=LB, geom=['gen', 'AB'][k % 3 == 2]); mode = 'wide' if k % 2 and LA + LB < 8 else 'mid'
        tasks.append(dict(kind=kind, cfg=c, q=rand_q(kind, c, SEED * 77 + k, mode, 1 + k % 3), tag='%s %d' % (mode, k)))
    c = dict(LA=1, LB=2, geom='gen'); tasks.append(dict(kind=kind, cfg=c, q=rand_q(kind, c, SEED * 77 + 999, 'mid', 40), tag='40 primitives'))
    tasks += linearity(kind, [dict(LA=a, LB=b) for a, b in ((0, 0), (1, 1), (2, 1), (0, 3), (4, 4))], SEED * 77)
    return tasks


def two_centre(prop, kind):
    chk = Check(prop); session()
    tasks = plan_two_centre(chk, kind)
    run_tasks(chk, tasks, chk.t0 + 400)
    return chk


def C01(): return two_centre('C01', 'overlap')
def C02(): return two_centre('C02', 'kinetic')
def C03(): return two_centre('C03', 'momentum')


def C04():
    chk = Check('C04'); session(); T = []; K = 'type1'
    for pw in (0, 1, 2):
        for LA, LB in pairs(range(11)):
            c = dict(LA=LA, LB=LB, powers=pw, geom='gen')
            cost = ((LA + 1) * (LB + 1)) ** 2 * (LA + LB + 1) ** 3 * (0.02 if pw == 2 else 1)
            if LA + LB <= 6: T.append(dict(kind=K, cfg=dict(c, prim='sym'), cost=cost))
            else:
                T.append(dict(kind=K, cfg=dict(c, prim=1), cost=cost)); T.append(dict(kind='type1_mod', cfg=dict(c, prim='sym'), modular=True, cost=0))
                if TIER == 'thorough': T.append(dict(kind=K, cfg=dict(c, prim='sym'), cost=cost * 8))
            if LA <= 2 and LB <= 2 or (LA, LB) in ((3, 1), (4, 4)):
                for g in ('AB', 'AC', 'BC', 'ABC'): T.append(dict(kind=K, cfg=dict(c, prim='sym', geom=g)))
                for ax in ('z', 'xy'): T.append(dict(kind=K, cfg=dict(c, prim='sym', axis=ax)))
                T.append(dict(kind=K, cfg=dict(c, prim=['z', 'n', 'n'], primB=['n', 'z'], primU=['n', 'z', 'n', 'z'])))
                T.append(dict(kind=K, cfg=dict(c, prim=['z'], primB=1, primU=['n'])))
                T.append(dict(kind=K, cfg=dict(c, prim=1, primU=['z'])))
    for LA, LB in pairs(range(4)):
        T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim=1, primU=4, powers=[2, 0, 1, 0])))
        T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim='sym', nopot=1)))
    small = [dict(LA=a, LB=b, powers=[n, 1], primU=2, geom=g) for a, b in ((0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (3, 2)) for n, g in ((0, 'gen'), (1, 'gen'), (2, 'gen'), (0, 'AC'), (1, 'BC'), (0, 'ABC'))]
    T += explore(chk, K, small, 72 if TIER == 'quick' else 600)
    T += extremes(K, small, 33 if TIER == 'quick' else 330, K)
    for LA, LB in pairs(range(3)): T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim=1, primU=['n', 'e', 'd', 'n', 'e'], powers=[2, 0, 0, 1, 1])))
    for pw in (0, 1, 2): T += aliased(K, (0, 1, 2), powers=pw)
    nat = [(0, 0), (1, 0), (2, 1), (1, 3), (4, 2), (3, 5), (0, 6), (5, 5)]
    for k in range(28 if TIER == 'quick' else 200):
        LA, LB = nat[k % 8]; c = dict(LA=LA, LB=LB, geom=list(cases.GEOMS)[k % 5]); mode = 'wide' if k % 2 and LA + LB < 7 else 'mid'
        T.append(dict(kind=K, cfg=c, q=rand_q(K, c, SEED * 77 + k, mode, 1 + (k // 8) % 3 if LA + LB < 8 else 1), tag='%s %d' % (mode, k), cost=3e4))
    c = dict(LA=1, LB=0, geom='gen'); T.append(dict(kind=K, cfg=c, q=rand_q(K, c, SEED * 77 + 999, 'mid', 12), tag='12 primitives', cost=1e6))
    c = dict(LA=10, LB=10, geom='gen', powers=1); T.append(dict(kind=K, cfg=c, q=rand_q(K, c, SEED * 77 + 998, 'mid', 1), tag='L=10', cost=1e9))
    T += linearity(K, [dict(LA=a, LB=b) for a, b in ((0, 0), (1, 1), (2, 1), (0, 3))], SEED * 77)
    run_tasks(chk, T, chk.t0 + 500)
    chk.assumptions = ['boys_values and gfun_values satisfy their contract (property C14): out[n] = F_n(x), g_n(x)', 'for L_A+L_B > 6 the primitive integral is verified with one primitive per contraction and the contraction loops against the contract of the primitive routine (no bound on the number of primitives)']
    return chk


def C10():
    chk = Check('C10'); session(); T = []; K = 'overlap_gradient'
    for LA, LB in pairs(range(11)):
        for g in ('gen/A', 'gen/B'): T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim='sym', geom=g)))
        if LA <= 3 and LB <= 3 or (LA, LB) in ((10, 10), (10, 0), (0, 10), (7, 9)) or TIER == 'thorough':
            for g in ('gen', 'AB/A', 'AB'): T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim='sym', geom=g)))
        if LA <= 2 and LB <= 2:
            for g in ('gen/A', 'gen/B'):
                T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim=['n', 'z', 'n'], primB=['z', 'n'], geom=g)))
                T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim=['z'], primB=1, geom=g)))
                for ax in ('x', 'yz'): T.append(dict(kind=K, cfg=dict(LA=LA, LB=LB, prim='sym', geom=g, axis=ax)))
    small = [dict(LA=a, LB=b, geom=g) for a, b in pairs(range(3)) for g in ('gen/A', 'gen/B')]
    T += explore(chk, K, small, 40 if TIER == 'quick' else 600)
    T += extremes(K, small, 44 if TIER == 'quick' else 440, K)
    T += aliased(K, grad=1)
    nat = [(0, 0), (1, 0), (2, 1), (1, 3), (4, 2), (3, 5), (6, 6), (10, 10)]; gs = ['gen/A', 'gen/B', 'AB/A', 'gen', 'gen/A']
    for k, (LA, LB) in enumerate(nat * (3 if TIER == 'quick' else 10)):
        c = dict(LA=LA, LB=LB, geom=gs[k % 5]); mode = 'wide' if k % 2 and LA + LB < 8 else 'mid'
        T.append(dict(kind=K, cfg=c, q=rand_q(K, c, SEED * 77 + k, mode, 1 + k % 3), tag='%s %d' % (mode, k)))
    T += linearity(K, [dict(LA=a, LB=b, geom=g) for a, b, g in ((0, 0, 'gen/A'), (1, 1, 'gen/B'), (2, 1, 'gen/A'), (0, 3, 'gen/B'))], SEED * 77)
    run_tasks(chk, T, chk.t0 + 400)
    chk.assumptions = ['centres closer than 1e-12 count as the same point; centres at general positions are distinct']
    return chk
