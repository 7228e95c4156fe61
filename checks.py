import os
from vlib import Job
T = ('thorough',)
CHECKS = {}
def check(prop, title, bounds, assumptions=()):
    def deco(f):
        CHECKS[prop] = dict(title=title, jobs=f, bounds=bounds, assumptions=list(assumptions)); return f
    return deco

HD = os.path.dirname(os.path.abspath(__file__)) + '/harness/'
LAT = ['lattice/lattice.cpp', 'utility/vector.cpp']
@check('P08', 'lattice index', 'L0,L1 in 1..MAXL (8 quick, 16 thorough), all coordinates/displacements of each lattice')
def p08():
    J = []
    for tier, m in (('quick', 8), ('thorough', 16)):
        for e in ('h_lat_bij', 'h_lat_shift', 'h_lat_disp'):
            J.append(Job(e, 'h_lattice.cpp', LAT, dict(MAXL=m, PICK=0), tiers=(tier,), time=60 if tier == 'quick' else 600, reach=['end']))
    return J
@check('P28', 'vector arithmetic', 'components |x|<=1e6, scalars |k|<=2000; all finite doubles')
def p28():
    return [Job('h_vec_int', 'h_vec.cpp', ['utility/vector.cpp'], reach=['end']), Job('h_vec_real', 'h_vec.cpp', ['utility/vector.cpp', 'utility/utility.cpp'], defs=['-include', HD + 'nothrow.h'], reach=['end'])]
@check('P09', 'momentum arithmetic', 'all 20001 legal momenta per operand; integer operands |k|<=1e6, scale factors |k|<=8')
def p09():
    S = ['utility/momentum.cpp']
    return [Job(e, 'h_momentum.cpp', S, reach=['end']) for e in ('h_mom_add', 'h_mom_slots', 'h_mom_sign', 'h_mom_scale', 'h_mom_int')]
@check('P14', 'random numbers', 'every 32-bit engine output, every integer interval within |1e6|')
def p14():
    S = ['utility/rng.cpp']
    return [Job(e, 'h_rng.cpp', S, opts=['--no-rng'], reach=['end']) for e in ('h_urn', 'h_irn', 'h_rng_onto', 'h_urn_mono')]
# ---------------------------------------------------------------- Markov updates
MKS = ['module/markov/markov.cpp', 'module/markov/gamma3_updates.cpp', 'module/diagram/diagram.cpp', 'module/diagram/component.cpp',
       'module/diagram/component_bundle.cpp', 'utility/momentum.cpp', 'utility/rng.cpp', 'utility/complex.cpp', 'utility/vector.cpp', 'lattice/lattice.cpp']
K7 = dict(MAX_K=(10000, 7))
SPLIT = {12: dict(PICKM=1), 13: dict(PICKM=1), 20: dict(GK=1, PICKG=1), 22: dict(GK=2, PICKG=1), 19: dict(GK=0), 21: dict(GK=0)}
HEAVY = (5, 7)       # the two updates that add an interaction: the longest jobs, started first
OPS = [o for o in range(23) if o != 16]   # 16 (ChangeSpinOnVertex) is never dispatched
MB = ('every diagram of order 0-2 (2 -> 3 for the two adding updates), every topology, worm position, spin, site of a 9x8 lattice with 7 sublattices, momentum '
      'label (momentum range MAX_K scaled from 10000 to 7; order 1 repeated with 10000 in the thorough tier), measuring/instantaneous/three-vertex mark and random draw; '
      'weights, times and reweighting factors are elements of an uninterpreted commutative group (magnitude and phase)')
MA = ['weight tables are arbitrary functions of their arguments', 'magnitudes/phases multiply exactly (no rounding)', 'ChangeSpinOnVertex (never dispatched) excluded']
def mkjobs(entry, extra, native=None, tier_all=False):
    J = []
    def add(op, n, t, scale, tiers, **kw):
        p = dict(OP=op, N=n); p.update(extra); p.update(kw)
        J.append(Job(entry, 'h_markov.cpp', MKS, p, fp='group', opts=['--fork-draws', '6'], time=t, tiers=tiers, scale=scale, reach=['end'], seeds=7 if entry == 'h_balance' else 3))
    B = ('quick', 'thorough')
    for op in OPS:
        if op in HEAVY: add(op, 2, 560, K7, B)
    for op in OPS:
        if op not in HEAVY: add(op, 2, 200, K7, B, **SPLIT.get(op, {}))
    for op in OPS: add(op, 1, 60, K7, B)
    for op in OPS: add(op, 1, 600, None, T)
    for op in (5, 7): add(op, 1, 60, K7, B, MAXO=1)
    for op in OPS: add(op, 0, 60, K7, B if op in (5, 7, 17, 18, 12, 13, 9) else T)
    for op in (0, 4, 9, 12): add(op, 1, 60, K7, B, GAMMA=0)
    return J
for _p, _t, _m, _x in (('P01', 'diagram topology', 1, {}), ('P02', 'momentum', 2, {}), ('P03', 'spin', 4, {}), ('P04', 'weights', 8, {}),
                       ('P06', 'rejection', 32, {}), ('P07', 'marks', 64, dict(LOCAL=1))):
    check(_p, _t, MB, MA)(lambda m=_m, x=_x: mkjobs('h_update', dict(MASK=m, **x)))
check('P05', 'detailed balance', MB, MA)(lambda: mkjobs('h_balance', {}))
# ---------------------------------------------------------------- lookup tables, pools, numbers, estimators
NA = ['-fno-access-control']
IDX = ['lattice/lattice.cpp', 'utility/vector.cpp', 'module/weight/index_map.cpp']
@check('P10', 'table index layout', 'lattices 1..3 x 1..3 (thorough 1..4), 1..3 sublattices, 1/3/8 time bins (thorough also 32), every spin, sublattice, pair of sites and time bin',
       ['time differences are the centres of the bins (which bin a time falls into is P11)'])
def p10():
    J = []
    for e in ('h_index2', 'h_index4'):
        J.append(Job(e, 'h_index.cpp', IDX, dict(MAXL=3, MAXS=3, NM=2, NB=1), time=200, tiers=('quick',), reach=['end']))
        J.append(Job(e, 'h_index.cpp', IDX, dict(MAXL=4, MAXS=3, NM=3, NB=3), time=800, tiers=T, reach=['end']))
    return J
@check('P11', 'time bins', 'inverse temperatures 0.5,0.9,1.3,2,7,1000/3; 1,3,8,32,100,128 bins; every time difference in [-Beta(1-1e-9), Beta(1-1e-9)]', ['exact real arithmetic for the time'])
def p11(): return [Job(e, 'h_index.cpp', IDX, fp='real', time=200, reach=['end']) for e in ('h_tau', 'h_tau_bin', 'h_tau_sign')]
WS = ['module/weight/component.cpp', 'module/weight/component_MC.cpp', 'module/weight/index_map.cpp', 'module/weight/weight_array.cpp', 'module/weight/weight_estimator.cpp',
      'module/weight/gamma3.cpp', 'lattice/lattice.cpp', 'utility/complex.cpp', 'utility/vector.cpp']
WB = 'lattices 1..2 x 1..3, 1..2 sublattices, %s time bins, Beta=1.5; every spin, site, time pair and line kind; the table is an arbitrary function of the entry'
@check('P12', 'weight lookup', WB % '2 (thorough 3)', ['exact real arithmetic; times at least 1e-7 away from a bin edge'])
def p12():
    return [Job(e, 'h_weight.cpp', WS, dict(M=m), fp='real', defs=NA, time=t, tiers=ti, reach=['end'])
            for e in ('h_g_weight', 'h_w_weight') for m, t, ti in ((2, 300, ('quick',)), (3, 850, T))]
@check('P17', 'weight accumulation', WB % '2 (thorough 3)' + '; orders 1..3 (self energy), 1..2 (polarization)', ['exact real arithmetic; times at least 1e-7 away from a bin edge'])
def p17():
    return [Job(e, 'h_weight.cpp', WS, dict(M=m), fp='real', defs=NA, time=t, tiers=ti, reach=['end'])
            for e in ('h_sigma', 'h_polar') for m, t, ti in ((2, 300, ('quick',)), (3, 850, T))]
@check('P13', 'component pools', 'pools of 6 objects (thorough 8; MAX_ORDER lowered from 10 to 3/4): every assignment of objects to names, every number in use, every object removed',
       ['the pool is handled uniformly in its size'])
def p13():
    J = []; S = ['module/diagram/component_bundle.cpp', 'module/diagram/component.cpp', 'utility/rng.cpp', 'utility/momentum.cpp', 'utility/complex.cpp']
    for n, t, ti in ((3, 100, ('quick',)), (4, 800, T)):
        for k in 'gwv':
            for op in (0, 1, 2): J.append(Job('h_pool_' + k, 'h_pool.cpp', S, dict(OP=op), fp='real', defs=NA, scale=dict(MAX_ORDER=(10, n)), time=t, tiers=ti, reach=['end']))
    J.append(Job('h_pool_new', 'h_pool.cpp', S, fp='real', defs=NA, time=100, reach=['end']))
    return J
@check('P15', 'complex arithmetic', 'all complex numbers with |components| <= 1000 (divisors of modulus > 1e-3), over the reals; transcendental functions uninterpreted', ['exact real arithmetic (no rounding)'])
def p15():
    D = ['-include', os.path.dirname(os.path.abspath(__file__)) + '/harness/nothrow.h']
    return [Job('h_complex_' + e, 'h_complex.cpp', ['utility/complex.cpp', 'utility/utility.cpp'], fp='real', defs=D, time=100, reach=['end']) for e in ('add', 'mul', 'div', 'mod', 'sqrt', 'fn', 'pow')] + [Job('h_complex_pow', 'h_complex.cpp', ['utility/complex.cpp', 'utility/utility.cpp'], dict(SMALL=1), fp='real', defs=D, time=100, reach=['end'])]
@check('P16', 'measurement statistics', 'series of 8 recorded values (complex: 4; SIZE lowered from 10000), any number in use, any thinning interval up to 1000 and pending count, any values up to 1e6', ['exact real arithmetic (no rounding)'])
def p16():
    J = []; S = ['estimator/estimator.cpp', 'utility/complex.cpp']
    for e in ('measure', 'record', 'estimate', 'squeeze', 'clear', 'bundle'):
        J.append(Job('h_est_' + e, 'h_estimator.cpp', S, fp='real', defs=NA, scale=dict(SIZE=(10000, 8)), time=100, reach=['end']))
        J.append(Job('h_est_' + e, 'h_estimator.cpp', S, fp='real', defs=NA + ['-DCPX'], scale=dict(SIZE=(10000, 4)), time=100, reach=['end']))
    return J
HD = os.path.dirname(os.path.abspath(__file__)) + '/harness/'
NT = ['-include', HD + 'nothrow.h']
MON = ['module/markov/markov_monitor.cpp', 'estimator/estimator.cpp', 'module/weight/weight_estimator.cpp', 'module/weight/weight_array.cpp', 'utility/complex.cpp', 'utility/vector.cpp',
       'utility/utility.cpp', 'lattice/lattice.cpp', 'module/diagram/component.cpp', 'module/diagram/component_bundle.cpp', 'utility/momentum.cpp']
def mon(es): return [Job(e, 'h_monitor.cpp', MON, fp='real', defs=NA + NT, scale=dict(SIZE=(10000, 2)), time=100, reach=['end']) for e in es]
@check('P18', 'measurement routing', 'orders 0..2 of a maximum of 2, worm or not, either measuring line, no/one three-vertex, with and without the three-vertex run; every site, time, spin, phase and reweighting factor',
       ['exact real arithmetic; the four accumulation routines are recorders here (their own behaviour is P17 and P20)'])
def p18(): return mon(['h_measure'])
@check('P19', 'reweighting', 'maximum order 2, with and without the three-vertex run; every count (0 or > 1e-3, up to 1e6), norm and factor', ['exact real arithmetic'])
def p19(): return mon(['h_reweight', 'h_print', 'h_squeeze'])
WG = WS + ['module/weight/weight.cpp', 'utility/rng.cpp']
@check('P20', 'three-vertex tables', 'lattices 1..2 x 1..2, 3 x 1 and 1 x 3, 2 time bins, Beta=1.5; every spin, site, time triple, arbitrary tables and arbitrary symmetry maps; annealing between temperatures 0.5, 1.5, 4',
       ['exact real arithmetic; times at least 1e-7 away from a bin edge'])
def p20():
    J = []
    def a(e, t, ti=('quick', 'thorough'), **p): J.append(Job(e, 'h_gamma.cpp', WG, p, fp='real', defs=NA, time=t, tiers=ti, reach=['end']))
    for lk in range(4): a('h_gamma_lines', 300, LK=lk)
    for lk in range(6): a('h_gamma_w', 400, LK=lk)
    for lk in (4, 5): a('h_gamma_g', 200, LK=lk)
    a('h_gamma_g', 100); a('h_gamma_stat', 60); a('h_gamma_anneal', 60)
    return J
@check('P21', 'signals during a checkpoint', 'every sequence of 5 (thorough 7) steps out of: protect, release, interrupt signal, termination signal', ['signal() and exit() are modelled; a signal is delivered between two calls'])
def p21():
    return [Job('h_signal', 'h_signal.cpp', ['utility/abort.cpp'], dict(STEPS=n), fp='real', defs=NA + ['-include', HD + 'env_signal.h'], time=t, tiers=ti, reach=['end']) for n, t, ti in ((5, 100, ('quick',)), (7, 800, T))]
@check('P22', 'interval timers', 'every sequence of 3 (thorough 4) calls of start/restart/check with any interval, under any non-decreasing clock advancing up to 100000 s between readings', ['time() and clock() are modelled'])
def p22():
    D = NA + ['-include', HD + 'env_clock.h']; S = ['utility/timer.cpp']
    return [Job('h_timer', 'h_timer.cpp', S, dict(STEPS=n), fp='real', defs=D, time=t, tiers=ti, reach=['end']) for n, t, ti in ((3, 100, ('quick',)), (4, 800, T))] + [Job('h_elapsed', 'h_timer.cpp', S, fp='real', defs=D, time=60, reach=['end'])]
@check('P30', 'tables, normalization, annealing', 'tables of 12 entries with arbitrary contents; accumulators of 2 orders x 8 entries in an arbitrary state; temperatures 0.5, 1.5, 4', ['exact real arithmetic (temperature ratios to 1e-9)'])
def p30():
    J = [Job(e, 'h_table.cpp', WS, fp='real', defs=NA, time=100, reach=['end']) for e in ('h_array', 'h_west', 'h_anneal_sigma', 'h_anneal_bins')]
    return J + [Job('h_array_unset', 'h_table.cpp', WS, fp='real', defs=NA, time=60)]
@check('P24', 'derived data', 'every diagram of order 1 and 2, worm or not, with arbitrary stale links, directions, marks, weights, order and worm data; momentum range MAX_K scaled from 10000 to 7', MA[:2])
def p24():
    J = [Job('h_fix', 'h_markov.cpp', MKS, dict(N=1), fp='group', opts=['--fork-draws', '6'], time=60, scale=K7, reach=['end'])]
    return J + [Job('h_fix', 'h_markov.cpp', MKS, dict(N=2, WORM=w, HOW=h), fp='group', opts=['--fork-draws', '6'], time=400, scale=K7, reach=['end']) for w in (0, 1) for h in (0, 1)]
@check('P23', 'diagram self-check', 'every topology of order 1 and 2 (momenta and weights: order 1) with arbitrary counts and links, or marks and worm ends, or momenta, or spins, or one line weight with its table value, or the diagram weight',
       ['exact real arithmetic; differences within 10% of the tolerance 1e-9 excluded', 'one kind of data arbitrary at a time; all other kinds consistent'])
def p23():
    S = ['module/diagram/diagram_check.cpp', 'module/diagram/diagram.cpp', 'module/diagram/component.cpp', 'module/diagram/component_bundle.cpp', 'utility/momentum.cpp', 'utility/rng.cpp',
         'utility/complex.cpp', 'utility/vector.cpp', 'utility/utility.cpp', 'lattice/lattice.cpp']
    return [Job('h_check', 'h_check.cpp', S, dict(N=n, KIND=k), fp='real', defs=NT, scale=K7, time=300, reach=['end']) for n, k in ((1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (2, 0), (2, 1), (2, 3))]
@check('P25', 'checkpoints', 'diagrams of order 1 and 2 (any topology, worm, pool arrangement; MAX_K scaled from 10000 to 7) into a diagram object of the other order; series of up to 4 entries (SIZE lowered from 10000), 2 named series; '
       'accumulators of order 1-2 with 4 entries per order, tables on a 1x1 lattice with 2 time bins; run parameters of any value with up to 3 order factors; monitors of order 1-2 into order 1-3',
       ['the Python-backed dictionary and file layer is modelled: what was stored under a key is what is read under it', 'the state of the random generator is copied as a whole (its text form belongs to the standard library)', 'exact real arithmetic'])
def p25():
    SH = ['-I' + HD + 'shim']; RS = ['-DREAL_STRINGS'] + SH + NA + NT; TS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> ToString<int>(int const&)=shim_tostring_int'
    DG = ['module/diagram/diagram_IO.cpp', 'module/diagram/diagram.cpp', 'module/diagram/component.cpp', 'module/diagram/component_bundle.cpp', 'utility/momentum.cpp', 'utility/rng.cpp', 'utility/complex.cpp', 'utility/vector.cpp', 'lattice/lattice.cpp']
    J = [Job('h_ckpt_diag', 'h_ckpt.cpp', DG, dict(N=n), fp='group', opts=['--fork-draws', '6'], defs=SH, scale=K7, time=300, reach=['end']) for n in (1, 2)]
    ES = ['estimator/estimator.cpp', 'utility/utility.cpp'] + WS
    for c in ([], ['-DCPX']):
        for e in ('h_ck_est', 'h_ck_est_long', 'h_ck_bundle'): J.append(Job(e, 'h_ckdata.cpp', ES, fp='real', opts=['--strings'], defs=RS + c, scale=dict(SIZE=(10000, 4)), time=100, reach=['end']))
    J.append(Job('h_ck_bundle', 'h_ckdata.cpp', ES, dict(ALLOW=1), fp='real', opts=['--strings'], defs=RS, scale=dict(SIZE=(10000, 4)), time=100, reach=['end']))
    for e in ('h_ck_west', 'h_ck_g', 'h_ck_w', 'h_ck_sigmapolar', 'h_ck_gammag', 'h_ck_gammaw'): J.append(Job(e, 'h_ckdata.cpp', ES, fp='real', opts=['--strings'], defs=RS, scale=dict(SIZE=(10000, 4)), time=100, reach=['end']))
    PA = ['module/parameter/parameter.cpp', 'lattice/lattice.cpp', 'utility/vector.cpp', 'utility/complex.cpp']
    for e in ('h_ck_para', 'h_ck_para_bad'): J.append(Job(e, 'h_ckpara.cpp', PA, fp='real', opts=['--strings'], defs=RS, time=100, reach=['end']))
    J.append(Job('h_ck_mon', 'h_ckmon.cpp', ['module/markov/markov_monitor.cpp', 'estimator/estimator.cpp', 'utility/utility.cpp', 'lattice/lattice.cpp', 'utility/vector.cpp', 'utility/complex.cpp'], fp='real', opts=['--strings', '--over', TS],
                 defs=RS, scale=dict(SIZE=(10000, 4)), time=100, reach=['end']))
    return J
@check('P31', 'start diagram', 'a fresh diagram object and one holding any earlier diagram of order 1 or 2 (arbitrary registers, pools, worm, flags, numbers); MAX_K scaled from 10000 to 7',
       ['Python literals are read by a parser of the checker (dictionaries, lists, numbers, True and False)', 'line weights are uninterpreted functions of the line'])
def p31():
    DG = ['module/diagram/diagram_IO.cpp', 'module/diagram/diagram.cpp', 'module/diagram/component.cpp', 'module/diagram/component_bundle.cpp', 'utility/momentum.cpp', 'utility/rng.cpp', 'utility/complex.cpp', 'utility/vector.cpp', 'lattice/lattice.cpp']
    return [Job('h_new', 'h_new.cpp', DG, dict(USED=u, ON=n, TEST=t), fp='group', opts=['--strings'], defs=['-DSHIM_PARSE', '-DREAL_STRINGS', '-I' + HD + 'shim'], scale=K7, time=100, reach=['end']) for u, n in ((0, 1), (1, 1), (1, 2)) for t in (0, 1)]
@check('P32', 'container of weight tables', 'lattice 2x1, 2 and 3 time bins, order 2 (the receiver: same shape, or 1x1, 1 bin, order 1); every temperature in [0.1, 100] (annealing: from 1.5 to 0.75), every temperature in the basis files that equals it or differs by more than 1e-9; '
       'each group of tables alone, none, and all; arbitrary norms and table entry 3, distinct other entries', ['the Python-backed dictionary and file layer is modelled: what was stored under a key is what is read under it', 'exact real arithmetic'])
def p32():
    return [Job(e, 'h_tables.cpp', WG + ['utility/utility.cpp'], q, fp='real', opts=['--strings'], defs=['-DREAL_STRINGS', '-DSHIM_FILES', '-I' + HD + 'shim'] + NA + NT, time=200, reach=r)
            for e, q, r in [('h_tab_load', dict(FLAG=f, USED=u), [] if f == 8 and not u else ['end']) for f in (0, 1, 2, 4, 8, 15) for u in (0, 1)] + [('h_tab_' + e, {}, ['end']) for e in ('nostat', 'new', 'anneal')]]
ENV = ['environment/envMonteCarlo.cpp', 'module/parameter/message.cpp', 'module/parameter/parameter.cpp', 'lattice/lattice.cpp', 'utility/vector.cpp', 'utility/complex.cpp']
EA = ['the tables, the diagram, the chain and the monitor are stand-ins that record what they are given and when (their own behaviour is decided by P16-P25 and P29)', 'the Python-backed dictionary and file layer is modelled: a file holds what was last saved under its name, or does not exist', 'the state of the random generator is copied as a whole', 'exact real arithmetic']
def env(es): return [Job(e, 'h_env.cpp', ENV, fp='real', opts=['--strings', '--exceptions'], defs=['-DREAL_STRINGS', '-DSHIM_FILES', '-I' + HD + 'shim'] + NA + NT, time=200, reach=['end']) for e in es]
@check('P33', 'main loop', 'two recording intervals (202 sweeps) after thermalizing for 0 or 3 sweeps, with every combination of the four timers being due at each look; runs started and resumed; orders 0..9; sweeps of any length; command lines of 1 to 3 arguments', ['the environment, the timers and the interrupt handler are stand-ins that record what they are asked and when (decided by P21, P22, P26, P27, P18, P19 and P29)'])
def p33(): return [Job(e, 'h_main.cpp', [], fp='real', opts=['--strings', '--exceptions'], defs=['-DREAL_STRINGS', '-DSHIM_FILES', '-I' + HD + 'shim'] + NA + NT, time=200, reach=['end']) for e in ('h_loop', 'h_broken', 'h_args')]
@check('P26', 'annealing messages', 'one or two messages of any version, temperature and squeeze factor, present or not, with the weight file present or not, three-vertex run on or off and active or not; runs with any parameters and 2 order factors', EA)
def p26(): return env(['h_anneal', 'h_anneal_twice', 'h_message'])
@check('P27', 'start, resume and save', 'every combination of missing and present files; runs with any parameters and 2 order factors; three-vertex run on or off and active or not', EA)
def p27(): return env(['h_start', 'h_resume', 'h_save'])
HOPS = ['CreateWorm', 'DeleteWorm', 'MoveWormOnG', 'MoveWormOnW', 'Reconnect', 'AddInteraction', 'DeleteInteraction', 'AddDeltaInteraction', 'DeleteDeltaInteraction', 'JumpToOrder0', 'JumpBackToOrder1', 'ChangeTauOnVertex', 'ChangeROnVertex', 'ChangeRLoop',
        'ChangeMeasureFromGToW', 'ChangeMeasureFromWToG', 'ChangeDeltaToContinuous', 'ChangeContinuousToDelta', 'ChangeSpinOnVertex', 'JumpToGGGammaG', 'JumpFromGGGammaGToG', 'JumpToWWGammaW', 'JumpFromWWGammaWToW']
@check('P29', 'choice of update', 'every pair (for the disabled updates: triple) of 32-bit engine outputs; sweeps of 0-4 steps; any order, temperature and counter', ['the 23 updates are stand-ins that record the call (their own behaviour is P01-P07)'])
def p29():
    D = NA + ['-include', HD + 'env_hop.h']; O = ['--no-rng']
    for h in HOPS: O += ['--over', 'mc::Markov::%s()=rec_%s' % (h, h)]
    S = ['module/markov/markov.cpp', 'lattice/lattice.cpp', 'utility/vector.cpp', 'utility/complex.cpp']; J = []
    def a(e, fp='real', ti=('quick', 'thorough'), **p): J.append(Job(e, 'h_hop.cpp', S, p, fp=fp, opts=O, defs=D, native_defs=['-fno-inline'], time=300, tiers=ti, reach=['end']))
    a('h_hop_wire'); a('h_hop_sweep')
    for g in (0, 1):
        a('h_hop_pair', GAMMA=g); a('h_hop_idle', GAMMA=g); a('h_hop_pair', 'ieee', T, GAMMA=g); a('h_hop_idle', 'ieee', T, GAMMA=g)
    return J
