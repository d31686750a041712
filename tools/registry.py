"""Which harness runs, trace specifications, rules and exhaustive configurations decide which property."""
import os
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
def san(name):
    return ['-fsanitize=thread' if 'tsan' in name.split('-') else '-fsanitize=address', '-pthread']
ASSUMES = ['the harness models are deterministic and honour the preconditions listed in DESIGN.md',
           'recordings sample programs and inputs; the exhaustive configurations bound the design only']

NOTE = ('Every recorded execution of the real code (seeded random programs, schedules and inputs) must be a behaviour of the TLA+ '
        'specification, event by event; TLC decides this, and checks laws of the specification exhaustively in small configurations. '
        'Coverage of the code is by generated executions, not all executions.')
NA = {}

TIMES = {'int': 'int', 'long': 'long', 'float': 'float', 'double': 'double', 'ldouble': 'long double',
         'sdint': 'adevs::sd_time<int>', 'sdlong': 'adevs::sd_time<long>', 'sddouble': 'adevs::sd_time<double>',
         'fcmp': 'adevs::double_fcmp'}

def binary(name):
    """Source file and flags of a harness variant"""
    parts = name.split('-')
    if parts[0] == 'devs':
        fl = ['-DTIME=' + TIMES[parts[1]]]
        if len(parts) > 2 and parts[2] == 'any':
            fl.append('-DVALUE=std::any')
        return 'devs_harness.cpp', fl
    if parts[0] == 'sched':
        return 'sched_harness.cpp', ['-DTIME=' + TIMES[parts[1]]]
    if parts[0] == 'sched2':
        return 'sched2_harness.cpp', ['-DTIME=' + TIMES[parts[1]]]
    if parts[0] == 'data':
        return 'data_harness.cpp', []
    if parts[0] == 'fmi':
        return 'fmi_harness.cpp', ['-I' + os.path.join(HARN, 'fmistub')]  # stands in for the FMI library
    return parts[0] + '_harness.cpp', ['-D' + p for p in parts[1:] if p != 'tsan']

def libs(name):
    if name.split('-')[0] == 'cvode':
        return ['-lsundials_nvecserial']
    if name.split('-')[0] in ('num', 'fmi', 'hybrid'):
        return ['-lsundials_kinsol', '-lsundials_nvecserial', '-lsundials_sunlinsoldense', '-lsundials_sunmatrixdense']
    return []

def devs(profile, tt='double', quick=800, thorough=4000, parts=2):
    def f(tier):
        return dict(bin='devs-' + tt, prof=profile, spec='DevsTrace', n=quick if tier == 'quick' else thorough,
                    parts=1 if tier == 'quick' else parts)
    return f
def other(bin, profile, spec, quick, thorough, parts=1):
    def f(tier):
        return dict(bin=bin, prof=profile, spec=spec, n=quick if tier == 'quick' else thorough,
                    parts=1 if tier == 'quick' else parts)
    return f
def gen(bin, module, cfg=None, big=None, spec='DevsTrace', limit=0, parts=2, big_limit=150000, big_parts=16):
    """All behaviours of a configuration of the specification, run by the code"""
    cfg = cfg or module
    def f(tier):
        quick = tier == 'quick' or not big
        return dict(bin=bin, prof='script', spec=spec, gen=(module + '.tla', (cfg if quick else big) + '.cfg', limit if tier == 'quick' else big_limit),
                    parts=parts if tier == 'quick' else big_parts)
    return f
# Only what happens in a scenario after what the regular expression EVENT matches counts
def after(event, f):
    return lambda tier: dict(f(tier), after=event)
# Several simulations in one process: only what does not happen to them alone counts
def worlds(bin, spec, quick, thorough, parts=1, prof='worlds'):
    f = other(bin, prof, spec + 'WorldsTrace', quick, thorough, parts)
    return lambda tier: dict(f(tier), alone=True)
# Each scenario runs twice and ends with the memory that the second run has left behind
def heap(*fs):
    return [lambda tier, f=f: dict(f(tier), env={'VERIF_HEAP': '1'}) for f in fs]
def jobs(*fs):
    return lambda tier: [f(tier) for f in fs]

def mc(module, what, workers='2', heap='4g', big=True):
    def f(tier):
        return dict(module=module + '.tla', cfg=module + ('_big.cfg' if big and tier != 'quick' else '.cfg'),
                    what=what, workers=workers, heap=heap)
    return f
def mcs(*fs):
    return lambda tier: [f(tier) for f in fs]

CRASH = ['crash', 'hang', 'malformed']
TIMING = ['init-next', 's-next', 's-next-dyn', 'o-imm', 'o-missing', 'd-missing-due', 'd-once', 's-ret']
TRANS = ['d-active', 'd-once', 'd-kind', 'd-input', 'd-elapsed', 'd-missing-due', 'd-missing-in']
MEALY = ['o-mealy-missing', 'o-mealy-kind', 'o-mealy-input', 'o-mealy-elapsed']
LISTEN = ['l-out', 'l-in', 'l-st']

DEVS = TIMING + TRANS + MEALY + LISTEN + ['d-phase', 'neg-missed', 'neg-throw', 'mealy-cycle', 'mealy-throw', 'user-throw', 'o-kind', 'o-once', 'o-phase', 'o-tnext', 'p-members', 'p-route', 'life', 'life-early', 'life-leak']
HYBRID = ['h-conf', 'h-elapsed', 'h-ext', 'h-extstate', 'h-flags', 'h-happened', 'h-input', 'h-int', 'h-miss', 'h-missed', 'h-missflags', 'h-out', 'h-phase', 'h-post', 'h-sim', 'h-state', 'h-ta', 'h-value', 'life', 'life-adopt', 'life-early']
FINDER = ['f-false', 'f-flags', 'f-late', 'f-miss', 'f-state', 'f-time']
SOLVER = ['i-adv', 'i-clock', 'i-finite', 'i-order', 'i-step']
CVODE = ['v-conf', 'v-ext', 'v-input', 'v-int', 'v-integ', 'v-out', 'v-phase', 'v-restart', 'v-sim', 'v-state', 'v-ta', 'v-time', 'v-value', 'life']

FMI = ['m-mode', 'm-time', 'm-iterate', 'm-setup', 'm-load', 'm-set', 'm-step', 'm-restore', 'm-stale', 'm-end', 'm-value', 'm-var', 'm-tev', 'm-due', 'm-asked', 'm-jac']

PROPS = {
    'C01': dict(labels=TIMING + ['d-active', 'd-kind', 'o-mealy-kind', 'o-mealy-missing', 'neg-throw'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsPairs', 'DevsPairsBig'), devs('moore'), devs('moore', 'int'), devs('moore', 'long'), devs('moore', 'float'), devs('moore', 'ldouble'),
                          devs('big', quick=20, thorough=200), devs('mix'), devs('dyn'), devs('mealy'), devs('mix', 'sdint'), devs('dyn', 'sdlong'))),
    'C02': dict(labels=TRANS + ['d-phase'] + CRASH,
                jobs=jobs(gen('devs-int', 'DevsMC', 'DevsPairs', 'DevsPairsBig'), devs('moore'), devs('moore', 'int'), devs('mealy'), devs('inject'), devs('mix', 'float'), devs('dyn'), devs('moore', 'double-any'), devs('moore', 'sdint'), devs('inject', 'sddouble'), devs('moore', 'long'))),
    'C03': dict(labels=['o-phase', 'o-imm', 'o-once', 'o-kind', 'o-missing', 'd-phase', 'd-input', 'd-missing-in'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsChains', 'DevsChainsBig'), devs('moore', quick=900), devs('moore', 'int'), devs('mix'), devs('big', quick=20, thorough=200), devs('inject'), devs('mealy'), devs('mix', 'sdint'), devs('dyn'))),
    'C04': dict(labels=['p-route', 'd-input', 'd-missing-in', 'd-active', 'o-mealy-input'] + CRASH,
                jobs=jobs(gen('devs-double', 'StructGen', 'StructGenV', 'StructGenV2', parts=3), devs('wide', quick=100, thorough=2500), devs('struct', quick=900), devs('struct', 'int', quick=900), devs('moore'), devs('mealy'), devs('coupled'))),
    'C05': dict(labels=['p-members', 'p-route', 'd-active', 'd-missing-in', 'd-missing-due'] + CRASH,
                jobs=jobs(gen('devs-double', 'StructGen', 'StructGen', 'StructGen5', parts=4), devs('wide', quick=100, thorough=2500), devs('struct', quick=1200), devs('struct', 'int', quick=1200), devs('dyn'), devs('life'))),
    'C06': dict(labels=['p-members', 'p-route', 'd-input', 'd-missing-in', 'd-active'] + CRASH,
                jobs=jobs(gen('devs-int', 'StructGen', 'StructGenV', 'StructGenV2', parts=3), devs('wide', 'int', quick=100, thorough=2500), devs('struct', quick=1200), devs('struct', 'int', quick=1200), devs('dyn'))),
    'C07': dict(labels=['p-members', 'p-route', 's-next-dyn', 'd-input', 'd-missing-in', 'd-active'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsDyn', 'DevsDynBig'), gen('devs-double', 'StructGen', 'StructGen', 'StructGen5', limit=10000), devs('wide', quick=100, thorough=2500), devs('dyn', quick=900), devs('dyn', 'int', quick=900), devs('struct'), devs('coupled'), devs('life'))),
    'C08': dict(labels=['p-members', 's-next-dyn', 's-next', 'o-imm', 'o-missing', 'd-active', 'd-missing-due', 'd-missing-in', 'd-elapsed', 'd-kind', 'life', 'init-next'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsDyn', 'DevsDynBig'), devs('dyn', quick=900), devs('dyn', 'int', quick=900), devs('dyn', 'sdint'), devs('life'), devs('coupled'))),
    'C09': dict(labels=['d-active', 'd-input', 'd-missing-in', 'd-missing-due', 's-next-dyn', 'init-next', 'o-imm', 'o-missing', 'life', 'd-elapsed', 'd-kind'] + CRASH,
                jobs=jobs(gen('devs-double', 'TreeGen', 'TreeGen', 'TreeGen2', parts=3), lambda tier: devs('coupled', 'sdint', quick=300)(tier) if tier == 'quick' else gen('devs-int', 'TreeGen', 'TreeGen3', 'TreeGen3', big_limit=400000)(tier), devs('coupled', quick=900), devs('coupled', 'int', quick=900), devs('coupled', 'long', quick=900), devs('coupled', 'float', quick=900))),
    'C10': dict(labels=MEALY + ['d-active', 'd-input', 'd-kind', 'd-missing-in', 'l-out', 'l-in'] + CRASH,
                jobs=jobs(gen('devs-double', 'MealyNet', 'MealyGen', 'MealyGenBig', parts=4), gen('devs-int', 'DevsMC', 'DevsChains', 'DevsChainsBig'), devs('mealy', quick=900), devs('mealy', 'int', quick=900), devs('mealy', 'sdint', quick=600), devs('inject'), devs('mix')),
                mc=mcs(mc('MealyNet', 'the algorithm for Mealy models ends and finds the only consistent output', workers='4'))),
    'C11': dict(labels=['mealy-throw', 'mealy-cycle'] + CRASH,
                jobs=jobs(gen('devs-double', 'MealyNet', 'MealyGen', 'MealyGenBig', parts=4), devs('mealycyc', quick=1500), devs('mealycyc', 'int', quick=1500), devs('mealy'), devs('mix'))),
    'C12': dict(labels=['neg-missed', 'neg-throw'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsNegs', parts=1), gen('devs-int', 'DevsMC', 'DevsNegs', parts=1), devs('neg', quick=800), devs('neg', 'int', quick=800), devs('neg', 'sdint', quick=800), devs('neg', 'sddouble', quick=500), devs('neg', 'fcmp', quick=500), devs('mix'), devs('dyn'))),
    'C13': dict(labels=TRANS + MEALY + ['s-next', 's-ret', 'o-imm', 'o-missing', 'o-tnext', 'l-in'] + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsPairs', 'DevsPairsBig'), devs('inject', quick=700), devs('inject', 'int', quick=700), devs('inject', 'sdint', quick=500), devs('inject', 'sddouble', quick=500), devs('inject', 'float'), devs('mix'))),
    'C14': dict(labels=['o-phase', 'd-phase', 'o-tnext', 'o-once', 's-next', 'l-out', 'l-in'] + TRANS + MEALY + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsChains', 'DevsChainsBig'), devs('inject', quick=700), devs('inject', 'int', quick=700), devs('inject', 'sdint', quick=500), devs('mealy', quick=700), devs('mix'))),
    'C15': dict(labels=LISTEN + CRASH,
                jobs=jobs(gen('devs-double', 'DevsMC', 'DevsChains', 'DevsChainsBig'), devs('moore'), devs('mealy', quick=700), devs('inject'), devs('mix', 'sdint'), devs('dyn'), devs('coupled', quick=300))),
    'C16': dict(labels=['q-pop', 'q-size', 'q-min', 'q-first', 'q-imm'] + CRASH,
                jobs=jobs(*[gen('sched-' + t, 'HeapMC', 'HeapMC', 'HeapMC9', spec='SchedTrace', parts=1, limit=12100 if t == 'double' else 3000) for t in ('double', 'int', 'float')], *([other('sched-' + t, 'small', 'SchedTrace', 800, 5000) for t in TIMES]
                            + [other('sched-' + t, 'large', 'SchedTrace', 25, 200, 2) for t in ('double', 'int', 'sdint', 'fcmp')]))),
    'C17': dict(labels=['sd-order', 'sd-add', 'sd-sub', 'sd-back', 'sd-get', 'sd-io', 'sd-const'] + CRASH,
                jobs=jobs(other('data', 'sdgrid', 'SdTimeTrace', 66, 66), other('data', 'sdrand', 'SdTimeTrace', 1500, 4000, 4)),
                mc=mcs(mc('SdTimeMC', 'laws of super dense time'))),
    'C30': dict(labels=['pin-order', 'pin-unique', 'pin-value'] + CRASH,
                jobs=jobs(other('data', 'pins', 'PinsTrace', 2000, 5000, 2)),
                mc=mcs(mc('PinsMC', 'knowledge of the order of pins stays consistent'))),
    'C18': dict(labels=TIMING + TRANS + MEALY + ['o-tnext', 'l-out', 'l-in', 'l-st'] + CRASH,
                jobs=jobs(gen('devs-sdint', 'DevsMC', 'DevsSd', 'DevsSdBig'), devs('moore', 'sdint'), devs('moore', 'sdlong'), devs('moore', 'sddouble'), devs('mealy', 'sdint'), devs('inject', 'sddouble'), devs('dyn', 'sdlong'), devs('mix', 'sdint'))),
    'C19': dict(labels=['fcmp', 'fcmp-anti', 'fcmp-ops', 'fcmp-arith'] + TIMING + TRANS + MEALY + ['o-tnext', 'l-out', 'l-in', 'l-st'] + CRASH,
                jobs=jobs(gen('devs-fcmp', 'DevsMC', 'DevsPairs', 'DevsPairsBig'), devs('moore', 'fcmp'), devs('inject', 'fcmp'), devs('dyn', 'fcmp'), devs('mealy', 'fcmp'), devs('big', 'fcmp', quick=15, thorough=150),
                          other('data', 'fcmp', 'FcmpTrace', 500, 5000, 4)),
                mc=mcs(mc('FcmpMC', 'laws of the tolerant comparison'))),
    'C28': dict(labels=['twin-step', 'twin-length'] + CRASH,
                jobs=jobs(*[other('devs-' + tt, pr, 'TwinTrace', 700, 4000, 2) for tt in ('double', 'int', 'sdint') for pr in ('twin', 'twindyn', 'twincoupled')])),
    'C29': dict(labels=['life', 'life-early', 'life-leak', 'life-adopt'] + CRASH,
                jobs=jobs(other('hybrid', 'mock', 'HybridTrace', 200, 1000), devs('life', quick=900), devs('life', 'int', quick=900), devs('coupled'), devs('dyn'), devs('neg'))),
    'C20': dict(labels=['h-ta', 'h-out', 'h-flags', 'h-state', 'h-value', 'h-int', 'h-post', 'h-happened', 'h-phase', 'h-sim'] + CRASH,
                jobs=jobs(gen('hybrid', 'HybridMC', 'HybridMC', 'HybridMC3', spec='HybridTrace', limit=9000), other('hybrid', 'mock', 'HybridTrace', 900, 3000, 4), other('hybrid', 'real', 'HybridTrace', 900, 3000, 4), other('hybrid', 'sim', 'HybridTrace', 900, 4000, 4))),
    'C21': dict(labels=['h-ext', 'h-extstate', 'h-elapsed', 'h-input', 'h-miss', 'h-missflags', 'h-missed', 'h-conf', 'h-value', 'h-out', 'h-post', 'h-state', 'h-phase', 'h-happened', 'h-sim'] + CRASH,
                jobs=jobs(gen('hybrid', 'HybridMC', 'HybridMC', 'HybridMC3', spec='HybridTrace', limit=9000), other('hybrid', 'mock', 'HybridTrace', 900, 3000, 4), other('hybrid', 'real', 'HybridTrace', 900, 3000, 4), other('hybrid', 'sim', 'HybridTrace', 900, 4000, 4))),
    'C37': dict(labels=['n-again', 'n-early', 'n-elapsed', 'n-input', 'n-kind', 'n-missing', 'n-phase', 'n-time', 'n-value'] + HYBRID + CRASH,
                jobs=jobs(*[lambda tier, f=other('hybrid', 'net', 'HybridNetTrace', 600, 4000, 4): dict(f(tier), parts=3)])),
    'C22': dict(labels=['f-time', 'f-state', 'f-false', 'f-flags', 'f-late', 'f-miss'] + CRASH,
                jobs=jobs(other('num', 'find', 'FinderTrace', 9000, 20000, 4), other('hybrid', 'real', 'HybridTrace', 900, 3000, 2), gen('num', 'FinderMC', 'FinderMC', 'FinderMC3', spec='FinderTrace'))),
    'C23': dict(labels=['i-step', 'i-clock', 'i-adv', 'i-finite'] + CRASH,
                jobs=jobs(other('num', 'control', 'SolverTrace', 8000, 20000, 4), other('num', 'solve', 'SolverTrace', 8000, 20000, 4))),
    'C24': dict(labels=['i-order', 'i-clock', 'i-adv', 'i-finite'] + CRASH,
                jobs=jobs(other('num', 'solve', 'SolverTrace', 9000, 20000, 4), other('num', 'control', 'SolverTrace', 6000, 20000, 4))),
    'C25': dict(labels=['v-phase', 'v-integ', 'v-ta', 'v-state', 'v-out', 'v-value', 'v-int', 'v-conf', 'v-ext', 'v-restart', 'v-time', 'v-input', 'v-sim', 'life'] + CRASH,
                jobs=jobs(other('cvode', 'direct', 'CvodeTrace', 3000, 8000, 4), other('cvode', 'sim', 'CvodeTrace', 2500, 8000, 4), gen('cvode', 'CvodeMC', 'CvodeMC', 'CvodeMC3', spec='CvodeTrace', limit=9000, big_limit=180000))),
    'C26': dict(labels=['m-mode', 'm-time', 'm-iterate', 'm-setup', 'm-load', 'm-set', 'm-step', 'm-restore', 'm-stale', 'm-end', 'm-value'] + CRASH,
                jobs=jobs(other('fmi', 'direct', 'FmiTrace', 400, 2000, 4), other('fmi', 'hybrid', 'FmiTrace', 300, 1500, 4), other('fmi', 'load', 'FmiTrace', 300, 2000),
                          gen('fmi', 'FmiMC', 'FmiMC', 'FmiMC3', spec='FmiTrace', limit=12000))),
    'C27': dict(labels=['m-var', 'm-value', 'm-tev', 'm-due', 'm-asked', 'm-jac', 'm-set', 'm-stale'] + CRASH,
                jobs=jobs(other('fmi', 'direct', 'FmiTrace', 400, 2000, 4), other('fmi', 'hybrid', 'FmiTrace', 300, 1500, 4), other('fmi', 'load', 'FmiTrace', 300, 2000),
                          gen('fmi', 'FmiMC', 'FmiMC', 'FmiMC3', spec='FmiTrace', limit=12000))),
    'C32': dict(labels=['i-error', 'i-implicit', 'i-finite'] + CRASH, jobs=jobs(other('num', 'err', 'SolverTrace', 15000, 60000, 4), other('num', 'control', 'SolverTrace', 6000, 20000, 2))),
    'C33': dict(labels=['r-throw', 'r-size', 'r-min', 'r-first', 'r-imm'] + CRASH,
                jobs=jobs(*[gen('sched2-' + t, 'HeapMC2', 'HeapMC2', 'HeapMC2Big', spec='Sched2Trace', parts=4, limit=25000 if t == 'double' else 4000, big_limit=200000) for t in ('double', 'int')],
                          *[other('sched2-' + t, 'small', 'Sched2Trace', 800, 5000) for t in TIMES],
                          *[other('sched2-' + t, 'large', 'Sched2Trace', 25, 200, 2) for t in ('double', 'int', 'sdint', 'fcmp')])),
    'C34': dict(labels=DEVS + HYBRID + FINDER + SOLVER + CVODE + FMI + CRASH,
                jobs=jobs(worlds('devs-double', 'Devs', 250, 3000), worlds('devs-int', 'Devs', 150, 2000), worlds('devs-sdint', 'Devs', 100, 1000), worlds('devs-double-tsan', 'Devs', 150, 2000),
                          worlds('hybrid', 'Hybrid', 60, 400, 3), worlds('hybrid-tsan', 'Hybrid', 50, 400, 2),
                          worlds('num', 'Solver', 400, 4000, 2), worlds('num-tsan', 'Solver', 250, 2000, 2),
                          worlds('num', 'Finder', 300, 4000, 2, 'fworlds'), worlds('num-tsan', 'Finder', 200, 2000, 2, 'fworlds'),
                          worlds('cvode', 'Cvode', 50, 400, 2), worlds('cvode-tsan', 'Cvode', 50, 400, 2),
                          worlds('fmi', 'Fmi', 60, 500, 3), worlds('fmi-tsan', 'Fmi', 50, 400, 2))),
    'C35': dict(labels=DEVS + HYBRID + CVODE + CRASH,
                jobs=jobs(after('"Over"|"NewSim".*"NewSim"', gen('devs-double', 'DevsMC', 'DevsAgain', 'DevsAgainBig', parts=3, limit=10000)),
                          after('"Join"', other('hybrid', 'sim', 'HybridTrace', 500, 3000, 4)), after('"Join"', other('cvode', 'sim', 'CvodeTrace', 800, 6000, 4)),
                          *[after('"Over"', devs(*a)) for a in (('again', 'double', 900), ('again', 'int', 900), ('again', 'sdint', 500), ('againcyc', 'double', 600), ('againcyc', 'int', 400), ('again', 'float', 300), ('again', 'fcmp', 300))])),
    'C36': dict(labels=['heap'] + CRASH,
                jobs=jobs(*heap(devs('mix', quick=300), devs('mealy', quick=300), devs('mealycyc', quick=300), devs('coupled', quick=300), devs('life', quick=300), devs('dyn', 'int', quick=300),
                                devs('neg', 'sdint', quick=300), devs('struct', quick=300), devs('again', quick=500), devs('againcyc', 'int', quick=300),
                                other('sched-double', 'small', 'SchedTrace', 300, 3000), other('sched2-double', 'small', 'Sched2Trace', 300, 3000), other('sched-int', 'large', 'SchedTrace', 5, 50), other('sched2-int', 'large', 'Sched2Trace', 5, 50),
                                other('hybrid', 'mock', 'HybridTrace', 250, 2000), other('hybrid', 'real', 'HybridTrace', 300, 2000), other('hybrid', 'sim', 'HybridTrace', 200, 2000), other('hybrid', 'net', 'HybridNetTrace', 100, 1000),
                                other('num', 'solve', 'SolverTrace', 600, 4000), other('num', 'control', 'SolverTrace', 500, 4000), other('num', 'find', 'FinderTrace', 600, 4000), other('num', 'spline', 'SplineTrace', 500, 4000),
                                other('cvode', 'direct', 'CvodeTrace', 400, 3000), other('cvode', 'sim', 'CvodeTrace', 300, 3000),
                                other('fmi', 'direct', 'FmiTrace', 200, 1500), other('fmi', 'hybrid', 'FmiTrace', 150, 1000), other('fmi', 'load', 'FmiTrace', 300, 2000)))),
    'C31': dict(labels=['spline'] + CRASH, jobs=jobs(other('num', 'spline', 'SplineTrace', 10000, 40000, 4))),
}
