"""How each property is decided: which models are checked, which suites of
the harness run on the implementation, and which trace specification judges
what they recorded."""
from vlib import TIER, SEED, ORDERFF

PLAN = {}
DEEP = TIER == 'thorough'
FF = {'ORDERFF': ORDERFF}


def plan(f):
    PLAN[f.__name__] = f
    return f


def el(c, suite, what, kind=None):
    """An election suite against ElectionTrace."""
    ind = c.generate('ElectionGen', 'ElectionGen.cfg', env={'KIND': kind, 'TIER': TIER}, tag=kind) if kind else None
    c.trace(suite, 'ElectionTrace', dict(FF, WHAT=what), indir=ind)


@plan
def C01(c):
    c.parallel(lambda: el(c, 'cast', 'complete'), lambda: el(c, 'castreal', 'complete'),
               lambda: c.mc('ElectionMC', 'ElectionSplice.cfg'))


@plan
def C02(c):
    c.parallel(lambda: el(c, 'claims', 'sound', 'claims'), lambda: el(c, 'forge', 'sound'),
               lambda: eq(c, 'sigma', 'bind'), lambda: eq(c, 'window', 'bind'), lambda: rp(c, 'bpattack', 'bind'),
               lambda: el(c, 'forgereal', 'sound'),
               lambda: c.mc('ElectionMC', 'ElectionForgeDeep.cfg' if DEEP else 'ElectionForge.cfg'))


@plan
def C03(c):
    c.parallel(lambda: el(c, 'splice', 'tamper', 'splice'), lambda: el(c, 'tamper', 'tamper'),
               lambda: c.mc('ElectionMC', 'ElectionSpliceDeep.cfg' if DEEP else 'ElectionSplice.cfg'))


@plan
def C04(c):
    c.parallel(lambda: el(c, 'params', 'params', 'params'))


def rp(c, suite, side):
    c.trace(suite, 'RangeProofTrace', {'SIDE': side})


def field(c, module, size):
    """The protocol equations, exhaustively over a small field."""
    c.mc(module, '%s_%s.cfg' % (module, size))


def deep(c, module, *sizes):
    return [lambda s=s: field(c, module, s) for s in sizes] if DEEP else []


@plan
def C05(c):
    c.parallel(lambda: rp(c, 'bp', 'prover'), lambda: rp(c, 'bpreal', 'prover'),
               lambda: field(c, 'RangeProofMC', '1'), *deep(c, 'RangeProofMC', 'b', '2'))


@plan
def C06(c):
    c.parallel(lambda: rp(c, 'bp', 'verifier'), lambda: rp(c, 'bpattack', 'verifier'), lambda: rp(c, 'bpreal', 'verifier'),
               lambda: field(c, 'RangeProofMC', '2'), lambda: field(c, 'ConstraintMC', '2'),
               *deep(c, 'RangeProofMC', 'b', '1'), *deep(c, 'ConstraintMC', '1', '11'))


@plan
def C07(c):
    if 'prove' in c.without:
        # the prover can no longer be called alone: judge the argument inside range proofs
        return c.parallel(lambda: rp(c, 'bp', 'both'), lambda: rp(c, 'bpattack', 'verifier'), lambda: rp(c, 'multi', 'both'))
    c.parallel(lambda: c.trace('ip', 'InnerProductTrace'), lambda: field(c, 'RangeProofMC', '2'),
               *deep(c, 'RangeProofMC', 'b', 'm'))


@plan
def C08(c):
    c.parallel(lambda: rp(c, 'multi', 'both'), lambda: rp(c, 'multiattack', 'verifier'),
               lambda: rp(c, 'multireal', 'both'), lambda: field(c, 'RangeProofMC', 'm'), lambda: field(c, 'ConstraintMC', 'm'))


def eq(c, suite, what):
    c.trace(suite, 'EqProofTrace', dict(FF, WHAT=what))


@plan
def C09(c):
    c.parallel(lambda: eq(c, 'sigma', 'sound'), lambda: eq(c, 'sigmareal', 'sound'), lambda: c.mc('EqProofMC'))


@plan
def C10(c):
    c.parallel(lambda: eq(c, 'window', 'window'), lambda: eq(c, 'sigma', 'window'), lambda: c.mc('EqProofMC'))


@plan
def C11(c):
    c.parallel(lambda: c.trace('fs', 'TranscriptTrace', FF),
               *[lambda w=w: c.mc('TranscriptMC', env={'WHICH': w}, workers=2) for w in ('range', 'product', 'equal')])


@plan
def C12(c):
    c.parallel(lambda: eq(c, 'eqsetup', 'setup'), lambda: c.trace('bpsetup', 'SetupTrace'))


@plan
def C13(c):
    def gen(module, kind, *extra):
        ind = c.generate(module, module + '.cfg', env={'KIND': kind}, extra=extra, tag=kind)
        c.trace('groups', 'GroupTrace', indir=ind, salt=kind)
    walks = ['-simulate', 'num=%d' % (400 if DEEP else 20), '-depth', '30', '-seed', str(SEED)]
    c.parallel(lambda: gen('GroupSingles', 'singles'), lambda: gen('GroupSingles', 'pairs'), lambda: gen('GroupSingles', 'mini'),
               lambda: gen('GroupGen', 'walks', *walks),
               lambda: c.mc('GroupMC'), lambda: c.mc('CurveGroupsTest', workers=1))


@plan
def C14(c):
    c.parallel(lambda: c.trace('codec', 'CodecTrace'), lambda: c.mc('CurveGroupsTest', workers=1))


@plan
def C15(c):
    def docs(kind):
        ind = c.generate('DocumentGen', 'DocumentGen.cfg', env={'KIND': kind, 'PAIRS': 'yes'}, tag=kind)
        c.trace('docs', 'DocumentTrace', indir=ind, salt=kind)
    c.parallel(*[lambda k=k: docs(k) for k in ('ballot', 'bp', 'eq', 'ct')],
               *[lambda k=k: c.mc('DocumentMC', 'DocumentMC_%s.cfg' % k, workers=2) for k in ('bp', 'eq', 'ct', 'ballot')],
               lambda: c.trace('bytes', 'DocumentTrace'), lambda: c.trace('roundtrip', 'DocumentTrace'))


@plan
def C16(c):
    def hide():
        # two runs with different randomness in one history
        a, b = c.suite('hide', salt='first'), c.suite('hide', salt='second')
        if a and b:
            path = c.s.path('hide.ndjson')
            with open(path, 'w') as f:
                for d in (a, b):
                    f.write(open(d + '/hide.ndjson').read())
            c.validate(path, 'HidingTrace')
    c.parallel(hide, lambda: c.mc('HidingMC', 'HidingMCDeep.cfg' if DEEP else 'HidingMC.cfg', workers=8 if DEEP else 4),
               lambda: c.mc('EqProofMC'))


@plan
def C17(c):
    def replay(mode, num, race):
        ind = c.generate('SessionGen', 'SessionGen.cfg', tag=mode,
                         extra=['-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(SEED + (1000 if race else 0))])
        c.trace('sessions', 'SessionTrace', indir=ind, salt=mode, race=race)
    def cold():
        ind = c.generate('SessionCold', 'SessionCold.cfg', env={'TIER': TIER}, tag='cold')
        c.trace('sessions', 'SessionTrace', indir=ind, salt='cold', race=True)
    def ways():
        ind = c.generate('SessionWays', 'SessionWays.cfg', env={'TIER': TIER}, tag='ways')
        c.trace('sessions', 'SessionTrace', indir=ind, salt='ways')
    c.parallel(cold, ways, lambda: replay('sequence', 200 if DEEP else 12, False), lambda: replay('threads', 60 if DEEP else 5, True),
               lambda: c.mc('SessionMC'))


@plan
def C18(c):
    c.parallel(lambda: c.trace('elgamal', 'ElGamalTrace', FF), lambda: c.mc('ElGamalMC'))


@plan
def C19(c):
    c.parallel(lambda: c.trace('arith', 'ArithmeticTrace'), lambda: c.mc('ScalarsSelfTest', workers=1))


@plan
def C20(c):
    c.parallel(lambda: c.trace('electionsetup', 'ElectionSetupTrace'), lambda: c.mc('ElectionSetupMC'))
