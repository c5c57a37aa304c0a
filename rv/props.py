"""The checks: for each property, which models and which workloads decide it."""
import random

from .gen import *
from . import graph

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Split:
    """Episodes of a common name; begin() starts another one when the last has grown long."""

    def __init__(self, eps, name, prof, limit=1500):
        self.eps, self.name, self.prof, self.limit = eps, name, prof, limit
        self.ep = None

    def begin(self):
        if self.ep is None or self.ep.cost > self.limit:
            self.ep = Ep(self.name, self.prof)
            self.eps.append(self.ep)
        return self.ep


def rng_for(r, name):
    return random.Random('%s/%s/%d' % (r.pid, name, r.seed))


def scale(r, quick, thorough):
    return thorough if r.tier == 'thorough' else quick


def delay_model(r, kinds=('int', 'lin'), inductive=()):
    for k in kinds:
        r.tlc('mc_delay_%s%s' % (k, scale(r, '_small', '')))
    # any capacity and delay: every sample lies where the taps look, and every call keeps it so
    for k in inductive if r.tier == 'quick' else kinds:
        for init in ('init', 'anyOk'):
            r.apalache('mc_ring_ind.qnt', 'mc_ring_ind_' + k, 'ringOk', init=init, steps=1)


def walks(r, module, drop=()):
    g = r.tlc(module, dump=True)
    w, covered, total = graph.walks(g, drop=drop)
    r.cov.setdefault('graph_walks', []).append(dict(model=module, walks=len(w), transitions=total,
                                                    transitions_replayed=covered))
    return w


def long_lives(r, rng, eps, kinds, ty, prof, flags=None):
    """more samples than a 16, 20 or 24 bit counter takes, then a look at what comes"""
    ep = Ep('long lives, f%d' % ty, prof)
    for kind in kinds:
        for n in (65533, (1 << 20) + 1) + (((1 << 24) - (1 << 20),) if prof == 'release' else ()):
            s = Setup(rng, kind, ty)
            if kind in BASIC:
                s.calls = [('coef', 0.5, 0.25, 0.125) + rng.choice([(-0.5, 0.25), (0.5, 0.25), (-0.75, 0.25), (0.25, -0.5)])]
            o = s.build(ep)
            fl = flags if flags is not None else tol(kind, ty)
            ep.block(o, signal(rng, 3, 'dyadic'), fl)
            ep.run(o, n, 0.75, fl, block=False, cost=700)
            for x in signal(rng, 12, 'dyadic'):
                ep.proc(o, x, fl)
            if n == 65533:
                continue
            ep.run(o, 1 << 20, 0.25, fl, block=rng.random() < 0.5, cost=700)
            for x in signal(rng, 12, 'dyadic'):
                ep.proc(o, x, fl)
            ep.last(o, fl)
    eps.append(ep)


# ---- C01 ------------------------------------------------------------------------------------------
@check('C01')
def c01(r):
    rng = rng_for(r, 'sessions')
    delay_model(r, ('int',), inductive=('int',))
    eps = delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, PROFILES,
                      {'process', 'last'}, share=scale(r, 0.25, 1.0))
    j = {'process': 1, 'last': 1}
    for ty, prof in everywhere():
        ep = Ep('random sessions, Delay<f%d>' % ty, prof)
        for cap in CAPS:
            for _ in range(scale(r, 2, 12)):
                delay_session(rng, ep, DELAY, ty, cap, pick_delay(rng, DELAY, cap, ''), min(40, 6 + cap),
                              {'process': 6, 'block': 2, 'last': 1, 'setd': 2}, j)
        eps.append(ep)
        # every delay of small lines, constant, through several wraps
        ep = Ep('every delay of small lines, f%d' % ty, prof)
        for cap in range(0, scale(r, 10, 24)):
            for d in range(cap + 1):
                o = ep.new(DELAY, ty, d, cap)
                for i in range(2 * cap + 5):
                    ep.proc(o, sample(rng, i, 0.05), CMP)
        eps.append(ep)
        # from any delay to any other: what lies beyond the shorter one is kept
        ep = Ep('from any delay to any other, f%d' % ty, prof)
        for cap in list(range(1, 17)) + [20, 24, 32]:
            o = ep.new(DELAY, ty, 0, cap)
            i = 0
            for d1 in range(cap + 1):
                for d2 in range(cap + 1):
                    if rng.random() > scale(r, 0.4, 1.0) * min(1, 200 / cap ** 2) and not (d1 == cap and cap % (d2 or 1) == 0):
                        continue
                    ep.setd(o, d1)
                    if rng.random() < 0.5:
                        i += 1
                        ep.proc(o, float(i), CMP)
                    ep.setd(o, d2)
                    for e in (cap, rng.choice([d1, d2, rng.randint(0, cap)])):
                        ep.setd(o, e)
                        i += 1
                        ep.proc(o, float(i), CMP)
        eps.append(ep)
        # long lines
        ep = Ep('long lines, f%d' % ty, prof)
        for cap, d in [(511, 300), (1000, 1000), (1023, 1023), (2047, 1500), (4096, 4095), (8191, 8000), (44100, 30000), (65535, 65000), (65536, 65536), (70000, 65537), (100000, 1)]:
            o = ep.new(DELAY, ty, d, cap)
            ep.proc(o, 7.0, CMP)
            ep.run(o, d - 2 if d > 1 else 0, 0.25, CMP, cost=d / 200)
            for i in range(5):
                ep.proc(o, 10.0 + i, CMP)
            ep.run(o, cap - 10, 0.125, CMP, cost=cap / 200)
            for i in range(5):
                ep.proc(o, 20.0 + i, CMP)
            d2 = rng.randint(0, cap)
            ep.setd(o, d2)
            for i in range(5):
                ep.proc(o, 30.0 + i, CMP)
            ep.run(o, d2, 0.5, CMP, cost=cap / 200)
            for i in range(5):
                ep.proc(o, 40.0 + i, CMP)
        eps.append(ep)
        long_lives(r, rng, eps, [DELAY], ty, prof)
    r.conform(eps)


# ---- C02 ------------------------------------------------------------------------------------------
@check('C02')
def c02(r):
    rng = rng_for(r, 'sessions')
    delay_model(r, ('lin',), inductive=('lin',))
    eps = delay_walks(r, LINEAR, walks(r, 'mc_delay_lin_replay'), rng, TYPES, PROFILES,
                      {'process', 'last'}, share=scale(r, 0.08, 1.0))
    j = {'process': 1, 'last': 1}
    for ty, prof in everywhere():
        for frac in ('eighths', 'any', 'whole'):
            ep = Ep('random sessions, LinearDelay<f%d>, %s' % (ty, frac), prof)
            for cap in CAPS:
                for _ in range(scale(r, 1, 8)):
                    delay_session(rng, ep, LINEAR, ty, cap, pick_delay(rng, LINEAR, cap, frac), min(40, 8 + cap),
                                  {'process': 6, 'block': 1, 'last': 1, 'setd': 2}, j, frac=frac)
            eps.append(ep)
        ep = Ep('every eighth of small lines, f%d' % ty, prof)
        for cap in range(0, scale(r, 5, 10)):
            for d8 in range(8 * cap + 1):
                o = ep.new(LINEAR, ty, d8 / 8, cap)
                k = CMP | linear_k(ty, cap, 'eighths')
                for i in range(2 * cap + 4):
                    ep.proc(o, float(rng.randint(-99, 99)), k)
        eps.append(ep)
        ep = Ep('delays next to whole numbers, f%d' % ty, prof)
        for cap in (1, 2, 4, 7, 8, 16):
            k = CMP | linear_k(ty, cap, 'any')
            for eps_ in (1e-9, 1e-7, 1e-5, 2.0 ** -20, 1e-3):
                for base in (0, 1, cap - 1, cap):
                    for d in (base + eps_, base - eps_):
                        o = ep.new(LINEAR, ty, d, cap)
                        for i in range(cap + 4):
                            ep.proc(o, rng.uniform(-1, 1), k)
                        ep.setd(o, d)
                        for i in range(cap + 4):
                            ep.proc(o, rng.uniform(-1, 1), k)
        eps.append(ep)
        ep = Ep('long lines, f%d' % ty, prof)
        for cap, d in [(511, 300.5), (1000, 999.5), (1023, 1000.25), (4096, 2048.25), (8191, 8000.5), (44100, 22050.75), (65535, 65000.5), (65536, 65535.5), (70000, 65537.5)]:
            o = ep.new(LINEAR, ty, d, cap)
            k = CMP | (20 if ty == 32 else 40)
            ep.proc(o, 8.0, k)
            ep.run(o, int(d) - 2, 0.25, k, cost=cap / 200)
            for i in range(6):
                ep.proc(o, 16.0 + i, k)
            ep.run(o, cap - 9, 0.125, k, cost=cap / 200)
            for i in range(6):
                ep.proc(o, 32.0 + i, k)
            d2 = rng.randint(0, 4 * cap) / 4
            ep.setd(o, d2)
            ep.run(o, int(d2), 0.5, k, cost=cap / 200)
            for i in range(6):
                ep.proc(o, 64.0 + i, k)
        # fractions as fine as single precision allows
        for cap in [100, 257, 513, 1025, 2049, 4097, 8193, 16385, 33000, 48000, 66000]:
            k = CMP | linear_k(ty, cap, 'any')
            o = ep.new(LINEAR, ty, rng.uniform(0, 6), cap)
            for n in range(scale(r, 3, 12)):
                d = rng.choice([rng.uniform(0, 10), rng.uniform(0, 10), rng.uniform(cap - 10, cap), rng.uniform(0, cap)])
                if n:
                    ep.setd(o, d)
                ep.run(o, rng.choice([3, cap // 2, cap - 3]), 0.5, k, cost=30)
                for i in range(12):
                    ep.proc(o, float(rng.randint(-99, 99)), k)
                if d > 12 and d < cap - 12:
                    ep.run(o, int(d) - 10, 0.5, k, cost=30)
                    for i in range(12):
                        ep.proc(o, float(rng.randint(-99, 99)), k)
        eps.append(ep)
        long_lives(r, rng, eps, [LINEAR], ty, prof)
        # gliding: the delay changes a little, time and again
        ep = Ep('gliding, f%d' % ty, prof)
        for cap in (2, 3, 8, 20):
            for step in (0.25, 2.0 ** -5, 2.0 ** -7, 2.0 ** -9, 2.0 ** -11, 0.1, 0.003, 1e-4):
                k = CMP | (linear_k(ty, cap, 'eighths') if step in (0.25, 2.0 ** -5, 2.0 ** -7, 2.0 ** -9, 2.0 ** -11) else linear_k(ty, cap, 'any'))
                d = rng.randint(0, 8 * cap) / 8
                o = ep.new(LINEAR, ty, d, cap)
                up = rng.choice([-1, 1])
                for i in range(14):
                    ep.proc(o, float(rng.randint(-99, 99)), k)
                    d = min(cap, max(0.0, d + up * step))
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        ep.setd(o, d)
        eps.append(ep)
        ep = Ep('far away levels, f%d' % ty, prof)
        for _ in range(scale(r, 30, 200)):
            cap = rng.choice([1, 2, 3, 5, 8])
            o = ep.new(LINEAR, ty, rng.randint(0, 8 * cap) / 8, cap)
            by, k = level(rng, ty, LINEAR, 18 if ty == 32 else 44)
            ep.units(o, by)
            for x in scaled(signal(rng, 2 * cap + 6, rng.choice(LEVEL_STYLES)), by):
                ep.proc(o, x, CMP | k)
            ep.setd(o, rng.randint(0, 8 * cap) / 8)
            for x in scaled(signal(rng, cap + 4, rng.choice(LEVEL_STYLES)), by):
                ep.proc(o, x, CMP | k)
        eps.append(ep)
        # a sample that is not a number passes by, and is gone
        ep = Ep('passing by, f%d' % ty, prof)
        for _ in range(scale(r, 30, 200)):
            cap = rng.choice([0, 1, 2, 3, 5, 8, 20])
            o = ep.new(LINEAR, ty, rng.randint(0, 8 * cap) / 8, cap)
            k = CMP | linear_k(ty, cap, 'eighths')
            for _ in range(3):
                for i in range(rng.randint(0, cap + 2)):
                    ep.proc(o, float(rng.randint(-99, 99)), k)
                ep.proc(o, rng.choice([NAN, INF, -INF]), k)
                for i in range(cap + 5):
                    ep.proc(o, float(rng.randint(-99, 99)), k)
                ep.last(o, k)
                ep.setd(o, rng.randint(0, 8 * cap) / 8)
        eps.append(ep)
    r.conform(eps)


# ---- C03 settings -----------------------------------------------------------------------------------
@check('C03')
def c03(r):
    rng = rng_for(r, 'settings')
    delay_model(r)
    eps = delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, PROFILES, {'getd', 'getm'},
                      share=scale(r, 0.1, 1.0))
    eps += delay_walks(r, LINEAR, walks(r, 'mc_delay_lin_replay'), rng, TYPES, ('dev',), {'getd', 'getm'},
                       share=scale(r, 0.04, 1.0))
    e = CMP | 40
    big = [1 << 20, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53,
           (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    fbig = [1e4, 1e9, 3e9, 5e9, 2.0 ** 32, 2.0 ** 63, 2.0 ** 64, 1e20, 3e38, INF, -INF, -1.0, -0.0, 0.0,
            -1e-30, -1e9, 1e-30, 1e-45, 16777217.0, 0.1, 0.3, 1.7]
    for ty, prof in everywhere():
        ep = Ep('requests of all sizes, f%d' % ty, prof)
        for cap in [0, 1, 2, 3, 7, 8, 100, 1000, 1023, 1024] + scale(r, [], [65535, 65536, 100000]):
            for d in [0, 1, cap - 1, cap, cap + 1, cap + 2, 2 * cap, 2 * cap + 1] + big:
                if d < 0:
                    continue
                o = ep.new(DELAY, ty, d, cap)
                ep.getd(o, e)
                ep.getm(o, e)
                o = ep.new(DELAY, ty, 0, cap)
                for i in range(rng.choice([0, 0, 1, 3])):
                    ep.proc(o, 1.0 + i)
                ep.setd(o, d)
                ep.getd(o, e)
                ep.getm(o, e)
                # the delay reported is the delay in effect
                if cap < 12:
                    for i in range(2 * cap + 2):
                        ep.proc(o, 1.0 + i, CMP)
                        ep.getd(o, e)
            for d in fbig + [cap - 0.5, float(cap), cap + 0.25, cap + 0.5, cap + 1.0, cap / 2, cap / 3]:
                o = ep.new(LINEAR, ty, d, cap)
                ep.getd(o, e)
                ep.getm(o, e)
                o = ep.new(LINEAR, ty, 0.0, cap)
                for i in range(rng.choice([0, 0, 1, 3])):
                    ep.proc(o, 1.0 + i)
                ep.setd(o, d)
                ep.getd(o, e)
                if cap < 12:
                    for i in range(2 * cap + 2):
                        ep.proc(o, 1.0 + i, CMP | linear_k(ty, cap, 'any'))
                    ep.getd(o, e)
        # close requests
        for cap in (1, 7, 100, 4000):
            for d in (cap / 2, cap / 3, float(cap), 0.5, 0.0, cap - 0.25):
                for step in (1e-3, 1e-4, 1e-5, 1e-6, 3e-7, 1.2e-7):
                    o = ep.new(LINEAR, ty, d, cap)
                    ep.setd(o, d * (1 + rng.choice([-1, 1]) * step) if d else step)
                    ep.getd(o, e)
                    ep.setd(o, d)
                    ep.getd(o, e)
        # very many requests
        for kind in (DELAY, LINEAR):
            o = ep.new(kind, ty, 0, 5)
            for i in range(300):
                ep.setd(o, pick_delay(rng, kind, 5, 'eighths'))
                if i % 3:
                    ep.getd(o, e)
                if i % 40 == 7:
                    ep.setm(o, rng.randint(0, 5))
                    ep.getm(o, e)
        # all the way round, asking at every place
        for kind in (DELAY, LINEAR):
            for cap in (12, 33, 50, 64, 101, 129):
                for d in (cap, rng.choice([1, cap - 1, cap // 2, rng.randint(0, cap)])):
                    o = ep.new(kind, ty, d if kind == DELAY else float(d), cap)
                    for i in range(cap + 3):
                        ep.proc(o, 1.0)
                        ep.getd(o, e)
                    ep.getm(o, e)
        # longer than 16 bits can count
        for cap in (65535, 65536, 70000):
            for kind in (DELAY, LINEAR):
                for d in (cap, cap - 1, 65535, 5, cap + 3):
                    o = ep.new(kind, ty, d, cap)
                    ep.getd(o, e)
                    ep.getm(o, e)
                for d in (cap, 65534, 3, cap + 1):
                    ep.setd(o, d)
                    ep.getd(o, e)
                ep.setm(o, cap + 7)
                ep.getm(o, e)
                ep.setd(o, cap + 9)
                ep.getd(o, e)
        eps.append(ep)
        for kind in (DELAY, LINEAR):
            ep = Ep('random sessions, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in CAPS[:16]:
                for _ in range(scale(r, 1, 8)):
                    delay_session(rng, ep, kind, ty, cap, pick_delay(rng, kind, cap, 'any'), 25,
                                  {'process': 3, 'setd': 4, 'setm': 2, 'clear': 1, 'getd': 1, 'getm': 1, 'next': 1},
                                  {'getd': 'exact', 'getm': 'exact'}, frac='any', special=0.05, levels=0.2)
            eps.append(ep)
    r.conform(eps)


# ---- C04 growing --------------------------------------------------------------------------------------
@check('C04')
def c04(r):
    rng = rng_for(r, 'growth')
    delay_model(r)
    r.tlc('mc_delay_asfound_grow', expect_ok=False)
    if r.tier == 'thorough':
        r.apalache('mc_ring_ind.qnt', 'mc_ring_ind_asfound', 'ringOk', init='anyOk', steps=1, refute=True)
    eps = delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, PROFILES,
                      {'process', 'getd', 'taps'}, share=scale(r, 0.1, 1.0))
    eps += delay_walks(r, LINEAR, walks(r, 'mc_delay_lin_replay'), rng, TYPES, ('dev',),
                       {'process', 'getd', 'taps'}, share=scale(r, 0.03, 1.0))
    for ty, prof in everywhere():
        for kind in (DELAY, LINEAR):
            ep = Ep('grow %s<f%d> at every position' % (NAMES[kind], ty), prof)
            for cap in (0, 1, 2, 3, 5):
                for fed in range(0, 2 * cap + 3):
                    for by in (1, 2, 3, cap + 1, 20):
                        if rng.random() > scale(r, 0.35, 1.0):
                            continue
                        d = pick_delay(rng, kind, cap, 'eighths')
                        o = ep.new(kind, ty, d, cap)
                        k = CMP | linear_k(ty, cap, 'eighths')
                        for i in range(fed):
                            ep.proc(o, float(i + 1), k)
                        ep.setm(o, cap + by)
                        ep.getd(o, CMP | 40)
                        ep.getm(o, CMP | 40)
                        ep.last(o, k)
                        for t in range(cap + by + 1):
                            ep.tapo(o, t, k)
                        if rng.random() < 0.3:
                            ep.nexto(o, k)
                        for i in range(2 * cap + 4):
                            ep.proc(o, 100.0 + i, k)
                        # use the room that was made
                        ep.setd(o, cap + by if kind == DELAY else float(cap + by))
                        for i in range(4):
                            ep.proc(o, 200.0 + i, k)
                        again = rng.random() < 0.3
                        if again:
                            ep.setm(o, cap + 2 * by)
                            ep.last(o, k)
                            for i in range(cap + 2 * by + 3):
                                ep.proc(o, 300.0 + i, k)
                        # asking for as much or less changes nothing
                        now = cap + 2 * by if again else cap + by
                        for m in rng.sample([now, now - 1, rng.randint(0, cap), rng.randint(0, now)], 2):
                            ep.setm(o, m)
                            ep.last(o, k)
                            ep.getm(o, CMP | 40)
                            ep.getd(o, CMP | 40)
                            for t in {0, now, rng.randint(0, now)}:
                                ep.tapo(o, t, k)
                            if rng.random() < 0.5:
                                ep.nexto(o, k)
                            for i in range(3):
                                ep.proc(o, 400.0 + i, k)
            eps.append(ep)
            ep = Ep('random sessions with growth, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in [0, 1, 2, 3, 5, 8, 16, 33, 64, 100]:
                for _ in range(scale(r, 2, 8)):
                    delay_session(rng, ep, kind, ty, cap, pick_delay(rng, kind, cap, 'eighths'), 30,
                                  {'process': 6, 'setm': 2, 'setd': 2, 'tapo': 1, 'block': 1, 'next': 1, 'clear': 0.3},
                                  {'process': 1, 'getd': 'exact', 'getm': 'exact', 'tapo': 1, 'last': 1, 'next': 1},
                                  maxcap=4 * cap + 40, levels=0.3)
            eps.append(ep)
            # by a lot, at every position
            ep = Ep('large growth at every position, %s<f%d>' % (NAMES[kind], ty), prof)
            k = CMP | linear_k(ty, 8, 'eighths')
            for cap in (1, 3, 4, 7):
                for fed in range(0, cap + 2):
                    to = rng.choice([100, 255, 256, 511, 999, 1000, 1023, 1024, 1025, 2000, 4095] + ([65535, 66000] if fed == cap else []))
                    o = ep.new(kind, ty, cap if kind == DELAY else cap - 0.5, cap)
                    for i in range(cap + 1 + fed):
                        ep.proc(o, float(i + 1))
                    ep.setm(o, to)
                    ep.getd(o, CMP | 40)
                    ep.last(o, k)
                    for t in list(range(cap + 3)) + [to - 1, to]:
                        ep.tapo(o, t, k)
                    for i in range(cap + 2):
                        ep.proc(o, 100.0 + i, k)
            eps.append(ep)
            ep = Ep('large growth, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap, to in [(10, 5000), (1000, 1001), (1000, 70000), (4095, 8191), (4096, 8192), (511, 1023)]:
                o = ep.new(kind, ty, cap - 2 if kind == DELAY else cap - 2.5, cap)
                k = CMP | linear_k(ty, cap, 'eighths')
                ep.run(o, cap // 2 + 3, 0.5, 0, cost=cap / 200)
                for i in range(20):
                    ep.proc(o, 1.0 + i, k)
                ep.run(o, cap - 40 if cap > 40 else 3, 0.25, k, cost=cap / 200)
                for i in range(5):
                    ep.proc(o, 30.0 + i, k)
                ep.setm(o, to)
                ep.last(o, k)
                ep.getd(o, CMP | 40)
                for t in [0, 1, 2, cap // 2, cap - 1, cap, cap + 1, to - 1, to]:
                    ep.tapo(o, t, k)
                for i in range(60):
                    ep.proc(o, 50.0 + i, k)
                ep.setd(o, to if kind == DELAY else float(to))
                ep.run(o, to - 40, 0.125, k, cost=to / 200)
                for i in range(90):
                    ep.proc(o, 500.0 + i, k)
            eps.append(ep)
    r.conform(eps)


# ---- C05 taps --------------------------------------------------------------------------------------------
@check('C05')
def c05(r):
    rng = rng_for(r, 'taps')
    delay_model(r)
    eps = delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, PROFILES,
                      {'process', 'taps', 'addto'}, share=scale(r, 0.1, 1.0))
    eps += delay_walks(r, LINEAR, walks(r, 'mc_delay_lin_replay'), rng, TYPES, ('dev',),
                       {'process', 'taps', 'addto'}, share=scale(r, 0.03, 1.0))
    for ty, prof in everywhere():
        for kind in (DELAY, LINEAR):
            ep = Ep('every tap at every position, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in (0, 1, 2, 3, 6):
                k = CMP | linear_k(ty, cap, 'eighths')
                o = ep.new(kind, ty, pick_delay(rng, kind, cap, 'eighths'), cap)
                for i in range(2 * cap + 4):
                    for t in range(cap + 1):
                        ep.tapo(o, t, k)
                    c = rng.random()
                    t = rng.randint(0, cap)
                    if c < 0.4:
                        ep.tapi(o, t, 100.0 + i)
                    elif c < 0.8:
                        ep.addto(o, t, 10.0 + i, k)
                    else:
                        # added up to nothing, and then some
                        ep.tapi(o, t, 100.0 + i)
                        ep.addto(o, t, -100.0 - i, k)
                        ep.tapo(o, t, k)
                        ep.addto(o, t, rng.choice([0.0, -0.0, 3.0, -3.0]), k)
                        # nearly nothing: the difference of two that are close
                        ep.tapi(o, t, 1.0)
                        ep.addto(o, t, -1.0 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(1, 24 if ty == 32 else 53), k)
                    for t in range(cap + 1):
                        ep.tapo(o, t, k)
                    ep.proc(o, 1.0 + i, k)
            eps.append(ep)
            ep = Ep('random sessions with taps, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in [0, 1, 2, 3, 4, 5, 8, 16, 33, 64, 127, 128, 256]:
                for _ in range(scale(r, 2, 12)):
                    delay_session(rng, ep, kind, ty, cap, pick_delay(rng, kind, cap, 'eighths'), 30,
                                  {'process': 5, 'block': 0.5, 'tapo': 4, 'tapi': 2, 'addto': 2, 'setd': 0.5,
                                   'clear': 0.2, 'next': 0.5},
                                  {'process': 1, 'tapo': 1, 'addto': 1, 'last': 1}, special=0.08, levels=0.3)
            eps.append(ep)
            ep = Ep('taps of long lines, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in (511, 1000, 1023, 8191, 40000, 65535, 65536, 70000):
                k = CMP | linear_k(ty, cap, 'eighths')
                o = ep.new(kind, ty, cap if kind == DELAY else float(cap), cap)
                for i in range(4):
                    ep.proc(o, 1.0 + i, k)
                ep.run(o, cap - 3, 0.25, k, cost=cap / 200)
                for t in [0, 1, cap - 5, cap - 4, cap - 3, cap - 2, cap - 1, cap]:
                    ep.tapo(o, t, k)
                ep.tapi(o, cap, 99.0)
                ep.addto(o, cap - 1, 8.0, k)
                ep.tapi(o, cap // 2, 55.0)
                for i in range(6):
                    ep.proc(o, 20.0 + i, k)
                for t in [0, 1, 6, cap // 2 + 6, cap // 2 + 5, cap // 2 + 7, cap - 1, cap]:
                    ep.tapo(o, t, k)
            eps.append(ep)
    r.conform(eps)


# ---- C06 next_out ------------------------------------------------------------------------------------------
@check('C06')
def c06(r):
    rng = rng_for(r, 'asking')
    delay_model(r)
    r.tlc('mc_delay_asfound_cache', expect_ok=False)
    eps = delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, PROFILES, {'process', 'next'},
                      share=scale(r, 0.1, 1.0))
    eps += delay_walks(r, LINEAR, walks(r, 'mc_delay_lin_replay'), rng, TYPES, PROFILES, {'process', 'next'},
                       share=scale(r, 0.05, 1.0))
    for ty, prof in everywhere():
        for kind in (DELAY, LINEAR):
            for frac in (('eighths', 'any') if kind == LINEAR else ('whole',)):
                ep = Ep('asked now and then, %s<f%d>, %s' % (NAMES[kind], ty, frac), prof)
                for cap in [1, 2, 3, 4, 5, 8, 16, 33, 64, 128]:
                    for _ in range(scale(r, 3, 15)):
                        delay_session(rng, ep, kind, ty, cap, pick_delay(rng, kind, cap, frac), 30,
                                      {'process': 4, 'block': 0.5, 'next': 4, 'tapi': 1, 'addto': 1, 'setd': 1,
                                       'setm': 0.4, 'clear': 0.4, 'tapo': 0.3, 'last': 0.3, 'getd': 0.2},
                                      {'process': 1, 'next': 1, 'tapo': 1, 'last': 1}, frac=frac, special=0.0,
                                      maxcap=2 * cap + 8, levels=0.2)
                eps.append(ep)
            # one is asked before every call, its twin never
            ep = Ep('asked and not asked, %s<f%d>' % (NAMES[kind], ty), prof)
            for cap in (0, 1, 2, 3, 7, 20):
                for _ in range(scale(r, 3, 10)):
                    d = pick_delay(rng, kind, cap, 'eighths')
                    a = ep.new(kind, ty, d, cap)
                    b = ep.new(kind, ty, d, cap)
                    k = CMP | linear_k(ty, cap, 'eighths')
                    by = 0
                    if rng.random() < 0.5:
                        # at all levels, starting from silence
                        by, k = level(rng, ty, LINEAR, k & 255)
                        k |= CMP
                        if kind == LINEAR:
                            ep.units(a, by)
                            ep.units(b, by)
                    for i in range(2 * cap + 8):
                        c = rng.random()
                        v = math.ldexp(rng.choice([0, rng.randint(-99, 99), rng.randint(-99, 99)]) / (64 if by else 1), -by)
                        t = rng.randint(0, cap)
                        d = pick_delay(rng, kind, cap, 'eighths')
                        for o in (a, b):
                            if o == a:
                                ep.nexto(o, k)
                            if c < 0.1:
                                ep.setd(o, d)
                            elif c < 0.2:
                                ep.tapi(o, t, v)
                            elif c < 0.3:
                                ep.addto(o, t, v, k)
                            elif c < 0.35:
                                ep.clear(o)
                            if o == a:
                                ep.nexto(o, k)
                                ep.nexto(o, k)
                            ep.proc(o, v, k)
                            ep.last(o, k)
                        ep.eq(a, b, k & 255)
            eps.append(ep)
    r.conform(eps)


# ---- filters ---------------------------------------------------------------------------------------------
def filter_model(r, inductive=False):
    r.tlc('mc_filter' + scale(r, '_quick', '_full'))
    if inductive:
        # for unbounded integers: the relation holds at the start and is kept by every step
        for init in ('init', 'anyRelated'):
            r.apalache('mc_filter_ind.qnt', 'mc_filter_ind', 'related', init=init, steps=1)


def filter_walks(r, rng, kinds, share, observe, step=None):
    """Replay the transitions of mc_filter (integer coefficients and samples: exact)."""
    ws = walks(r, 'mc_filter_quick', drop=('twin', 'fresh', 'a', 'b', 'same', 'lastRet'))
    eps = []
    for ty, prof in everywhere():
        k = K(ty, 20, 45)
        sp = Split(eps, 'walks of the filter model, f%d' % ty, prof)
        for w in ws:
            kind = w[0]['a']
            if kind not in kinds or rng.random() > share:
                continue
            ep = sp.begin()
            o = ep.new(kind, ty)
            for c in w[1:]:
                if c['op'] == 'process':
                    ep.proc(o, float(c['a']), k if 'process' in observe else 0)
                    if 'last' in observe and rng.random() < 0.3:
                        ep.last(o, k)
                elif c['op'] == 'set_coefficients':
                    h = c['c']
                    ep.coef(o, h['b0'], h['b1'], h['b2'], h['a1'], h['a2'])
                    if 'coef' in observe:
                        for i in fields_of(kind):
                            ep.readf(o, i, k)
                elif c['op'] == 'field':
                    ep.field(o, c['a'], float(c['b']))
                elif c['op'] == 'clear':
                    ep.clear(o)
                    if 'clear' in observe:
                        ep.last(o, k)
    return eps


def some_zero(rng, cs):
    """coefficients, now and then with some of them zero or one"""
    c = rng.random()
    if c < 0.6:
        return cs
    return tuple((rng.choice([0.0, x, x]) if i else rng.choice([0.0, 1.0, x])) for i, x in enumerate(cs))


def uneven(rng, kind):
    """coefficients of any size"""
    def c():
        x = rng.random()
        if x < 0.25:
            return 0.0
        e = rng.uniform(-30, -3) if x < 0.6 else rng.uniform(3, 24) if x < 0.85 else rng.uniform(-3, 3)
        return f32(rng.choice([-1, 1]) * rng.uniform(1, 2) * 2.0 ** e)
    cs = [c() if i in fields_of(kind) else 0.0 for i in range(5)]
    cs[0] = cs[0] or 1.0
    return cs


@check('C07')
def c07(r):
    rng = rng_for(r, 'filters')
    filter_model(r)
    eps = filter_walks(r, rng, BASIC, scale(r, 0.1, 1.0), {'process', 'last', 'coef', 'clear'})
    for ty, prof in everywhere():
        for kind in BASIC:
            n = scale(r, 1, 6)
            # exact or nearly so: dyadic coefficients and samples, settings changed at any time
            ep = Ep('dyadic sessions, %s<f%d>' % (NAMES[kind], ty), prof)
            k = K(ty, 17, 44)
            for _ in range(14 * n):
                o = ep.new(kind, ty)
                for _ in range(rng.randint(1, 4)):
                    c = rng.random()
                    if c < 0.6:
                        ep.coef(o, *some_zero(rng, coefs(rng, kind, True)))
                    elif c < 0.9:
                        i = rng.choice(fields_of(kind))
                        ep.field(o, i, rng.choice([0.0, 0.5, -0.5, 1.0, 0.25, -0.75]))
                    for i in fields_of(kind):
                        ep.readf(o, i, K(ty, 23, 52))
                    for x in signal(rng, rng.randint(1, 12), rng.choice(['dyadic', 'impulse', 'step', 'alternating'])):
                        ep.proc(o, x, k)
                    ep.last(o, k)
            eps.append(ep)
            # one coefficient after the other, by the setter and by the field
            ep = Ep('one by one, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(n):
                o = ep.new(kind, ty)
                cs = list(coefs(rng, kind, True))
                ep.coef(o, *cs)
                for x in signal(rng, 3, 'dyadic'):
                    ep.proc(o, x, k)
                for i in rng.sample(fields_of(kind), len(fields_of(kind))) * 2:
                    cs[i] = rng.choice([v for v in (0.0, 0.5, -0.5, 0.25, -0.25, 0.125, 1.0 if i < 3 else -0.125) if v != cs[i]])
                    if rng.random() < 0.75:
                        ep.coef(o, *cs)
                    else:
                        ep.field(o, i, cs[i])
                    for j in fields_of(kind):
                        ep.readf(o, j, K(ty, 23, 52))
                    for x in signal(rng, rng.randint(1, 4), 'dyadic'):
                        ep.proc(o, x, k)
            eps.append(ep)
            # coefficients hardly different from the ones before
            ep = Ep('as good as the same, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(3 * n):
                o = ep.new(kind, ty)
                cs = [rng.choice([0.125, 0.25, -0.25, -0.125, 0.1875]) for _ in range(5)]
                ep.coef(o, *cs)
                ep.proc(o, 0.5, k)
                for _ in range(4):
                    for i in rng.choice([fields_of(kind), [rng.choice(fields_of(kind))]]):
                        cs[i] += rng.choice([-1, 1]) * 2.0 ** -rng.choice([12, 16, 20, 23] if ty == 32 else [20, 30, 40, 50, 52])
                    ep.coef(o, *cs)
                    for j in fields_of(kind):
                        ep.readf(o, j, K(ty, 23, 52))
                    ep.proc(o, 0.5, k)
            eps.append(ep)
            # coefficients of very different sizes: what each contributes shows in turn
            ep = Ep('small and large coefficients, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(8 * n):
                o = ep.new(kind, ty)
                ep.coef(o, *uneven(rng, kind))
                for i in fields_of(kind):
                    ep.readf(o, i, K(ty, 23, 52))
                for x in [1.0, 0.0, 0.0, 0.0]:
                    ep.proc(o, x, K(ty, 8, 36) | LOC)
            eps.append(ep)
            # anything stable, signals of all sizes
            ep = Ep('realistic sessions, %s<f%d>' % (NAMES[kind], ty), prof)
            k = K(ty, 12, 40)
            for style in STYLES + ('minute', 'huge'):
                for _ in range(n):
                    o = ep.new(kind, ty)
                    ep.coef(o, *some_zero(rng, coefs(rng, kind, False)))
                    for x in signal(rng, 40, style):
                        ep.proc(o, x, k)
                    ep.last(o, k)
                    if rng.random() < 0.6:
                        ep.coef(o, *coefs(rng, kind, False))
                        for i in fields_of(kind):
                            ep.readf(o, i, K(ty, 23, 52))
                        for x in signal(rng, 15, style):
                            ep.proc(o, x, k)
            eps.append(ep)
            # the tail of a response, followed down: tolerance relative to the tail itself
            if kind not in (ONEZERO, TWOZERO):
                ep = Ep('decays, %s<f%d>' % (NAMES[kind], ty), prof)
                for _ in range(2 * n):
                    o = ep.new(kind, ty)
                    q = rng.uniform(0.5, 0.9)
                    a1 = -q if kind == ONEPOLE else -2 * q * math.cos(rng.uniform(0.3, 2.8))
                    ep.coef(o, 1.0, 0.5, 0.25, a1, q * q)
                    for x in signal(rng, 5, 'uniform'):
                        ep.proc(o, x)
                    for _ in range(70):
                        ep.proc(o, 0.0, K(ty, 8, 36) | LOC)
                eps.append(ep)
        ep = Ep('long runs, f%d' % ty, prof)
        for kind in BASIC:
            o = ep.new(kind, ty)
            ep.coef(o, 0.5, 0.25, 0.125, -0.5, 0.25)
            for m in (100, 1000, scale(r, 3000, 70000)):
                ep.run(o, m, 1.0, K(ty, 14, 42), cost=m / 4)
                for x in signal(rng, 6, 'dyadic'):
                    ep.proc(o, x, K(ty, 14, 42))
        eps.append(ep)
        long_lives(r, rng, eps, BASIC, ty, prof)
        ep = Ep('far away levels, f%d' % ty, prof)
        for kind in BASIC:
            for _ in range(scale(r, 8, 60)):
                o = ep.new(kind, ty)
                dy = rng.random() < 0.5
                by, k = level(rng, ty, kind, 12 if ty == 32 else 40)
                ep.units(o, by)
                ep.coef(o, *some_zero(rng, coefs(rng, kind, dy)))
                for x in scaled(signal(rng, 16, rng.choice(LEVEL_STYLES)), by):
                    ep.proc(o, x, CMP | k)
                ep.last(o, CMP | k)
        eps.append(ep)
    r.conform(eps)


# ---- C08 realizations agree, linear ------------------------------------------------------------------------
@check('C08')
def c08(r):
    rng = rng_for(r, 'realizations')
    filter_model(r, inductive=True)
    eps = []
    pairs = [(BIQUAD1, BIQUAD2), (ONEPOLE, BIQUAD1), (ONEPOLE, BIQUAD2), (ONEZERO, BIQUAD1), (ONEZERO, BIQUAD2),
             (TWOPOLE, BIQUAD1), (TWOPOLE, BIQUAD2), (TWOZERO, BIQUAD1), (TWOZERO, BIQUAD2),
             (ONEPOLE, TWOPOLE), (ONEZERO, TWOZERO)]
    for ty, prof in everywhere():
        for ka, kb in pairs:
            ep = Ep('%s against %s, f%d' % (NAMES[ka], NAMES[kb], ty), prof)
            for style in STYLES + ('minute', 'huge') + LEVEL_STYLES[:4]:
                for _ in range(scale(r, 2 if ka == BIQUAD1 else 1, 8)):
                    a, b = ep.new(ka, ty), ep.new(kb, ty)
                    dy = style == 'dyadic'
                    k = K(ty, 17, 44) if dy else K(ty, 11, 40)
                    by = 0
                    if style in LEVEL_STYLES and rng.random() < 0.5:
                        by, k = level(rng, ty, ka, 11 if ty == 32 else 40)
                        k |= CMP
                        for o in (a, b):
                            ep.units(o, by)
                    for _ in range(rng.choice([1, 1, 2])):
                        cs = list(some_zero(rng, coefs(rng, ka, dy)))
                        both = set(fields_of(ka)) & set(fields_of(kb))
                        cs = [c if i in both else 0.0 for i, c in enumerate(cs)]
                        if 4 not in both and abs(cs[3]) >= 0.97:
                            cs[3] *= 0.49
                        for o in (a, b):
                            ep.coef(o, *cs)
                        for x in scaled(signal(rng, 24, style), by):
                            ep.proc(a, x, k)
                            ep.proc(b, x, k)
                            ep.eq(a, b, k & 255)
                        # only after a clear may two realizations be expected to agree again
                        for o in (a, b):
                            ep.clear(o)
            eps.append(ep)
        ep = Ep('small and large coefficients, f%d' % ty, prof)
        for ka, kb in pairs:
            both = set(fields_of(ka)) & set(fields_of(kb))
            for _ in range(scale(r, 10, 40)):
                cs = [c if i in both else 0.0 for i, c in enumerate(uneven(rng, ka))]
                a, b = ep.new(ka, ty), ep.new(kb, ty)
                for o in (a, b):
                    ep.coef(o, *cs)
                    for x in [1.0, 0.0, 0.0, 0.0]:
                        ep.proc(o, x, K(ty, 8, 36) | LOC)
                ep.eq(a, b, 8 if ty == 32 else 36)
        eps.append(ep)
        # on the edge of stability, where whole numbers stay whole numbers: exact
        ep = Ep('undamped, f%d' % ty, prof)
        edge = [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (-2.0, 1.0), (2.0, 1.0)]
        for ka, kb in pairs:
            both = set(fields_of(ka)) & set(fields_of(kb))
            for a1, a2 in edge if 4 in both else edge[:2] if 3 in both else []:
                a, b = ep.new(ka, ty), ep.new(kb, ty)
                for o in (a, b):
                    ep.coef(o, *[c if i in both else 0.0 for i, c in enumerate((1.0, 0.0, 0.0, a1, a2))])
                xs = [float(rng.randint(-9, 9)) for _ in range(rng.choice([1, 2, 3]))] + [0.0] * 10
                if rng.random() < 0.5:
                    xs[7] = float(rng.randint(-9, 9))
                for x in xs:
                    ep.proc(a, x, K(ty, 20, 48))
                    ep.proc(b, x, K(ty, 20, 48))
                    ep.eq(a, b, 20 if ty == 32 else 48)
        # opposite and equal responses
        for kind in BASIC:
            for _ in range(3):
                s = Setup(rng, kind, ty)
                a1, a2 = rng.choice(edge)
                s.calls = [('coef', 1.0, 1.0 if 1 in fields_of(kind) else 0.0, 0.0, a1, a2 if 4 in fields_of(kind) else 0.0)]
                a, b, c = s.build(ep), s.build(ep), s.build(ep)
                for i in range(16):
                    x, y = (float(rng.randint(-9, 9)), float(rng.randint(-9, 9))) if i < 3 else (0.0, 0.0)
                    ep.proc(a, x)
                    ep.proc(b, y)
                    ep.proc(c, x + y)
                    ep.summed(a, b, c, 20 if ty == 32 else 48)
        eps.append(ep)
        for kind in BASIC + RBJ:
            ep = Ep('superposition, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(scale(r, 5, 24)):
                s = Setup(rng, kind, ty, gentle=rng.random() < 0.5)
                a, b, c = s.build(ep), s.build(ep), s.build(ep)
                st = rng.choice(['uniform', 'dyadic', 'sparse', 'tiny', 'large', 'minute', 'huge', 'far', 'far', 'far'])
                kk = K(ty, 10, 38)
                far = st == 'far'
                by = 0
                if far:
                    st = rng.choice(['uniform', 'dyadic', 'sparse', 'step', 'impulse'])
                    by, k = level(rng, ty, kind, 10 if ty == 32 else 38)
                    kk = CMP | k
                    for o in (a, b, c):
                        ep.units(o, by)
                for x, y in zip(signal(rng, 24, st), signal(rng, 24, st)):
                    if ty == 32:
                        x, y = f32(x), f32(y)
                        # keep the sum exact
                        q = 2.0 ** -12 * (max(abs(x), abs(y)) or 1.0)
                        q = 2.0 ** math.floor(math.log2(q))
                        x, y = round(x / q) * q, round(y / q) * q
                    x, y = scaled((x, y), by)
                    fl = tol(kind, ty) if kind in RBJ else kk
                    ep.proc(a, x)
                    ep.proc(b, y)
                    ep.proc(c, x + y, fl if kind in BASIC else 0)
                    ep.summed(a, b, c, kk & 255)
            eps.append(ep)
    r.conform(eps)


# ---- C09 clear ------------------------------------------------------------------------------------------------
def misuse(rng, ep, o, s, n):
    """a past: samples (some peculiar), settings in passing"""
    for i in range(n):
        c = rng.random()
        if c < 0.1:
            ep.proc(o, 0.0)
        elif c < 0.7:
            ep.proc(o, sample(rng, i, 0.2))
        elif c < 0.8:
            ep.block(o, [sample(rng, i, 0.1) for _ in range(rng.randint(0, 5))])
        elif s.kind in (DELAY, LINEAR):
            t = rng.randint(0, s.a1)
            rng.choice([lambda: ep.tapi(o, t, sample(rng, i)), lambda: ep.nexto(o), lambda: ep.nexto(o),
                        lambda: ep.addto(o, t, 1.0), lambda: ep.tapo(o, t)])()
        else:
            ep.last(o)


def settings(ep, s, o):
    e = CMP | 40
    if s.kind in (DELAY, LINEAR):
        ep.getd(o, e)
        ep.getm(o, e)
    elif s.kind in BASIC:
        for i in fields_of(s.kind):
            ep.readf(o, i, K(s.ty, 23, 52))
    elif s.kind == LEAKY:
        ep.galpha(o, K(s.ty, 23, 52))
    elif s.kind in ENVS:
        ep.gatt(o, K(s.ty, 23, 52))
        ep.grel(o, K(s.ty, 23, 52))


@check('C09')
def c09(r):
    rng = rng_for(r, 'clearing')
    r.tlc('mc_proc' + scale(r, '_quick', '_full'))
    filter_model(r)
    r.tlc('mc_env' + scale(r, '_quick', '_full'))
    delay_model(r)
    eps = filter_walks(r, rng, BASIC, scale(r, 0.08, 1.0), {'process', 'clear'})
    eps += delay_walks(r, DELAY, walks(r, 'mc_delay_int_replay'), rng, TYPES, ('dev',), {'process', 'last', 'getd'},
                       share=scale(r, 0.06, 1.0))
    for ty, prof in everywhere():
        for kind in PROCESSORS:
            ep = Ep('cleared and new, %s<f%d>' % (NAMES[kind], ty), prof)
            for j in range(scale(r, 8, 40)):
                s = Setup(rng, kind, ty)
                a = s.build(ep)
                if j % 8 >= 6 and kind in BASIC + RBJ:
                    # its output happens to be zero
                    for x in signal(rng, rng.randint(1, 6), 'uniform'):
                        ep.proc(a, x)
                    ep.silence(a)
                else:
                    misuse(rng, ep, a, s, rng.choice([0, 1, 2, 3, 5, 8, 13, 20]))
                    if rng.random() < 0.2:
                        ep.proc(a, 0.0)
                if j % 3 == 1:
                    # a clear long ago must not matter either
                    ep.clear(a)
                    misuse(rng, ep, a, s, rng.randint(0, 6))
                if j % 3 == 2 and kind in (DELAY, LINEAR):
                    s.a1 += rng.randint(1, 6)
                    ep.setm(a, s.a1)
                    misuse(rng, ep, a, s, rng.randint(0, 6))
                if j % 5 == 4 and kind in (DELAY, LINEAR):
                    s.a0 = rng.randint(0, s.a1)
                    ep.setd(a, s.a0)
                ep.clear(a)
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    ep.clear(a)
                fl = tol(kind, ty)
                ep.last(a, fl)
                settings(ep, s, a)
                if kind in (DELAY, LINEAR):
                    for t in range(s.a1 + 1):
                        ep.tapo(a, t, fl)
                    ep.nexto(a, fl)
                b = s.build(ep)
                ep.eq(a, b, fl & 255)
                if kind in (DELAY, LINEAR):
                    # whatever is asked of it first
                    t = rng.randint(0, s.a1)
                    for c in fiddle(rng, s) if rng.random() < 0.6 else [('addto', t, 2.0), ('addto', s.a1, 4.0)]:
                        for o in (a, b):
                            getattr(ep, c[0])(o, *(c[1:] + ((fl,) if c[0] in ('tapo', 'addto', 'nexto', 'getd', 'getm') else ())))
                    for t in range(s.a1 + 1):
                        ep.tapo(a, t, fl)
                for x in signal(rng, s.a1 + 3 + rng.randint(0, 8), rng.choice(['uniform', 'dyadic', 'step', 'tiny'])):
                    ep.proc(a, x, fl)
                    ep.proc(b, x, fl)
                    ep.eq(a, b, fl & 255)
            eps.append(ep)
    r.conform(eps)


def fiddle(rng, s):
    """calls that leave the output alone, as to a processor set up like s"""
    k = s.kind
    if k in (DELAY, LINEAR):
        d = lambda: rng.randint(0, s.a1) if k == DELAY else rng.choice([float(rng.randint(0, s.a1)), rng.randint(0, 8 * s.a1) / 8])
        t = rng.randint(0, s.a1)
        if rng.random() < 0.3:
            # write right where the line reads
            w = rng.randint(0, s.a1)
            return [('setd', w if k == DELAY else float(w)), ('tapi', w, 3.0)] + ([('tapi', w - 1, 5.0)] if w else [])
        cs = rng.sample([('setd', d()), ('setd', d()), ('setm', s.a1), ('setm', s.a1 + rng.choice([1, 3])), ('tapo', t),
                         ('tapi', t, 3.0), ('addto', t, 2.0), ('nexto',), ('setm', t), ('getd',), ('getm',)], 2)
        s.a1 = max([s.a1] + [c[1] for c in cs if c[0] == 'setm'])
        return cs
    if k in BASIC:
        return rng.choice([[('coef',) + coefs(rng, k, True)], [('field', rng.choice(fields_of(k)), 0.25)]])
    if k == LEAKY:
        return [('alpha', rng.choice([0.0, 0.5, 0.25, 1.5, -1.0]))]
    if k in ENVS:
        return rng.choice([[('att', rng.uniform(1, 9)), ('gatt',)], [('rel', rng.uniform(1, 9)), ('grel',)], [('att', -1.0)]])
    return [('last',)]


# ---- C10 blocks ------------------------------------------------------------------------------------------------
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]
LARGE = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]


@check('C10')
def c10(r):
    rng = rng_for(r, 'blocks')
    ws = walks(r, 'mc_proc_quick')
    if r.tier == 'thorough':
        r.tlc('mc_proc_full')
    eps = []
    for ty, prof in everywhere():
        sp = Split(eps, 'walks of the block model, f%d' % ty, prof)
        for w in ws:
            if rng.random() > scale(r, 0.07, 1.0):
                continue
            e = K(ty, 22, 50)
            ep = sp.begin()
            o = {}
            for i in (1, 2):
                o[i] = ep.new(TWOZERO, ty)
                ep.coef(o[i], 1, 2, 4, 0, 0)
            for c in w[1:]:
                i = o[c['obj']]
                if c['op'] == 'process':
                    ep.proc(i, float(c['xs'][0]), e)
                elif c['op'] == 'block':
                    ep.block(i, [float(x) for x in c['xs']], e)
                else:
                    ep.clear(i)
                ep.last(o[1], e)
                ep.last(o[2], e)
        for kind in PROCESSORS:
            ep = Ep('blocks, %s<f%d>' % (NAMES[kind], ty), prof)
            fl = tol(kind, ty)
            for rep in range(scale(r, 1, 6)):
                s = Setup(rng, kind, ty, cap=rng.choice([3, 5, 8, 40]))
                a, b = s.build(ep), s.build(ep)
                sizes = SIZES + rng.sample(LARGE, 4)
                if r.tier == 'quick':
                    sizes = SIZES[:10] + rng.sample(SIZES[10:16], 2) + rng.sample(SIZES[16:], 1) + rng.sample(LARGE, rng.randint(0, 1))
                rng.shuffle(sizes)
                for n in sizes:
                    xs = signal(rng, n) if n > 1 else [rng.uniform(-1, 1)] * n
                    ep.block(a, xs, fl)
                    ep.last(a, fl)
                    if n < 40:
                        for x in xs:
                            ep.proc(b, x, fl)
                        ep.last(b, fl)
                    else:
                        ep.block(b, xs[:n // 3])
                        ep.block(b, xs[n // 3:], fl)
                    ep.eq(a, b, fl & 255)
                if rng.random() < 0.7:
                    n = rng.choice([2048, 4096, 4097])
                    ep.run(a, n, 0.5, fl, block=True, cost=n / 8)
                    ep.last(a, fl)
                ep.clear(a)
                ep.block(a, [], fl)
                ep.last(a, fl)
                # samples that are not numbers, and settings changed between blocks
                for o in (a, b):
                    ep.clear(o)
                for j in range(scale(r, 24 if kind in (DELAY, LINEAR) else 8, 40)):
                    if j % 4 == 0:
                        for o in (a, b):
                            ep.clear(o)
                    else:
                        cs = fiddle(rng, s)
                        for o in (a, b):
                            for c in cs:
                                getattr(ep, c[0])(o, *c[1:])
                                ep.last(o, fl)
                    xs = signal(rng, rng.choice([2, 3, 5, 8, 17]), rng.choice(LEVEL_STYLES))
                    if rng.random() < 0.6:
                        xs[rng.randrange(len(xs))] = rng.choice([NAN, INF, -INF, NAN])
                    ep.block(a, xs, fl)
                    for x in xs:
                        ep.proc(b, x, fl)
                    ep.same(a, b, fl & 255)
                    ep.last(a, fl)
                    if kind in (DELAY, LINEAR):
                        for o in (a, b):
                            ep.nexto(o, fl)
                            ep.last(o, fl)
                    if j % 2:
                        # no samples: nothing happens, whatever the last output is
                        ep.block(a, [], fl)
                        ep.last(a, fl)
                        if kind in (DELAY, LINEAR):
                            for t in range(s.a1 + 1):
                                ep.tapo(a, t, fl)
                        for x in signal(rng, 3, 'dyadic'):
                            ep.proc(a, x, fl)
                            ep.proc(b, x, fl)
                            ep.same(a, b, fl & 255)
            # sizes in common use
            for i, n in enumerate((96, 100, 160, 192, 200, 240, 320, 384, 441, 480, 500, 640, 768, 800, 882, 960, 1000)):
                if i % 4 != (PROCESSORS.index(kind) + list(everywhere()).index((ty, prof))) % 4 and r.tier == 'quick':
                    continue
                s = Setup(rng, kind, ty)
                if kind in BASIC:
                    s.calls = [('coef', 0.5, 0.25, 0.125, -0.5, 0.25)]
                o = s.build(ep)
                ep.run(o, n, 0.5, fl, block=True, cost=n / 8)
                ep.last(o, fl)
                ep.proc(o, 0.25, fl)
            # silence, with something in memory and the last output zero or not
            for n in rng.sample([1, 2, 5, 8, 9, 12, 16, 17, 33], 5) + [rng.choice([64, 128, 256])]:
                s = Setup(rng, kind, ty)
                a, b = s.build(ep), s.build(ep)
                for o, xs in zip((a, b), [signal(rng, 4 + s.a1, 'uniform')] * 2):
                    for x in xs:
                        ep.proc(o, x, fl)
                if n % 2 or n == 12 or n > 60:
                    ep.silence(a)
                    ep.silence(b)
                ep.block(a, [0.0] * n, fl)
                ep.last(a, fl)
                for _ in range(n):
                    ep.proc(b, 0.0, fl)
                ep.eq(a, b, fl & 255)
                for x in signal(rng, 3, 'uniform'):
                    ep.proc(a, x, fl)
                    ep.proc(b, x, fl)
                    ep.eq(a, b, fl & 255)
            # far away levels; every other time too small to be normal numbers
            for j, n in enumerate(rng.sample([2, 5, 8, 13, 24, 32], 2) + rng.sample([17, 33, 40, 64, 65], 2)):
                s = Setup(rng, kind, ty)
                a, b = s.build(ep), s.build(ep)
                by, k = level(rng, ty, kind, fl & 255)
                if j % 2 == 0 and kind != RMSENV:
                    by, k = (rng.randint(128, 132), min(k, 7)) if ty == 32 else (rng.randint(1024, 1040), min(k, 20))
                k |= CMP
                if kind == DELAY:
                    k = fl
                else:
                    ep.units(a, by)
                    ep.units(b, by)
                for xs in (scaled(signal(rng, n, rng.choice(LEVEL_STYLES)), by), [math.ldexp(0.5, -by)] * n):
                    ep.block(a, xs, k)
                    ep.last(a, k)
                    for x in xs:
                        ep.proc(b, x)
                    ep.eq(a, b, k & 255)
            if kind in (DELAY, LINEAR):
                # the last output is the first sample of the block
                for n in rng.sample([4, 8, 16, 32, 100, 128, 1000, 1024], 3) + [64, 256, 512]:
                    o = ep.new(kind, ty, n - 1, n + rng.choice([0, 1, 5]))
                    ep.block(o, [float(i + 1) for i in range(n)], fl)
                    ep.last(o, fl)
            eps.append(ep)
        ep = Ep('65537 samples in a block, f%d' % ty, prof)
        for kind in PROCESSORS:
            for n in scale(r, (65537, rng.choice([65535, 70000, 1 << 20])), (65535, 65536, 65537, 70000, 1 << 20)):
                s = Setup(rng, kind, ty)
                if kind in BASIC:
                    s.calls = [('coef', 0.5, 0.25, 0.125, -0.5, 0.25)]
                a = s.build(ep)
                ep.block(a, [0.5, -0.25], tol(kind, ty))
                ep.run(a, n, 0.25, tol(kind, ty), block=True, cost=700)
                ep.last(a, tol(kind, ty))
                ep.block(a, [0.5, -0.25, 0.125], tol(kind, ty))
        eps.append(ep)
    r.conform(eps)


# ---- C11 new is transparent ----------------------------------------------------------------------------------------
@check('C11')
def c11(r):
    rng = rng_for(r, 'new')
    filter_model(r)
    r.tlc('mc_env' + scale(r, '_quick', '_full'))
    eps = []
    for ty, prof in everywhere():
        for kind in PROCESSORS:
            ep = Ep('never set up, %s<f%d>' % (NAMES[kind], ty), prof)
            fl = K(ty, 22, 50)
            for _ in range(scale(r, 1, 5)):
                for style in STYLES + ('minute', 'huge'):
                    if kind == RMSENV and style in ('minute', 'huge'):
                        continue
                    o = ep.new(kind, ty, 0, rng.choice([0, 1, 4, 9]) if kind in (DELAY, LINEAR) else 0)
                    ep.last(o, fl)
                    for x in signal(rng, 14, style):
                        ep.proc(o, x, fl)
                    ep.last(o, fl)
                    if rng.random() < 0.5:
                        ep.clear(o)
                        ep.last(o, fl)
                    ep.block(o, signal(rng, 6, style), fl)
                    # constants of each structure at the start
                    if kind in BASIC:
                        for i in fields_of(kind):
                            ep.readf(o, i, fl)
                    elif kind == LEAKY:
                        ep.galpha(o, fl)
                    elif kind in ENVS:
                        ep.gatt(o, fl)
                        ep.grel(o, fl)
            for _ in range(scale(r, 6, 40)):
                o = ep.new(kind, ty, 0, 3 if kind in (DELAY, LINEAR) else 0)
                by, k = level(rng, ty, kind, fl & 255)
                if kind != DELAY:
                    ep.units(o, by)
                    k |= CMP
                else:
                    k = fl
                for x in scaled(signal(rng, 8, rng.choice(LEVEL_STYLES)), by):
                    ep.proc(o, x, k)
                ep.last(o, k)
            # as loud as can be
            if kind != RMSENV:
                top, by = (3.4028234663852886e38, -125) if ty == 32 else (1.7976931348623157e308, -1021)
                o = ep.new(kind, ty, 0, 3 if kind in (DELAY, LINEAR) else 0)
                if kind != DELAY:
                    ep.units(o, by)
                for c in (1.0, 0.5, 1.0, 0.75, 1 / 64, 0.0, 2.0 ** -10, 2.0 ** -100, 1.0):
                    # an integrator takes the difference of two samples
                    for g in (c,) if kind == LEAKY else (c, -c):
                        ep.proc(o, g * top, fl)
                    ep.last(o, fl)
                if kind == LEAKY:
                    ep.clear(o)
                    for c in (-1.0, -0.5, -1.0, 0.0, 2.0 ** -20, 0.5):
                        ep.proc(o, c * top, fl)
            # silence after sound is silence
            for a in (1.0, 1e6, -1e15 if ty == 64 else 1e15, 1e30, 1e4):
                if kind == RMSENV and abs(a) > 1e15:
                    continue
                o = ep.new(kind, ty, 0, 4 if kind in (DELAY, LINEAR) else 0)
                loc = fl | (0 if kind in (DELAY, LINEAR) else LOC)
                for _ in range(3):
                    ep.proc(o, a, fl)
                    ep.proc(o, 0.0, loc)
                    ep.proc(o, 0.0, loc)
                    ep.proc(o, a, loc)
            # a big sample leaves no trace
            for a, b in ((1e6, 1e-6), (1.0, 1e-9), (-1e8, 3.0), (1e15, 1.0), (1.0, 1e-12)):
                o = ep.new(kind, ty, 0, 4 if kind in (DELAY, LINEAR) else 0)
                for _ in range(4):
                    if kind in (LEAKY, PEAKENV, RMSENV) and abs(a) > 1e4 * abs(b):
                        break      # x + 0 * (env - x), fine; covered by the tolerance to the loudest
                    ep.proc(o, a, fl | (LOC if kind in BASIC + RBJ else 0))
                    ep.proc(o, b, fl | (LOC if kind in BASIC + RBJ else 0))
            eps.append(ep)
    r.conform(eps)


# ---- C12..C14 the cookbook filters ----------------------------------------------------------------------------------
def rbj_k(ty):
    return K(ty, 7, 28)


def extreme_k(kind, ty, ps):
    a = 10 ** (abs(ps[2]) / 40) if kind == PEAK else 10 ** (abs(ps[2]) / 20) if kind in (LOWSHELF, HIGHSHELF) else 1.0
    return int((19 if ty == 32 else 47) - math.log2(1 + a / (2 * ps[3])))


def extreme(rng, kind, ty):
    """valid settings far from the usual"""
    sr = rng.choice([44100.0, 48000.0, 96000.0, 8000.0, 192000.0, 1.0, 2e6])
    c = rng.random()
    lo = 1e-4 if ty == 32 else 1e-5
    if c < 0.4:
        f = math.exp(rng.uniform(math.log(lo), math.log(0.05)))
    elif c < 0.7:
        f = 0.5 - math.exp(rng.uniform(math.log(lo), math.log(0.05)))
    else:
        f = rng.uniform(0.02, 0.48)
    if kind in (LOWSHELF, HIGHSHELF):
        p = rng.choice([1.0, 0.01, rng.uniform(0.01, 1.0), 0.999])
        db = rng.choice([rng.uniform(-30, 30), rng.uniform(-80, 80)])
    else:
        p = math.exp(rng.uniform(math.log(0.01), math.log(200.0))) if rng.random() < 0.8 else rng.uniform(200, 4000)
        db = rng.uniform(-80, 80)
    return f32(sr), f32(f * sr), f32(db), f32(p)


def one_by_one(rng, kind, ty):
    shelf, gain = kind in (LOWSHELF, HIGHSHELF), kind in (LOWSHELF, HIGHSHELF, PEAK)

    def near(*vs):
        return [v * rng.uniform(0.9, 1.1) for v in vs]
    base = [rng.choice([44100.0, 48000.0]), rng.choice([3000.0, 5000.0, 9000.0]), rng.choice([-6.0, 5.0, 9.0, -14.0]) if gain else 0.0,
            rng.choice([0.5, 0.75, 1.0]) if shelf else rng.choice([0.7, 1.0, 3.0])]
    out = [list(base)]
    for at, vs in [(0, near(20000, 32000, 64000, 88200, 176400, 352800, 1e6)),
                   (1, near(700, 1000, 1500, 2000, 4000, 7000, 11000, 13000, 15000, 17000, 19000, 20000) + [base[0] / 4, base[0] / 8, base[0] / 3]),
                   (2, [g * v for v in near(1e-4, 1e-3, 5e-3, 0.02, 0.05, 0.15, 0.5, 1, 2, 4, 8, 16, 24, 32, 48, 60) + [0.0, 1.0, 6.0, 12.0, 20.0, 40.0]
                        for g in (1, -1)] if gain else []),
                   (3, near(0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.85) + [1.0, 0.99, 0.5, 0.999999] if shelf else
                       near(0.01, 0.03, 0.1, 0.2, 0.4, 0.5, 0.7, 0.9, 1.1, 1.5, 2, 3, 5, 8, 12, 20, 40, 70, 150, 500, 1500, 1e4) + [1.0, 0.5, 2.0, math.sqrt(0.5), 10.0])]:
        for v in vs:
            ps = list(base)
            ps[at] = v
            out.append(ps)
    # a multiple of all frequencies is the same filter
    for m in (1e-6, 1e-3, 1 / base[0], 0.5 / base[0], 0.1, 1e3, 1e6):
        out.append([base[0] * m, base[1] * m] + base[2:])
    return [[f32(v) for v in ps] if ty == 32 else ps for ps in out]


@check('C12')
def c12(r):
    rng = rng_for(r, 'cookbook')
    r.simulate('mc_shape.qnt', 'mc_shape', 'designsOk', scale(r, 15, 300), 20)
    eps = []
    for ty, prof in everywhere():
        for kind in RBJ:
            ep = Ep('designs, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(scale(r, 14, 120)):
                o = ep.new(kind, ty)
                gentle = rng.random() < 0.5
                sr, f, db, p = params(rng, kind, ty, gentle)
                ep.rset(o, sr, f, db, p)
                fl = K(ty, 9, 34) if gentle else rbj_k(ty)
                for x in signal(rng, 24, rng.choice(['uniform', 'impulse', 'step', 'sine', 'tiny', 'large', 'alternating'])):
                    ep.proc(o, x, fl)
                ep.last(o, fl)
            # the coefficients show in the first outputs of an impulse
            for _ in range(scale(r, 40, 300)):
                o = ep.new(kind, ty)
                sr, f, db, p = params(rng, kind, ty)
                ep.rset(o, sr, f, db, p)
                a = rng.choice([1.0, 1.0, 0.5, -2.0])
                for x in [a, 0.0, 0.0, 0.0]:
                    ep.proc(o, x, K(ty, 10, 34))
            eps.append(ep)
            # extreme ones: the coefficients to the precision of the sample type
            for _ in range(scale(r, 40, 300)):
                o = ep.new(kind, ty)
                ps = extreme(rng, kind, ty)
                ep.rset(o, *ps)
                # near half the sample rate sin(w)/2Q is as exact as the rounding of w allows
                k = extreme_k(kind, ty, ps)
                for x in [1.0, 0.0, 0.0]:
                    ep.proc(o, x, CMP | k | ABS)
            # one setting at a time through its range, the others ordinary
            ep = Ep('one setting at a time, %s<f%d>' % (NAMES[kind], ty), prof)
            for ps in one_by_one(rng, kind, ty):
                o = ep.new(kind, ty)
                ep.rset(o, *ps)
                k = min(extreme_k(kind, ty, ps), 17 if ty == 32 else 44)
                for x in [1.0, 0.0, 0.0]:
                    ep.proc(o, x, CMP | k | ABS)
            eps.append(ep)
            # usual settings of audio software
            ep = Ep('usual settings, %s<f%d>' % (NAMES[kind], ty), prof)
            for sr in (44100.0, 48000.0, 96000.0):
                for f in (2000.0, 5000.0, 11025.0, 18000.0) + ((20.0, 100.0, 440.0) if ty == 64 else ()):
                    for db in ((-12.0, 0.0, 6.0) if kind in (LOWSHELF, HIGHSHELF, PEAK) else (0.0,)):
                        p = rng.choice([1.0, 0.5] if kind in (LOWSHELF, HIGHSHELF) else [0.5, math.sqrt(0.5), 1.0, 5.0])
                        o = ep.new(kind, ty)
                        ep.rset(o, sr, f, db, p)
                        for x in signal(rng, 12, 'impulse'):
                            ep.proc(o, x, K(ty, 8, 30))
            eps.append(ep)
    r.conform(eps)


def settle(kind, f, db, p):
    """how many samples the response of such a design takes to fade: a guess from its poles,
    which only decides how long to measure"""
    w = 2 * math.pi * f
    a = 10 ** (db / 40)
    if kind in (LOWSHELF, HIGHSHELF):
        al = math.sin(w) / 2 * math.sqrt((a + 1 / a) * (1 / p - 1) + 2)
        g = a if kind == HIGHSHELF else 1 / a
        h = 2 * math.sqrt(g) * al
        d0, d1, d2 = (g + 1) - (g - 1) * math.cos(w) + h, 2 * ((g - 1) - (g + 1) * math.cos(w)), \
            (g + 1) - (g - 1) * math.cos(w) - h
        if kind == LOWSHELF:
            a_, h = a, 2 * math.sqrt(a) * al
            d0, d1, d2 = (a_ + 1) + (a_ - 1) * math.cos(w) + h, -2 * ((a_ - 1) + (a_ + 1) * math.cos(w)), \
                (a_ + 1) + (a_ - 1) * math.cos(w) - h
    else:
        al = math.sin(w) / (2 * p)
        if kind == PEAK:
            al = al / a
        d0, d1, d2 = 1 + al, -2 * math.cos(w), 1 - al
    b, c = d1 / d0, d2 / d0
    disc = b * b - 4 * c
    rad = math.sqrt(abs(c)) if disc < 0 else max(abs(-b + math.sqrt(disc)), abs(-b - math.sqrt(disc))) / 2
    if rad >= 1 - 1e-9:
        return 10 ** 9
    return 20 + int(-19 / math.log(max(rad, 1e-6)))


@check('C13')
def c13(r):
    rng = rng_for(r, 'responses')
    r.simulate('mc_shape.qnt', 'mc_shape', 'designsOk', scale(r, 40, 600), 20)
    eps = []
    for ty, prof in everywhere():
        for kind in RBJ:
            ep = Ep('responses, %s<f%d>' % (NAMES[kind], ty), prof)
            # what decides the response in the long run shows at once in the first outputs
            for _ in range(scale(r, 20, 150)):
                o = ep.new(kind, ty)
                ps = extreme(rng, kind, ty)
                ep.rset(o, *ps)
                # near half the sample rate sin(w)/2Q is as exact as the rounding of w allows
                k = extreme_k(kind, ty, ps)
                for x in [1.0, 0.0, 0.0]:
                    ep.proc(o, x, CMP | k | ABS)
            for j in range(scale(r, 8, 50)):
                sr = rng.choice([1.0, 8000.0, 44100.0, 48000.0, 96000.0])
                shelf = kind in (LOWSHELF, HIGHSHELF)
                while True:
                    f = rng.choice([0.05, 0.1, 0.25, 0.4, 0.45, rng.uniform(0.02, 0.48), rng.uniform(0.05, 0.45)])
                    p = rng.uniform(0.2, 1.0) if shelf else \
                        rng.choice([0.5, math.sqrt(0.5), 1.0, 2.0, rng.uniform(0.4, 2.5), math.exp(rng.uniform(-3.2, 2.5))])
                    db = rng.choice([0.0, 6.0, -6.0, 12.0, -12.0, rng.uniform(-15, 15), rng.uniform(-30, 30)])
                    n = settle(kind, f, db, p)
                    if n <= scale(r, 600, 1500):
                        break
                sr, f = f32(sr), f32(f * sr)
                o = ep.new(kind, ty)
                if j % 2:
                    # whatever it was before
                    ep.rset(o, *params(rng, kind, ty, True))
                    ep.run(o, 5, 0.7)
                ep.rset(o, sr, f, db, p)
                ep.measure(o, f)
                fl = FIN
                ep.proc(o, 1.0, fl)
                for _ in range(n):
                    ep.raw(2, fl, o, 0, cost=0.6)
                ep.tail(o)
                for _ in range(20):
                    ep.proc(o, 0.0, fl)
                for what in (0, 1, 2):
                    ep.measured(o, what, 7 if ty == 32 else 22)
                ep.measured(o, 3, 10)
            eps.append(ep)
    # stability of extreme designs: a long time after an impulse the response has faded
    for ty, prof in everywhere():
        ep = Ep('long tails, f%d' % ty, prof)
        for kind in RBJ:
            for _ in range(scale(r, 2, 12)):
                sr, f, db, p = params(rng, kind, 64, False)
                if kind not in (LOWSHELF, HIGHSHELF):
                    p = min(p, 10.0)
                f = max(f, 0.002 * sr) if ty == 64 else max(f, 0.03 * sr)
                f = min(f, 0.49 * sr)
                o = ep.new(kind, ty)
                ep.rset(o, sr, f, db, p)
                ep.measure(o, f)
                for i in range(40):
                    ep.proc(o, 1.0 if i == 0 else 0.0, FIN)
                ep.run(o, 6000, 0.0, FIN, cost=750)
                ep.tail(o)
                for i in range(10):
                    ep.proc(o, 0.0, FIN)
                ep.measured(o, 3, 6)
        eps.append(ep)
    r.conform(eps)


@check('C14')
def c14(r):
    rng = rng_for(r, 'retuning')
    filter_model(r)
    eps = []
    for ty, prof in everywhere():
        for kind in RBJ:
            ep = Ep('retuned, %s<f%d>' % (NAMES[kind], ty), prof)
            for j in range(scale(r, 16, 80)):
                s = Setup(rng, kind, ty)
                a = ep.new(kind, ty)
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if rng.random() < 0.3:
                        # settings that make no sense
                        c = list(Setup(rng, kind, ty).calls[0])
                        for i in rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2])):
                            c[i] = rng.choice([NAN, INF, -1.0 if i in (1, 2, 4) else NAN, 0.0 if i in (1, 4) else NAN])
                        ep.rset(a, *c[1:])
                    else:
                        Setup(rng, kind, ty).apply(ep, a)
                    misuse(rng, ep, a, s, rng.choice([0, 1, 2, 3, 10]))
                if j % 4 == 0:
                    # to the very same settings
                    s.apply(ep, a)
                    if j % 8 == 0:
                        for x in signal(rng, rng.randint(1, 4), 'uniform'):
                            ep.proc(a, x)
                        ep.silence(a)
                    else:
                        misuse(rng, ep, a, s, 4)
                elif j % 4 == 1:
                    misuse(rng, ep, a, s, 4)
                elif j % 4 == 2:
                    # only one of the settings changes
                    c = list(s.calls[0])
                    i = rng.choice([1, 2, 3, 4])
                    c[i] = c[i] * (2 if i in (1, 3) else 0.75)
                    ep.rset(a, *c[1:])
                    misuse(rng, ep, a, s, 4)
                else:
                    for x in signal(rng, rng.randint(1, 4), 'uniform'):
                        ep.proc(a, x)
                    ep.silence(a)
                if j % 2:
                    # from settings next to these
                    c = list(s.calls[0])
                    i = rng.choice([2, 2, 4, 3, 1])
                    c[i] = f32(c[i] * (1 - rng.choice([1e-4, 1e-5, 1e-6, 3e-7, 1e-7])))
                    ep.rset(a, *c[1:])
                    for x in signal(rng, rng.randint(2, 5), 'uniform'):
                        ep.proc(a, x)
                s.apply(ep, a)
                fl = tol(kind, ty)
                ep.last(a, fl)
                b = s.build(ep)
                for x in signal(rng, 14, rng.choice(['uniform', 'dyadic', 'step', 'impulse', 'tiny'])):
                    ep.proc(a, x, fl)
                    ep.proc(b, x, fl)
                    ep.eq(a, b, fl & 255)
                # clearing keeps the tuning
                ep.clear(a)
                for x in signal(rng, 6, 'uniform'):
                    ep.proc(a, x, fl)
            # swept: retuned time and again
            a = ep.new(kind, ty)
            fl = tol(kind, ty)
            for j in range(scale(r, 80, 300)):
                if j % 3 == 0 or j < 2:
                    c = list(Setup(rng, kind, ty).calls[0])
                else:
                    c[2] = f32(c[2] * rng.choice([1.001, 0.999, 1.02, 0.98]))
                ep.rset(a, *c[1:])
                ep.last(a, fl)
                for x in signal(rng, rng.choice([1, 1, 2, 3]), 'uniform'):
                    ep.proc(a, x, fl)
            eps.append(ep)
    r.conform(eps)


# ---- C15..C18 integrator and envelopes ---------------------------------------------------------------------------------
def env_model(r, inductive=False):
    r.tlc('mc_env' + scale(r, '_quick', '_full'))
    if inductive or r.tier == 'thorough':
        # for any levels and gains
        for init in ('init', 'anyOk'):
            r.apalache('mc_env_ind.qnt', 'mc_env_ind', 'envOk', init=init, steps=1)


def length_for(g8):
    """a time constant with the gain g8/8"""
    return -1.0 / math.log(g8 / 8)


def env_walks(r, rng, kinds, share, gains=False):
    ws = walks(r, 'mc_env_quick', drop=('prev', 'fed', 'fresh'))
    eps = []
    for ty, prof in everywhere():
        sp = Split(eps, 'walks of the envelope model, f%d' % ty, prof)
        fl = K(ty, 15, 42)
        for w in ws:
            kind = w[0]['a']
            if kind not in kinds:
                continue
            for part in [w[i:i + 60] for i in range(1, len(w), 60)]:
                if rng.random() > share:
                    continue
                ep = sp.begin()
                o = ep.new(kind, ty)
                for c in part:
                    a = c['a']
                    if c['op'] == 'process':
                        ep.proc(o, a / 8, fl)
                    elif c['op'] == 'alpha':
                        ep.alpha(o, a / 8)
                        if gains:
                            ep.galpha(o, K(ty, 23, 52))
                    elif c['op'] in ('attack', 'release'):
                        # gain 0 is that of a new detector; the model has it again, a user has not
                        n = length_for(a) if a > 0 else 1e-3
                        if c['op'] == 'attack':
                            ep.att(o, n)
                            ep.gatt(o, K(ty, 19, 46) if gains else 0)
                        else:
                            ep.rel(o, n)
                            ep.grel(o, K(ty, 19, 46) if gains else 0)
                    elif c['op'] == 'clear':
                        ep.clear(o)
                        ep.last(o, fl)
    return eps


ENV_STYLES = [s for s in STYLES]


@check('C15')
def c15(r):
    rng = rng_for(r, 'integrator')
    env_model(r)
    eps = env_walks(r, rng, {LEAKY}, scale(r, 0.5, 1.0), gains=True)
    odd = [-1.0, -0.5, -1e-9, -5e-324, -0.0, 0.0, 1e-9, 0.25, 0.5, 0.999, 0.9999999, 1.0, 1.0000001, 1.5, 2.0, 100.0, 1e30,
           NAN, INF, -INF, 1.0 - 2.0 ** -53, 1.0 - 2.0 ** -24, 1.0 + 2.0 ** -52, 1.0 + 2.0 ** -23, 5e-324, 1e-40]
    for ty, prof in everywhere():
        fl = K(ty, 16, 42)
        ep = Ep('leaky integrator<f%d>' % ty, prof)
        for style in STYLES + ('minute', 'huge'):
            for _ in range(scale(r, 4, 20)):
                o = ep.new(LEAKY, ty)
                for _ in range(rng.randint(1, 4)):
                    ep.alpha(o, rng.choice([0.0, 0.5, 0.9, 0.25, 0.75, rng.uniform(0, 0.98), rng.uniform(0, 0.5)]))
                    if rng.random() < 0.5:
                        ep.alpha(o, rng.choice(odd))
                    # continue with the rounded gain
                    ep.galpha(o, K(ty, 23, 52))
                    for x in signal(rng, 14, style):
                        ep.proc(o, x, fl)
                    ep.last(o, fl)
        eps.append(ep)
        ep = Ep('gains refused<f%d>' % ty, prof)
        for a in odd:
            for b in odd:
                if rng.random() > scale(r, 0.5, 1.0):
                    continue
                o = ep.new(LEAKY, ty)
                ep.alpha(o, a)
                ep.galpha(o, K(ty, 23, 52))
                ep.proc(o, 1.0, K(ty, 12, 42))
                ep.alpha(o, b)
                ep.galpha(o, K(ty, 23, 52))
                ep.proc(o, -0.5, K(ty, 12, 42))
                ep.proc(o, 0.25, K(ty, 12, 42))
        eps.append(ep)
        # gains close to the one before
        for _ in range(scale(r, 60, 300)):
            o = ep.new(LEAKY, ty)
            g = rng.choice([0.0, 0.5, 0.25, 0.999, rng.uniform(0, 1), rng.uniform(0.9, 1), 1e-5])
            ep.alpha(o, g)
            ep.galpha(o, K(ty, 23, 52))
            ep.proc(o, 1.0, K(ty, 12, 42))
            for _ in range(2):
                ep.alpha(o, g + rng.choice([-1, 1]) * 2.0 ** -rng.randint(8, 24 if ty == 32 else 53))
                ep.galpha(o, K(ty, 23, 52))
            ep.proc(o, rng.choice([0.0, -1.0]), K(ty, 12, 42))
        ep = Ep('long integration<f%d>' % ty, prof)
        for g in (0.5, 0.875, 0.984375):
            o = ep.new(LEAKY, ty)
            ep.alpha(o, g)
            for m in (50, 700, 4000):
                ep.run(o, m, 1.0, K(ty, 13, 42), cost=m / 6)
                ep.proc(o, -1.0, K(ty, 13, 42))
        eps.append(ep)
        long_lives(r, rng, eps, [LEAKY], ty, prof)
        far_levels(r, rng, eps, LEAKY, ty, prof)
    r.conform(eps)


def far_levels(r, rng, eps, kind, ty, prof):
    ep = Ep('far away levels, %s<f%d>' % (NAMES[kind], ty), prof)
    for _ in range(scale(r, 30, 200)):
        s = Setup(rng, kind, ty)
        o = s.build(ep)
        by, k = level(rng, ty, kind, 14 if ty == 32 else 40)
        ep.units(o, by)
        for x in scaled(signal(rng, 16, rng.choice(LEVEL_STYLES)), by):
            ep.proc(o, x, CMP | k)
        ep.last(o, CMP | k)
        # falling silent, followed down
        if kind != RMSENV and k > 7:
            for _ in range(12):
                ep.proc(o, 0.0, CMP | k)
    eps.append(ep)


def env_sessions(r, rng, kind):
    eps = []
    for ty, prof in everywhere():
        fl = K(ty, 15, 42)
        ep = Ep('%s<f%d>' % (NAMES[kind], ty), prof)
        for style in STYLES + (('minute', 'huge') if kind == PEAKENV else ()):
            for _ in range(scale(r, 5, 25)):
                o = ep.new(kind, ty)
                for _ in range(rng.randint(1, 3)):
                    c = rng.random()
                    if c < 0.8:
                        ep.att(o, rng.choice([0.5, 1.0, 2.0, 10.0, 100.0, rng.uniform(0.1, 50)]))
                        ep.gatt(o)
                    if c < 0.4 or c > 0.6:
                        ep.rel(o, rng.choice([0.5, 1.0, 2.0, 10.0, 100.0, rng.uniform(0.1, 50)]))
                        ep.grel(o)
                    if rng.random() < 0.25:
                        # as fast up as down
                        n = rng.choice([0.5, 1.0, 2.0, 10.0, 100.0, rng.uniform(0.1, 50)])
                        ep.att(o, n)
                        ep.gatt(o)
                        ep.rel(o, n)
                        ep.grel(o)
                    xs = signal(rng, 18, style)
                    if rng.random() < 0.5:
                        xs = xs[:9] + [x * 0.1 for x in xs[9:]]
                    if rng.random() < 0.3:
                        ep.block(o, xs, fl)
                    else:
                        for x in xs:
                            ep.proc(o, x, fl)
                    ep.last(o, fl)
                if rng.random() < 0.3:
                    ep.clear(o)
                    ep.last(o, fl)
                    for x in signal(rng, 5, style):
                        ep.proc(o, x, fl)
        eps.append(ep)
        # attack towards a level and release from it, a long time
        ep = Ep('steps, %s<f%d>' % (NAMES[kind], ty), prof)
        for _ in range(scale(r, 3, 20)):
            o = ep.new(kind, ty)
            ep.att(o, rng.uniform(1, 200))
            ep.gatt(o)
            ep.rel(o, rng.uniform(1, 800))
            ep.grel(o)
            for lev in (1.0, 0.25, -0.5, 2.0, 0.0):
                for _ in range(4):
                    ep.proc(o, lev, K(ty, 13, 42))
                m = rng.choice([20, 200, 1000])
                ep.run(o, m, lev, K(ty, 13, 42), cost=m / 6)
        eps.append(ep)
        long_lives(r, rng, eps, [kind], ty, prof)
        far_levels(r, rng, eps, kind, ty, prof)
        # closely above and below the envelope
        ep = Ep('close by, %s<f%d>' % (NAMES[kind], ty), prof)
        for _ in range(scale(r, 20, 120)):
            o = ep.new(kind, ty)
            lev = rng.choice([1.0, 0.5, 0.3, rng.uniform(0.01, 2)])
            ep.proc(o, lev, fl)
            ep.att(o, rng.choice([1.0, 20.0, 1000.0]))
            ep.gatt(o)
            ep.rel(o, rng.choice([1.0, 20.0, 1000.0]))
            ep.grel(o)
            for _ in range(6):
                ep.proc(o, lev * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(1, 12)), fl)
                if rng.random() < 0.3:
                    ep.proc(o, -lev, fl)
        eps.append(ep)
    return eps


@check('C16')
def c16(r):
    rng = rng_for(r, 'peaks')
    env_model(r, True)
    r.conform(env_walks(r, rng, {PEAKENV}, scale(r, 0.4, 1.0)) + env_sessions(r, rng, PEAKENV))


@check('C17')
def c17(r):
    rng = rng_for(r, 'rms')
    env_model(r)
    r.conform(env_walks(r, rng, {RMSENV}, scale(r, 0.4, 1.0)) + env_sessions(r, rng, RMSENV))


def ends(ty):
    """The ends of the type: the smallest and the largest lengths there are"""
    if ty == 32:
        return [Bits(b) for b in (0x36a0000000000000, 0x3800000000000000, 0x37ffffffc0000000, 0x47efffffe0000000, 0x47efffffc0000000)]
    return [Bits(b) for b in (1, 0x10000000000000, 0xfffffffffffff, 0x7fefffffffffffff, 0x7feffffffffffffe)]


@check('C18')
def c18(r):
    rng = rng_for(r, 'times')
    env_model(r)
    eps = env_walks(r, rng, {PEAKENV, RMSENV}, scale(r, 0.15, 1.0), gains=True)
    bad = [0.0, -0.0, -1.0, -1e-9, -100.0, NAN, INF, -INF, -5e-324, Bits(0xfff8000000000000)]
    for ty, prof in everywhere():
        for kind in (PEAKENV, RMSENV):
            ep = Ep('time constants, %s<f%d>' % (NAMES[kind], ty), prof)
            good = [1.0, 2.0, 0.5, 10.0, 100.0, 882.0, 4410.0, 8820.0, 44100.0, 192000.0, 0.25, 0.1, 3.7, 1e-3, 1e6, 0.999, 1.001]
            for _ in range(scale(r, 60, 600)):
                o = ep.new(kind, ty)
                for _ in range(rng.randint(1, 6)):
                    c = rng.random()
                    n = rng.choice(bad) if rng.random() < 0.3 else \
                        rng.choice(good + [rng.uniform(0.1, 5), math.exp(rng.uniform(-2, 12)), math.exp(rng.uniform(10, 60)),
                                           math.exp(rng.uniform(-60, -5)), 1e-40 if ty == 32 else 1e-310,
                                           rng.choice(ends(ty))])
                    if c < 0.5:
                        ep.att(o, n)
                    else:
                        ep.rel(o, n)
                    # both are looked at: setting one leaves the other
                    fl = K(ty, 18, 46) if isinstance(n, Bits) or 0 < n < 1 else K(ty, 21, 49)
                    ep.gatt(o, fl)
                    ep.grel(o, fl)
                    if rng.random() < 0.3:
                        ep.clear(o)
                        ep.gatt(o, fl)
                        ep.grel(o, fl)
                    if rng.random() < 0.5:
                        ep.proc(o, rng.uniform(-1, 1), K(ty, 14, 42))
                    if rng.random() < 0.3:
                        # whatever is fed
                        for _ in range(rng.randint(1, 3)):
                            ep.proc(o, rng.choice([NAN, INF, -INF, 3e38, -1e300, 1e25, 1e-30, 0.0, -0.0, 1e-310]))
                        if rng.random() < 0.7:
                            ep.clear(o)
                        ep.gatt(o, fl)
                        ep.grel(o, fl)
                        ep.clear(o)
            # lengths close to the one before
            for n in (1.0, 2.0, 10.0, 100.0, 882.0, 4410.0, rng.uniform(0.5, 2000)):
                for ask in (ep.att, ep.rel):
                    for step in (2.0 ** -4, 1e-3, 1e-4, 1e-5, 1e-6, 2.0 ** -22):
                        o = ep.new(kind, ty)
                        ask(o, n)
                        ask(o, n * (1 + rng.choice([-1, 1]) * step))
                        ep.gatt(o, K(ty, 21, 49))
                        ep.grel(o, K(ty, 21, 49))
            for n in ends(ty) + ends(ty)[::-1]:
                for ask in (ep.att, ep.rel):
                    o = ep.new(kind, ty)
                    ep.att(o, 3.0)
                    ep.rel(o, 5.0)
                    ask(o, n)
                    ep.gatt(o, K(ty, 18, 46))
                    ep.grel(o, K(ty, 18, 46))
            # the gain in use is the gain reported
            for n in good:
                for up in (True, False):
                    o = ep.new(kind, ty)
                    if not up:
                        ep.proc(o, 1.0, K(ty, 14, 42))
                    (ep.att if up else ep.rel)(o, n)
                    fl = K(ty, 18, 46)
                    ep.gatt(o, fl)
                    ep.grel(o, fl)
                    for _ in range(3):
                        ep.proc(o, 1.0 if up else 0.0, K(ty, 14, 42))
            eps.append(ep)
    r.conform(eps)


# ---- C19..C22 windows -----------------------------------------------------------------------------------------------------
def window_k(ty):
    return K(ty, 16, 44)


@check('C19')
def c19(r):
    rng = rng_for(r, 'windows')
    r.simulate('mc_shape.qnt', 'mc_shape', 'windowsOk', scale(r, 20, 300), 20)
    eps = []
    for ty, prof in everywhere():
        for kind in WINDOWS:
            ep = Ep('every value of small windows, %s<f%d>' % (NAMES[kind], ty), prof)
            for n in list(range(0, scale(r, 20, 66))) + ([32, 33] if r.tier == 'quick' else [127, 128, 129, 255, 256, 257]):
                o = ep.new(kind, ty, n)
                for _ in range(n + 1):
                    ep.wnext(o, window_k(ty))
            eps.append(ep)
            # every size, here and there
            ep = Ep('every size, %s<f%d>' % (NAMES[kind], ty), prof)
            odd = rng.random() < 0.5
            for n in list(range(34, 1101)) + [1102, 1200, 1323, 1440, 1470, 1536, 1600, 1764, 1920, 2000, 2205, 2400, 2500, 2880, 3000, 3072, 3600,
                                              4000, 4410, 4800, 5000, 5760, 6000, 8000, 8192, 8820, 9600, 11025, 12000, 16000, 20000, 22050, 24000,
                                              32000, 44100, 48000, 50000, 88200, 96000]:
                if r.tier == 'quick' and n < 1101 and n % 2 == odd and ty == 32:
                    continue
                # the end tells the size
                for at in sorted({rng.randrange(n), n - 1 - rng.randrange(2)})[-2 if n % 3 == 0 else -1:]:
                    o = ep.new(kind, ty, n)
                    ep.wnth(o, at, window_k(ty))
            eps.append(ep)
            ep = Ep('values of large windows, %s<f%d>' % (NAMES[kind], ty), prof)
            for n in [64, 100, 256, 441, 512, 1000, 1023, 1024, 1025, 4096, 10001, 65536, 65537, 70001, 131073, 200001,
                      (1 << 20) + 1]:
                for _ in range(scale(r, 2 if n < 100000 else 1, 6)):
                    o = ep.new(kind, ty, n)
                    i = 0
                    stops = sorted({0, 1, n // 4, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n}
                                   | {rng.randrange(n) for _ in range(6)}) if rng.random() < 0.5 else \
                        sorted({rng.randrange(n) for _ in range(12)})
                    for j in stops:
                        ep.wnth(o, j - i, window_k(ty)) if j > i or rng.random() < 0.5 else ep.wnext(o, window_k(ty))
                        i = j + 1
            eps.append(ep)
    r.conform(eps)


@check('C20')
def c20(r):
    rng = rng_for(r, 'iterators')
    ws = walks(r, 'mc_window_quick', drop=('gave', 'given'))
    if r.tier == 'thorough':
        r.tlc('mc_window_full')
    eps = []
    for ty, prof in everywhere():
        for kind in WINDOWS:
            ep = Ep('walks of the iterator model, %s<f%d>' % (NAMES[kind], ty), prof)
            for w in ws:
                if rng.random() > scale(r, 0.25, 1.0):
                    continue
                o = ep.new(kind, ty, w[0]['a'])
                ep.wlen(o, CMP)
                for c in w[1:]:
                    fl = window_k(ty)
                    if c['op'] == 'next':
                        ep.wnext(o, fl if rng.random() < 0.3 else 0)
                    elif c['op'] == 'nth':
                        ep.wnth(o, c['a'], fl if rng.random() < 0.3 else 0)
                    elif c['op'] == 'take':
                        ep.wtake(o, c['a'], CMP)
                    else:
                        ep.wdrain(o, CMP)
                    ep.wlen(o, CMP)
                    ep.whint(o, CMP)
            eps.append(ep)
            ep = Ep('sessions, %s<f%d>' % (NAMES[kind], ty), prof)
            for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 100, 255, 256, 257, 1000, 1024, 65535, 65536, 100000]:
                for _ in range(scale(r, 2, 8)):
                    o = ep.new(kind, ty, n)
                    ep.wlen(o, CMP)
                    ep.whint(o, CMP)
                    for _ in range(14):
                        c = rng.random()
                        if c < 0.35:
                            ep.wnext(o)
                        elif c < 0.6:
                            ep.wnth(o, rng.choice([0, 1, 2, n // 3, n, n + 1, rng.randint(0, n)]), window_k(ty))
                        elif c < 0.75:
                            ep.wtake(o, rng.choice([0, 1, 2, n // 4, rng.randint(0, n)]), CMP)
                        elif c < 0.8:
                            ep.wdrain(o, CMP)
                        else:
                            ep.wzip(o, CMP)
                        ep.wlen(o, CMP)
                        ep.whint(o, CMP)
                    # consumed by value, from wherever it is
                    for how in range(5):
                        p = ep.new(kind, ty, n)
                        k = rng.choice([0, 0, 1, 2, n // 2, n, n + 1, rng.randint(0, n)])
                        if k:
                            ep.wnth(p, k - 1) if rng.random() < 0.5 else ep.wtake(p, k, CMP)
                        if how == 0:
                            ep.wcount(p, CMP)
                        elif how == 1:
                            ep.wlast(p, window_k(ty))
                        elif n <= 64:
                            ep.wcollect(p, window_k(ty) if rng.random() < 0.2 else 0, n / 2, how - 2)
                    # much further than there is
                    for how in range(2):
                        p = ep.new(kind, ty, n)
                        for _ in range(rng.randint(1, 4)):
                            ep.wnext(p)
                        if how:
                            ep.wdrain(p, CMP)
                        ep.wnth(p, rng.choice([(1 << 64) - 1, (1 << 64) - 2, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 64) - rng.randint(1, n + 4)]))
                        ep.wlen(p, CMP)
                        ep.wnext(p)
                        ep.whint(p, CMP)
                    ep.wdrain(o, CMP)
                    ep.wlen(o, CMP)
                    for _ in range(3):
                        ep.wnext(o)
                    ep.wnth(o, 2)
                    ep.wdrain(o, CMP)
                    ep.whint(o, CMP)
            # sizes nobody can walk through
            for n in [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 53) + 1, 1 << 63, (1 << 64) - 1]:
                o = ep.new(kind, ty, n)
                for i in range(3):
                    ep.wlen(o, CMP)
                    ep.whint(o, CMP)
                    ep.wnext(o)
                ep.wtake(o, 5, CMP)
                ep.wnth(o, 3)
                ep.wlen(o, CMP)
                ep.whint(o, CMP)
            eps.append(ep)
    r.conform(eps)


@check('C21')
def c21(r):
    rng = rng_for(r, 'applying')
    r.simulate('mc_shape.qnt', 'mc_shape', 'windowsOk', scale(r, 10, 100), 20)
    eps = []
    for ty, prof in everywhere():
        for kind in WINDOWS + [RECT]:
            ep = Ep('applied, %s<f%d>' % (NAMES[kind], ty), prof)
            fl = K(ty, 22, 50) if kind == RECT else window_k(ty)
            for n in list(range(0, 18)) + [31, 32, 33, 64, 65, 100] + scale(r, [rng.choice([127, 128, 129, 255, 256, 257])],
                                                                            [127, 128, 129, 255, 256, 257, 1000, 1024, 1025]):
                for style in (rng.sample(STYLES + ('minute', 'huge'), scale(r, 1, 4)) + (['ones'] if n < 10 else [])):
                    xs = [1.0] * n if style == 'ones' else ([rng.uniform(-2, 2)] * n if n < 2 else signal(rng, n, style))
                    ep.apply(kind, ty, xs, fl)
            # long slices, at some places
            for n in [255, 256, 257, 441, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 10000, 16384, 44100,
                      65535, 65536, 65537, 65538, 100003, 131072] + scale(r, [], [1 << 20, (1 << 20) + 1]):
                h = n // 2
                at = {0, 1, 2, h - 1, h, h + 1, n - 3, n - 2, n - 1, n // 4, n - n // 4}
                at |= {i + d for i in (64, 128, 256, 512, 1024, 4096, 32768, 65536) for d in (-1, 0) if i + d < n}
                at = sorted(rng.sample(sorted(at), scale(r, min(10, len(at)), len(at))) + [rng.randrange(n) for _ in range(scale(r, 3, 20))])
                ep.apply_long(kind, ty, n, rng.choice([1.0, 0.5, 3.0, 1e-6, 1e6]), at, fl)
            # samples that are not numbers, and far away levels
            for _ in range(scale(r, 8, 50)):
                n = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 21])
                xs = [rng.uniform(-2, 2) for _ in range(n)]
                for _ in range(rng.choice([1, 1, 2, n])):
                    xs[rng.randrange(n)] = rng.choice([NAN, INF, -INF, 0.0, -0.0, NAN])
                ep.apply(kind, ty, xs, fl)
                by = rng.randint(-110, 105) if ty == 32 else rng.randint(-1000, 990)
                xs = scaled([rng.uniform(-2, 2) for _ in range(n)], by)
                ep.apply(kind, ty, xs, K(ty, 14, 40) if kind != RECT else fl)
                # too small to be normal numbers
                xs = scaled([rng.choice([-1, 1]) * rng.uniform(0.5, 2) for _ in range(n)], rng.randint(126, 134) if ty == 32 else rng.randint(1022, 1040))
                ep.apply(kind, ty, xs, K(ty, 10, 28))
                # all levels at once
                xs = [math.ldexp(rng.uniform(-2, 2), rng.randint(-100, 100)) for _ in range(n)]
                ep.apply(kind, ty, xs, K(ty, 14, 40) if kind != RECT else fl)
            eps.append(ep)
    r.conform(eps)


@check('C22')
def c22(r):
    rng = rng_for(r, 'shapes')
    r.simulate('mc_shape.qnt', 'mc_shape', 'windowsOk', scale(r, 60, 1000), 20)
    eps = []
    for ty, prof in everywhere():
        for kind in WINDOWS:
            ep = Ep('shapes, %s<f%d>' % (NAMES[kind], ty), prof)
            sizes = list(range(1, 34)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257] + \
                scale(r, [rng.choice([511, 512, 513]), rng.randint(300, 1025)],
                      [511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 4097])
            for n in sizes:
                o = ep.new(kind, ty, n)
                for _ in range(n):
                    ep.raw(30, FIN, o, cost=0.7)
                k = 16 if ty == 32 else 44
                c = n / 4
                ep.shape(o, 0, k, cost=c)
                ep.shape(o, 1, k, cost=c)
                ep.shape(o, 2, k, cost=c)
                if n % 2 == 1:
                    ep.shape(o, 4, k, cost=2)
                    if n > 2 and kind in (41, 42, 43):
                        ep.shape(o, 3, k, cost=c)
            # large ones: values and their mirror images (seen[] holds just those, and is symmetric)
            for n in rng.sample([1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 10000, 44100, 65535, 65536, 65537, 96000,
                                 100001, 131073, 200001], scale(r, 8, 18)):
                half = sorted({0, 1, 2, n // 4, n // 2 - 1, (n - 1) // 2, rng.randrange(n // 2), rng.randrange(n // 2)})
                at = sorted(set(half) | {n - 1 - i for i in half})
                o = ep.new(kind, ty, n)
                i = 0
                for j in at:
                    ep.raw(33, FIN, o, j - i, cost=0.7)
                    i = j + 1
                k = 15 if ty == 32 else 42
                ep.shape(o, 0, k, cost=5)
                ep.shape(o, 1, k, cost=5)
                ep.shape(o, 2, k, cost=5)
                if n % 2 == 1:
                    ep.shape(o, 4, k, cost=2)
                    if kind in (41, 42, 43):
                        # seen[]: some values, those half a window later, and one more
                        h = (n - 1) // 2
                        at = sorted({0, 1, 2, h // 3, h // 2, h - 1} | {rng.randrange(h) for _ in range(3)})
                        o = ep.new(kind, ty, n)
                        i = 0
                        for j in at + [j + h for j in at] + [n - 1]:
                            ep.raw(33, FIN, o, j - i, cost=0.7)
                            i = j + 1
                        ep.shape(o, 3, k, cost=5)
            eps.append(ep)
    r.conform(eps)


# ---- C23, C24 levels ------------------------------------------------------------------------------------------------------------
def samples_for_db(rng, n):
    out = [1.0, 0.5, 2.0, 0.1, 0.01, 1e-3, 1e-5, 1.1e-6, 1e-7, 1e-12, 0.0, 1e-30, 1e-40, 5e-324, 10.0, 1e6, 1e20, 1e37,
           1.01e-6, 0.99e-6, 0.9999e-6, 1.0001e-6]
    out += [math.exp(rng.uniform(math.log(1.2e-6), math.log(1e3))) for _ in range(n)]
    out += [math.exp(rng.uniform(math.log(1e-30), math.log(0.9e-6))) for _ in range(n // 4)]
    out += [rng.uniform(0, 1) for _ in range(n)]
    out += [1.0 + rng.uniform(-1, 1) * 2.0 ** -rng.randint(1, 20) for _ in range(n)]
    out += [1e-6 * (1.0 + rng.uniform(0, 1) * 2.0 ** -rng.randint(1, 16)) for _ in range(n // 4)]
    out += [rng.randint(0, 32768) / 32768 for _ in range(n // 2)]
    return out


@check('C23')
def c23(r):
    rng = rng_for(r, 'levels')
    r.simulate('mc_shape.qnt', 'mc_shape', 'levelsOk', scale(r, 20, 400), 20)
    eps = []
    for ty, prof in everywhere():
        ep = Ep('to_db<f%d>' % ty, prof)
        for x in samples_for_db(rng, scale(r, 200, 2000)) + [INF, NAN]:
            ep.free(40, ty, x, 0, K(ty, 20, 48))
        eps.append(ep)
        ep = Ep('to_sample<f%d>' % ty, prof)
        dbs = [0.0, -0.0, 6.0, -6.0, 20.0, 40.0, -20.0, -119.0, -119.9, -119.999, -120.0, -120.001, -121.0, -200.0, -1e6, -1e30,
               -3e38, INF, -INF, NAN, 3.0, -3.0, 120.0, 200.0, 600.0 if ty == 32 else 3000.0, 1e-9, -1e-9]
        dbs += [rng.uniform(-119, 60) for _ in range(scale(r, 300, 3000))]
        dbs += [float(rng.randint(-140, 100)) for _ in range(scale(r, 100, 300))]
        dbs += [rng.uniform(-1e4, -120.01) for _ in range(20)]
        for d in dbs:
            ep.free(41, ty, d, 0, K(ty, 14, 43))
        eps.append(ep)
        ep = Ep('apply_gain and constants<f%d>' % ty, prof)
        gains = [0.0, 1.0, 0.5, 2.0, 1e-3, 1e3, 1e-9, 1e9]
        for _ in range(scale(r, 200, 1500)):
            x = rng.choice([0.0, 1.0, -1.0, -0.5, rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 1e-9])
            g = rng.choice(gains + [rng.uniform(0, 1), rng.uniform(0, 4), math.exp(rng.uniform(-10, 10))])
            ep.free(42, ty, x, g, K(ty, 21, 50))
        # samples and gains of any size whose product is of ordinary size, subnormal samples too
        for _ in range(scale(r, 200, 1500)):
            top = 120 if ty == 32 else 1000
            low = rng.choice([-120, -148]) if ty == 32 else rng.choice([-1000, -1073])
            ex = rng.randint(low, top)
            eg = rng.randint(max(-top, -top - ex), min(top, top - ex))
            ep.free(42, ty, rng.choice([-1, 1]) * math.ldexp(rng.choice([1.0, rng.uniform(1, 2)]), ex),
                    math.ldexp(rng.choice([1.0, rng.uniform(1, 2)]), eg), K(ty, 21, 50))
        for c in (0, 1):
            ep.free(43, ty, c, 0, K(ty, 22, 50))
        eps.append(ep)
    r.conform(eps)


@check('C24')
def c24(r):
    rng = rng_for(r, 'round trips')
    r.simulate('mc_shape.qnt', 'mc_shape', 'levelsOk', scale(r, 60, 1000), 20)
    eps = []
    for ty, prof in everywhere():
        ep = Ep('there and back<f%d>' % ty, prof)
        for _ in range(scale(r, 500, 4000)):
            d = rng.choice([rng.uniform(-119.5, 60), rng.uniform(-119.5, 0), float(rng.randint(-119, 60)), rng.uniform(-400, -120.5),
                            -120.0, rng.choice([-1, 1]) * 2.0 ** -rng.uniform(-5, 20), rng.uniform(-119.99, -119),
                            rng.uniform(60, 700 if ty == 32 else 4000)])
            ep.free(44, ty, d, 0, K(ty, 20, 46))
            x = rng.choice([rng.uniform(0, 1), math.exp(rng.uniform(math.log(1.1e-6), math.log(1e3))),
                            1 + rng.choice([-1, 1]) * 2.0 ** -rng.uniform(1, 20), math.exp(rng.uniform(0, 80)),
                            math.exp(rng.uniform(math.log(1e-20), math.log(0.9e-6))), 0.0])
            if not 0.99e-6 < x < 1.01e-6:
                ep.free(45, ty, x, 0, K(ty, 15, 44))
        eps.append(ep)
        k = 21 if ty == 32 else 49
        ep = Ep('order<f%d>' % ty, prof)
        xs = sorted(abs(f32(x)) for x in samples_for_db(rng, scale(r, 250, 2500)))
        for i, x in enumerate(xs):
            ep.free(40, ty, x, 0, (MONO if i else 0) | k)
        ds = sorted([f32(rng.uniform(-140, 60)) for _ in range(scale(r, 500, 4000))] + [-120.0, -119.9999, -120.0001] +
                    [f32(rng.choice([-1, 1]) * 2.0 ** -rng.uniform(-4, 22)) for _ in range(scale(r, 200, 1000))] +
                    [f32(-120 + 2.0 ** -rng.uniform(0, 15)) for _ in range(scale(r, 50, 200))])
        for i, d in enumerate(ds):
            ep.free(41, ty, d, 0, (MONO if i else 0) | k)
        eps.append(ep)
    r.conform(eps)


# ---- C25 totality ------------------------------------------------------------------------------------------------------------
@check('C25')
def c25(r):
    rng = rng_for(r, 'extremes')
    delay_model(r)
    env_model(r)
    wild = SPECIALS + [1e300, -1e300, 1e38, 1e-300, 1.0, -1.0, 0.5]
    eps = []
    for ty, prof in everywhere():
        for kind in PROCESSORS:
            # whatever is fed and set: no panic
            ep = Ep('anything at all, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(scale(r, 40 if kind in (DELAY, LINEAR) else 6, 80)):
                cap = rng.choice([0, 0, 1, 2, 7, 64])
                if kind == DELAY:
                    o = ep.new(kind, ty, rng.choice([0, 1, cap, cap + 1, 2 ** 40, 2 ** 64 - 1]), cap)
                elif kind == LINEAR:
                    o = ep.new(kind, ty, rng.choice([0.0, cap / 2, float(cap), cap + 1.5, 1e30, INF, -INF, -3.0, -0.0, 1e-45]), cap)
                else:
                    o = ep.new(kind, ty)
                for _ in range(rng.choice([14, 14, 40]) if kind in (DELAY, LINEAR) else 14):
                    c = rng.random()
                    w = lambda: rng.choice(wild)
                    if c < 0.4:
                        ep.proc(o, w())
                    elif c < 0.5:
                        ep.block(o, [w() for _ in range(rng.choice([0, 0, 1, 2, 3, cap, cap + 1, 70]))])
                    elif c < 0.55:
                        ep.clear(o)
                    elif c < 0.6:
                        ep.last(o)
                    elif kind in (DELAY, LINEAR):
                        d = rng.random()
                        t = rng.randint(0, cap)
                        if d < 0.3:
                            if kind == DELAY:
                                ep.setd(o, rng.choice([0, 1, cap, cap + 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]))
                            else:
                                ep.setd(o, rng.choice([0.0, cap / 3, float(cap), 1e9, 1e38, INF, -INF, -1.0, 1e-45, cap + 0.5]))
                        elif d < 0.45:
                            m = rng.choice([0, cap, cap + 1, 100])
                            cap = max(cap, m)
                            ep.setm(o, m)
                        elif d < 0.6:
                            ep.tapo(o, t)
                        elif d < 0.7:
                            ep.tapi(o, t, w())
                        elif d < 0.8:
                            ep.addto(o, t, w())
                        elif d < 0.9:
                            ep.nexto(o)
                        else:
                            ep.getd(o)
                            ep.getm(o)
                    elif kind in BASIC:
                        if rng.random() < 0.6:
                            ep.coef(o, *[rng.choice([0.0, 1.0, -1.0, 1e30, -2.0, 1e-30]) for _ in range(5)])
                        else:
                            ep.field(o, rng.choice(fields_of(kind)), rng.choice([0.0, 1.0, -1.0, 1e30]))
                    elif kind in RBJ:
                        ep.rset(o, *params(rng, kind, ty, True))
                    elif kind == LEAKY:
                        ep.alpha(o, w())
                        ep.galpha(o)
                    else:
                        rng.choice([ep.att, ep.rel])(o, w())
            eps.append(ep)
            # ordinary signals: finite, for as long as it runs
            ep = Ep('ordinary signals, %s<f%d>' % (NAMES[kind], ty), prof)
            for _ in range(scale(r, 3, 15)):
                s = Setup(rng, kind, ty)
                if kind in BASIC:
                    s.calls = [('coef',) + coefs(rng, kind, False)]
                o = s.build(ep)
                for x in signal(rng, 40):
                    ep.proc(o, x, FIN)
                m = rng.choice([200, 2000])
                ep.run(o, m, rng.uniform(-1, 1), FIN, cost=m / 6)
                ep.run(o, 1500, 0.0, FIN, cost=200)
                for x in signal(rng, 5):
                    ep.proc(o, x, FIN)
                ep.last(o, FIN)
                ep.clear(o)
                ep.last(o, FIN)
                ep.block(o, signal(rng, 10), FIN)
            eps.append(ep)
        long_lives(r, rng, eps, PROCESSORS, ty, prof, FIN)
        # very long lines
        ep = Ep('long lines, f%d' % ty, prof)
        for kind in (DELAY, LINEAR):
            for cap, n in ((70000, 65600), (66000, 69000), (1 << 17, 1 << 17)):
                o = ep.new(kind, ty, rng.choice([0, 5, cap, cap - 1, cap + 1]), cap)
                ep.run(o, n, 0.5, FIN, cost=300)
                for d in [3, cap, 65535, 65536, cap - 1, 0, 40000]:
                    ep.setd(o, d)
                    ep.nexto(o, FIN)
                    for i in range(3):
                        ep.proc(o, 1.0 + i, FIN)
                ep.tapo(o, cap, FIN)
                ep.tapi(o, cap, 2.0)
                ep.addto(o, 65536, 1.0)
                ep.setm(o, cap + rng.choice([1, 1000]))
                ep.proc(o, 1.0, FIN)
                ep.run(o, cap, 0.25, FIN, cost=300)
                ep.clear(o)
                ep.proc(o, 1.0, FIN)
        eps.append(ep)
        ep = Ep('windows and levels, f%d' % ty, prof)
        for kind in WINDOWS:
            for n in (0, 1, 2, 3, 4, 5, 1000, 1 << 20, 1 << 32, 1 << 40, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1):
                o = ep.new(kind, ty, n)
                ep.wlen(o, CMP)
                ep.whint(o, CMP)
                for _ in range(4):
                    ep.wnext(o, FIN)
                ep.wlen(o, CMP)
                ep.whint(o, CMP)
                if n <= 1000:
                    ep.wtake(o, n, CMP)
                    ep.wdrain(o, CMP)
                    ep.wnth(o, 10 ** 6, FIN)
                    ep.wnext(o, FIN)
        for kind in WINDOWS + [RECT]:
            for n in (0, 1, 2, 3, 5, 64):
                ep.apply(kind, ty, [rng.uniform(-1, 1) for _ in range(n)], FIN)
                ep.apply(kind, ty, [rng.choice(wild) for _ in range(n)])
        for x in [0.0, 1.0, 1e-45, 5e-324, 1e-300, 1e300, 1e38, 3e38, INF, NAN, 1e-6, 1e-7]:
            ep.free(40, ty, x, 0, FIN)
        for x in [0.0, -120.0, -1e300, 60.0, INF, -INF, NAN, 700.0, -1e-300, -3e38]:
            ep.free(41, ty, x, 0, FIN)
        eps.append(ep)
    r.conform(eps)


# ---- C26 precisions agree ------------------------------------------------------------------------------------------------------
@check('C26')
def c26(r):
    rng = rng_for(r, 'precisions')
    filter_model(r)
    env_model(r)
    eps = []
    for prof in PROFILES:
        for kind in PROCESSORS:
            ep = Ep('single and double, %s' % NAMES[kind], prof)
            for _ in range(scale(r, 10, 60)):
                s = Setup(rng, kind, 32)
                calls = []
                for c in s.calls:
                    calls.append(tuple([c[0]] + [f32(v) for v in c[1:]]))
                s.calls = calls
                objs = []
                for ty in TYPES:
                    s.ty = ty
                    o = ep.new(s.kind, ty, s.a0, s.a1)
                    objs.append(o)
                    if kind in (PEAKENV, RMSENV):
                        # the gains, each to its own precision
                        for (set_, get) in ((ep.att, ep.gatt), (ep.rel, ep.grel)):
                            set_(o, s.calls[0 if set_ == ep.att else 2][1])
                            get(o, K(ty, 18, 46))
                    else:
                        s.apply(ep, o)
                    settings(ep, s, o)
                a, b = objs
                fl = tol(kind, 32)
                k = {LINEAR: 19, PEAKENV: 14, RMSENV: 7, LEAKY: 15}.get(kind, fl & 255)
                by = 0
                if rng.random() < 0.4:
                    by = rng.choice([-1, 1, -1]) * rng.randint(8, 45 if kind == RMSENV else 100)
                    if kind != DELAY:
                        ep.units(a, by)
                        ep.units(b, by)
                for x in scaled(signal(rng, 24, rng.choice(['uniform', 'dyadic', 'impulse', 'step', 'sparse', 'alternating', 'sine'])), by):
                    x = f32(x)
                    ep.proc(a, x, fl)
                    ep.proc(b, x, tol(kind, 64))
                    ep.eq(a, b, k)
            eps.append(ep)
        ep = Ep('windows in both precisions', prof)
        for kind in WINDOWS:
            for n in (0, 1, 2, 5, 16, 33):
                for ty in TYPES:
                    o = ep.new(kind, ty, n)
                    for _ in range(n + 1):
                        ep.wnext(o, window_k(ty))
            for n in (64, 101, 255, 256, 480, 1000, 1024, 4097, 5001, 9999, 44100, 70001):
                for ty in TYPES:
                    o = ep.new(kind, ty, n)
                    for _ in range(3):
                        ep.wnext(o, window_k(ty))
                        ep.wnth(o, n // 5, window_k(ty))
        for kind in (DELAY, LINEAR):
            for cap in (1, 3, 8):
                for lev in (1.0, 2.0 ** -9, 2.0 ** 12, 2.0 ** -20):
                    d = rng.randint(0, 8 * cap) / 8 if kind == LINEAR else rng.randint(0, cap)
                    objs = [ep.new(kind, ty, d, cap) for ty in TYPES]
                    for _ in range(12):
                        c, t, x = rng.random(), rng.randint(0, cap), f32(rng.uniform(0.1, 1) * lev)
                        m, d = rng.randint(0, cap), rng.randint(0, 8 * cap) / 8 if kind == LINEAR else rng.randint(0, cap)
                        for o, ty in zip(objs, TYPES):
                            fl = tol(kind, ty)
                            if c < 0.2:
                                ep.tapi(o, t, x)
                            elif c < 0.4:
                                ep.addto(o, t, x, K(ty, 20, 48))
                            elif c < 0.5:
                                ep.setd(o, d)
                                ep.getd(o, CMP | 40)
                            elif c < 0.6:
                                ep.nexto(o, fl)
                            ep.tapo(o, t, K(ty, 20, 48))
                            ep.proc(o, x, fl)
                        ep.eq(objs[0], objs[1], 18)
        for ty in TYPES:
            for _ in range(100):
                ep.free(40, ty, f32(rng.uniform(1e-5, 2)), 0, K(ty, 20, 48))
                ep.free(41, ty, f32(rng.uniform(-110, 20)), 0, K(ty, 15, 44))
        eps.append(ep)
    r.conform(eps)


# ---- C27 independence ----------------------------------------------------------------------------------------------------------
def stable(s):
    """fit for long signals"""
    if s.kind in BASIC:
        s.calls = [('coef', 0.5, 0.25, 0.125, -0.5, 0.25)]


def related(rng, ss):
    """settings of a kind that have most in common: each differs from the first in one of them"""
    for s in ss[1:]:
        s.a0, s.a1 = ss[0].a0, ss[0].a1
        s.calls = [tuple(c) for c in ss[0].calls]
        if s.kind == DELAY:
            s.a0, s.a1 = rng.choice([(s.a0, s.a1), (rng.randint(0, s.a1), s.a1), (s.a0, s.a1 + rng.randint(1, 3))])
        elif s.kind == LINEAR:
            s.a0, s.a1 = rng.choice([(s.a0, s.a1), (rng.randint(0, 8 * s.a1) / 8, s.a1), (s.a0, s.a1 + rng.randint(1, 3))])
        elif s.calls:
            # gains are read back after they are set: vary the settings only
            at = [i for i, c in enumerate(s.calls) if len(c) > 1]
            i = rng.choice(at)
            c = list(s.calls[i])
            j = rng.randrange(1, len(c))
            if rng.random() < 0.4:
                # as good as the same, but not the same
                c[j] = c[j] * (1 + 2.0 ** -(rng.randint(12, 16) if s.ty == 32 else rng.randint(20, 29)))
            elif s.kind in RBJ:
                c[j] = f32({1: c[j] * 2, 2: c[j] * 0.75, 3: -c[j] + 1, 4: c[j] * 0.75}[j])
            elif s.kind == LEAKY:
                c[j] = c[j] / 2
            else:
                c[j] = c[j] * 0.75
            s.calls[i] = tuple(c)
    rng.shuffle(ss)


@check('C27')
def c27(r):
    rng = rng_for(r, 'company')
    ws = walks(r, 'mc_proc_quick')
    if r.tier == 'thorough':
        r.tlc('mc_proc_full')
    eps = []
    used = {}
    for ty, prof in everywhere():
        sp = Split(eps, 'walks of the model of two, f%d' % ty, prof)
        for w in ws:
            if rng.random() > scale(r, 0.07, 1.0):
                continue
            e = K(ty, 22, 50)
            ep = sp.begin()
            o = {}
            for i in (1, 2):
                o[i] = ep.new(TWOZERO, ty)
                ep.coef(o[i], 1, 2, 4, 0, 0)
            for c in w[1:]:
                i = o[c['obj']]
                if c['op'] == 'process':
                    ep.proc(i, float(c['xs'][0]), e)
                elif c['op'] == 'block':
                    ep.block(i, [float(x) for x in c['xs']], e)
                else:
                    ep.clear(i)
                ep.last(o[1], e)
                ep.last(o[2], e)
        # several of the same kind, and of all kinds, in turns; one each has the stage to itself first
        # every kind with either sample type, in one of the builds at least
        mine = PROCESSORS if r.tier == 'thorough' else rng.sample(PROCESSORS, 10) if prof == 'dev' else [k for k in PROCESSORS if k not in used[ty]]
        used[ty] = mine
        groups = [[k] * 4 for k in mine] + [rng.sample(PROCESSORS, 8) for _ in range(scale(r, 3, 30))]
        for g in groups:
            ep = Ep('in turns: %s, f%d' % (', '.join(sorted({NAMES[k] for k in g})), ty), prof)
            for _ in range(scale(r, 2, 6)):
                ss = [Setup(rng, k, ty) for k in g]
                if len(set(g)) == 1:
                    related(rng, ss)
                solo = []
                # a quiet one among the others is no different
                bys = [rng.choice([0, 0, 20, 40]) if k != DELAY else 0 for k in g]
                logs = [scaled(signal(rng, 10, rng.choice(['uniform', 'dyadic', 'step'])), by) for by in bys]
                moving = rng.random() < 0.5
                for s, xs, by in zip(ss, logs, bys):
                    o = s.build(ep)
                    if by:
                        ep.units(o, by)
                    for x in xs:
                        ep.proc(o, x, tol(s.kind, ty))
                    solo.append(o)
                objs = [s.build(ep) for s in ss]
                for o, by in zip(objs, bys):
                    if by:
                        ep.units(o, by)
                left = [list(l) for l in logs]
                noise = rng.choice(PROCESSORS)
                while any(left):
                    i = rng.choice([j for j, l in enumerate(left) if l])
                    x = left[i].pop(0)
                    if rng.random() < 0.3:
                        ep.block(objs[i], [x], tol(ss[i].kind, ty))
                    else:
                        ep.proc(objs[i], x, tol(ss[i].kind, ty))
                    if moving and rng.random() < 0.15:
                        ep.thread(rng.randint(0, 3))
                    if rng.random() < 0.05:
                        # a neighbour has a lot to do
                        j = rng.choice(PROCESSORS)
                        o = Setup(rng, j, ty).build(ep)
                        ep.run(o, rng.choice([64, 1025, 4097]), 0.3, 0, block=True, cost=200)
                    if rng.random() < 0.15:
                        # somebody else comes and goes
                        s = Setup(rng, noise, ty)
                        o = s.build(ep)
                        misuse(rng, ep, o, s, 2)
                        if rng.random() < 0.5:
                            ep.clear(o)
                        ep.drop(o)
                    if rng.random() < 0.1 and ss[i].kind in BASIC:
                        ep.coef(ep.new(ss[i].kind, ty), 3.0, 2.0, 1.0, 0.5, 0.25)
                for a, b, s in zip(solo, objs, ss):
                    ep.last(b, tol(s.kind, ty))
                    ep.eq(a, b, tol(s.kind, ty) & 255)
                    settings(ep, s, b)
                ep.thread(0)
                # some leave, new ones take their place
                for a, s in zip(solo, ss):
                    misuse(rng, ep, a, s, 3)
                    ep.drop(a)
                    if rng.random() < 0.5:
                        o = s.build(ep)
                        ep.last(o, tol(s.kind, ty))
                        for x in signal(rng, 4, 'dyadic'):
                            ep.proc(o, x, tol(s.kind, ty))
                        settings(ep, s, o)
                        ep.drop(o)
                # a neighbour with very long blocks, then blocks of all sizes
                for i, s in enumerate(ss):
                    stable(s)
                    ep.drop(objs[i])
                    objs[i] = s.build(ep)
                    for x in signal(rng, 5, 'uniform'):
                        ep.proc(objs[i], x, tol(s.kind, ty))
                o = Setup(rng, rng.choice(PROCESSORS), ty).build(ep)
                ep.run(o, rng.choice([1025, 4097, 70000]), 0.3, 0, block=True, cost=300)
                for b, s in zip(objs, ss):
                    n = rng.choice([1, 2, 7, 33, 64, 65, 100, 129, 200])
                    xs = signal(rng, n, 'uniform') if n > 1 else [0.5]
                    if n <= 33:
                        misc = Setup(rng, s.kind, 96 - ty)
                        misc.build(ep)
                    ep.block(b, xs, tol(s.kind, ty))
                    ep.last(b, tol(s.kind, ty))
            eps.append(ep)
        # lines that grow, each to a length of its own, the lengths close together
        for k in (DELAY, LINEAR):
            ep = Ep('growing side by side, %s<f%d>' % (NAMES[k], ty), prof)
            for _ in range(scale(r, 4, 30)):
                m = rng.randint(2, 20)
                os = [ep.new(k, ty, m if k == DELAY else float(m), m) for _ in range(4)]
                for _ in range(3):
                    top = m + rng.choice([4, 11, 12, 27, 28, 60])
                    to = [top + d for d in (0, -1, 1, -2)]
                    rng.shuffle(to)
                    for o, t in zip(os, to):
                        ep.setm(o, t)
                        ep.setd(o, t if k == DELAY else float(t))
                        ep.proc(o, 0.5)
                    for o, t in zip(os, to):
                        ep.getm(o, CMP | 30)
                        ep.setd(o, (t + 1) if k == DELAY else float(t + 1))
                        ep.getd(o, K(ty, 20, 30))
                    for x in signal(rng, 4, 'dyadic'):
                        for o in os:
                            ep.proc(o, x, tol(k, ty))
                    m = top + 1
            eps.append(ep)
        # others of the kind come and go between any two calls
        for k in mine:
            ep = Ep('comings and goings, %s<f%d>' % (NAMES[k], ty), prof)
            for _ in range(scale(r, 2, 12)):
                s = Setup(rng, k, ty)
                stable(s)
                o = s.build(ep)
                for i in range(12):
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        b = Setup(rng, k, ty).build(ep)
                        ep.proc(b, 0.75)
                        if rng.random() < 0.3:
                            ep.clear(b)
                        ep.drop(b)
                    if i % 3 == 0:
                        ep.clear(o)
                    elif i % 3 == 1:
                        s.apply(ep, o)
                    settings(ep, s, o)
                    for x in signal(rng, 3, 'dyadic'):
                        ep.proc(o, x, tol(k, ty))
                    ep.last(o, tol(k, ty))
            eps.append(ep)
        # the hundredth of a kind is like the first
        for k in mine:
            ep = Ep('many %s, f%d' % (NAMES[k], ty), prof)
            s = Setup(rng, k, ty)
            stable(s)
            n = rng.choice([130, 260, 300]) if r.tier == 'quick' else 1100
            for i in range(n):
                o = s.build(ep)
                if i % 16 == 0 or i in (1, 127, 129, 255, 257) or i > n - 8:
                    settings(ep, s, o)
                    ep.last(o, tol(k, ty))
                    for x in signal(rng, 5 + s.a1, 'dyadic'):
                        ep.proc(o, x, tol(k, ty))
                elif i % 3 == 0:
                    ep.proc(o, 0.5)
                if i % 5 == 0:
                    ep.drop(o)
            eps.append(ep)
        # really at the same time: each on a thread of its own, all of a kind or mixed
        for g in [[k] * 5 for k in (mine if prof == 'release' else rng.sample(PROCESSORS, scale(r, 3, len(PROCESSORS))))] + [
                rng.sample(PROCESSORS, 6) for _ in range(scale(r, 2, 12))]:
            ep = Ep('at the same time: %s, f%d' % (', '.join(sorted({NAMES[k] for k in g})), ty), prof)
            ss = [Setup(rng, k, ty) for k in g]
            if len(set(g)) == 1:
                related(rng, ss)
            parts = []
            for s in ss:
                q = Ep('part', prof)
                stable(s)
                for _ in range(scale(r, 2, 10)):
                    o = s.build(q)
                    for n in (3, 20):
                        for x in signal(rng, n, 'uniform'):
                            q.proc(o, x, tol(s.kind, ty))
                        q.block(o, signal(rng, n, 'uniform'), tol(s.kind, ty))
                        q.last(o, tol(s.kind, ty))
                    settings(q, s, o)
                    q.run(o, 3000, 0.5, tol(s.kind, ty), block=True, cost=150)
                    q.drop(o)
                parts.append(q)
            ep.together(parts)
            eps.append(ep)
    r.conform(eps)


# ---- C28 level and time ---------------------------------------------------------------------------------------
def power(rng, ty, kind):
    """a power of two to scale samples by, with room to the ends of the type"""
    half = 2 if kind == RMSENV else 1
    lo, hi = (-90, 100) if ty == 32 else (-900, 950)
    return rng.choice([rng.randint(-30 // half, 30 // half), rng.randint(lo // half, hi // half), rng.choice([-1, 1, 3, 10]),
                       rng.randint(-70 // half, -10)]) or 1


@check('C28')
def c28(r):
    rng = rng_for(r, 'levels and times')
    r.tlc('mc_proc' + scale(r, '_quick', '_full'))
    for m in scale(r, ('down',), ('down', 'double')):
        for init in ('init', 'anyScaled'):
            r.apalache('mc_scale_ind.qnt', 'mc_scale_ind_' + m, 'scaled', init=init, steps=1)
    eps = []
    for ty, prof in everywhere():
        for kind in PROCESSORS:
            ep = Ep('scaled and late, %s<f%d>' % (NAMES[kind], ty), prof)
            k = 20 if ty == 32 else 48
            for j in range(scale(r, 7, 50)):
                s = Setup(rng, kind, ty, gentle=rng.random() < 0.5)
                if j == 0:
                    s.calls = []
                style = rng.choice(('uniform', 'dyadic', 'impulse', 'step', 'alternating', 'sine', 'sparse', 'decay', 'tiny'))
                if kind == RMSENV and style == 'tiny':
                    style = 'uniform'
                a = s.build(ep)
                # others fed the same: louder, quieter, upside down
                others = []
                for _ in range(2):
                    e, neg = power(rng, ty, kind), rng.random() < 0.4
                    if style == 'tiny' and ty == 32:
                        e = max(e, -48)     # stay clear of the subnormal numbers
                    o = s.build(ep)
                    if kind != DELAY:
                        ep.units(o, -e)
                    others.append((o, e, neg))
                # and one that has waited
                late = s.build(ep)
                n = rng.choice([1, 2, 3, 10, 40, 130]) if rng.random() < 0.8 else rng.choice([1000, 4096, 70000, 1 << 20])
                if n < 200:
                    for i in range(n):
                        ep.proc(late, rng.choice([0.0, 0.0, -0.0]), CMP | 60)
                else:
                    ep.run(late, n, 0.0, CMP | 60, block=rng.random() < 0.5, cost=80)
                ep.last(late, CMP | 60)

                def fed(xs, how):
                    for o, e, neg in others + [(a, 0, False), (late, 0, False)]:
                        ys = [math.ldexp(-x if neg else x, e) for x in xs]
                        if how:
                            ep.block(o, ys)
                        else:
                            ep.proc(o, ys[0])
                    for o, e, neg in others:
                        ep.scaled(a, o, k, e if kind == DELAY else 0, neg and kind not in (PEAKENV, RMSENV))
                    ep.eq(a, late, k)

                xs = signal(rng, 24, style)
                if rng.random() < 0.3:
                    xs[12:18] = [0.0] * 6
                i = 0
                while i < len(xs):
                    m = rng.choice([1, 1, 1, 1, 4])
                    fed([f32(x) for x in xs[i:i + m]], m > 1)
                    i += m
                    if rng.random() < 0.1:
                        # a change of settings is the same for all
                        t = Setup(rng, kind, ty, cap=s.a1)
                        cs = [('setd', t.a0)] if kind in (DELAY, LINEAR) else t.calls
                        for o in [a, late] + [o[0] for o in others]:
                            for c in cs:
                                getattr(ep, c[0])(o, *c[1:])
                if j % 3 == 0:
                    # for long
                    for o, e, neg in others + [(a, 0, False), (late, 0, False)]:
                        ep.clear(o)
                        stable(s)
                        s.apply(ep, o)
                        ep.run(o, 3000, math.ldexp(-0.5 if neg else 0.5, e), cost=100, block=True)
                    fed([0.25], False)
            eps.append(ep)
    r.conform(eps)


# ---- C29 what is not a number -----------------------------------------------------------------------------------
def bad_sample(rng, ty):
    return rng.choice([NAN, INF, -INF, Bits(0xfff8000000000000), Bits(0x7ff8000000000001)])


@check('C29')
def c29(r):
    rng = rng_for(r, 'not a number')
    delay_model(r)
    r.tlc('mc_proc' + scale(r, '_quick', '_full'))
    eps = []
    for ty, prof in everywhere():
        for kind in PROCESSORS:
            ep = Ep('not a number, %s<f%d>' % (NAMES[kind], ty), prof)
            fl = tol(kind, ty)
            for j in range(scale(r, 14, 80)):
                s = Setup(rng, kind, ty)
                o = s.build(ep)
                line = kind in (DELAY, LINEAR)
                bad = 0
                for i in range(rng.choice([6, 12, 20]) + 2 * s.a1):
                    x = rng.randint(-99, 99) / 16
                    if rng.random() < 0.15:
                        x = bad_sample(rng, ty)
                        bad = i + 1
                    c = rng.random()
                    if c < 0.7:
                        ep.proc(o, x, fl)
                    else:
                        xs = [x] + [rng.randint(-99, 99) / 16 for _ in range(rng.randint(0, 3))]
                        if rng.random() < 0.5:
                            xs.reverse()
                        ep.block(o, xs, fl)
                    ep.last(o, fl)
                    if line and rng.random() < 0.2:
                        t = rng.randint(0, s.a1)
                        rng.choice([lambda: ep.tapo(o, t, fl), lambda: ep.nexto(o, fl), lambda: ep.nexto(o, fl),
                                    lambda: ep.tapi(o, t, bad_sample(rng, ty)), lambda: ep.tapi(o, t, 2.5),
                                    lambda: ep.addto(o, t, 1.0, fl)])()
                    if rng.random() < 0.05:
                        settings(ep, s, o)
                if not bad:
                    ep.proc(o, bad_sample(rng, ty))
                if j % 3 == 2:
                    settings(ep, s, o)
                # what has no feedback gets over it; the others are cleared or retuned
                if kind in RBJ and j % 2:
                    s.apply(ep, o)
                elif not (line or kind in (ONEZERO, TWOZERO)) or j % 4 == 3:
                    if j % 5 == 4:
                        ep.block(o, [])
                    ep.clear(o)
                else:
                    for _ in range(s.a1 + 3):
                        ep.proc(o, rng.randint(-99, 99) / 16, fl)
                ep.last(o, fl)
                settings(ep, s, o)
                if line:
                    for t in range(s.a1 + 1):
                        ep.tapo(o, t, fl)
                    ep.nexto(o, fl)
                for i in range(6 + s.a1):
                    ep.proc(o, rng.randint(-99, 99) / 16, fl)
                ep.last(o, fl)
            eps.append(ep)
        # nor do settings that are not numbers stay
        ep = Ep('settings that are not numbers, f%d' % ty, prof)
        for kind in ENVS:
            for _ in range(scale(r, 4, 30)):
                s = Setup(rng, kind, ty)
                o = s.build(ep)
                for i in range(12):
                    ep.proc(o, rng.randint(-99, 99) / 16, tol(kind, ty))
                    b = rng.choice([NAN, INF, -INF])
                    if kind == LEAKY:
                        ep.alpha(o, b)
                    else:
                        rng.choice([ep.att, ep.rel])(o, b)
                    settings(ep, s, o)
        for kind in (LINEAR,):
            for _ in range(scale(r, 4, 30)):
                s = Setup(rng, kind, ty)
                o = s.build(ep)
                for i in range(12):
                    ep.proc(o, rng.randint(-99, 99) / 16, tol(kind, ty))
                    if i % 4 == 3:
                        ep.setd(o, rng.choice([INF, -INF]))
                        ep.getd(o, tol(kind, ty))
        eps.append(ep)
    r.conform(eps)
