"""Workloads: episodes of API calls, drawn from a seed or walked off a model's graph.

Which observations of an episode are judged (flags) is what a property is about; what
they have to be is decided by spec/trace.qnt alone.
"""
import math

from .script import *

TYPES = (32, 64)
PROFILES = ('dev', 'release')


def everywhere():
    """sample type and build profile"""
    for ty in TYPES:
        for prof in PROFILES:
            yield ty, prof


def K(ty, k32, k64):
    return CMP | (k32 if ty == 32 else k64)


# ---- signals -------------------------------------------------------------------------------
STYLES = ('uniform', 'dyadic', 'impulse', 'step', 'alternating', 'sine', 'tiny', 'large', 'sparse', 'decay')


def signal(rng, n, style=None):
    s = style or rng.choice(STYLES)
    if s == 'uniform':
        return [rng.uniform(-1, 1) for _ in range(n)]
    if s == 'dyadic':
        return [rng.randint(-256, 256) / 64 for _ in range(n)]
    if s == 'impulse':
        a = rng.choice([1.0, -1.0, 0.5, 3.0])
        return [a] + [0.0] * (n - 1)
    if s == 'step':
        a = rng.choice([1.0, -0.75, 2.0])
        k = rng.randint(0, n // 2)
        return [0.0] * k + [a] * (n - k)
    if s == 'alternating':
        return [(-1.0) ** i for i in range(n)]
    if s == 'sine':
        w, p = rng.uniform(0.01, 3.1), rng.uniform(0, 6)
        return [math.sin(w * i + p) for i in range(n)]
    if s == 'tiny':
        e = 2.0 ** -rng.randint(20, 45)
        return [rng.uniform(-1, 1) * e for _ in range(n)]
    if s == 'large':
        e = 2.0 ** rng.randint(10, 30)
        return [rng.uniform(-1, 1) * e for _ in range(n)]
    if s == 'minute':
        e = 2.0 ** -rng.randint(60, 85)
        return [rng.uniform(-1, 1) * e for _ in range(n)]
    if s == 'huge':
        e = 2.0 ** rng.randint(50, 80)
        return [rng.uniform(-1, 1) * e for _ in range(n)]
    if s == 'sparse':
        return [rng.uniform(-1, 1) if rng.random() < 0.2 else 0.0 for _ in range(n)]
    return [0.8 ** i * rng.choice([1, -1]) for i in range(n)]


def level(rng, ty, kind, k):
    """a far away signal level for this processor: 2^-by to scale the samples with and units to
    judge them in, and the tolerance there"""
    rms = kind == RMSENV
    c = rng.random()
    if c < 0.25:
        by = -rng.randint(35, 50 if rms else 105) if ty == 32 else -rng.randint(100, 480 if rms else 980)
    elif c < 0.75 or rms:
        by = rng.randint(30, 48 if rms else 118) if ty == 32 else rng.randint(90, 470 if rms else 1000)
    else:
        # subnormal
        by = rng.randint(126, 132) if ty == 32 else rng.randint(1022, 1040)
        k = min(k, 7 if ty == 32 else 20)
    return by, k


def scaled(xs, by):
    return [math.ldexp(x, -by) for x in xs]


LEVEL_STYLES = ('uniform', 'dyadic', 'impulse', 'step', 'alternating', 'sine', 'sparse', 'decay')


SPECIALS = [NAN, INF, -INF, -0.0, 0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-45, -1e-40,
            1.1754943508222875e-38, 3.4028234663852886e38, -3.4028234663852886e38,
            1.7976931348623157e308, Bits(0x7ff8000000000001), Bits(0xfff8000000000000)]


def sample(rng, i, special=0.15):
    """a sample of a delay line: all different, some peculiar"""
    if rng.random() < special:
        return rng.choice(SPECIALS)
    r = rng.random()
    if r < 0.6:
        return float(i + 1)
    if r < 0.8:
        return -(i + 1) / 1024
    return rng.uniform(-2, 2)


# ---- delay lines ------------------------------------------------------------------------------
CAPS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]


def pick_delay(rng, kind, cap, frac):
    """a request within or beyond what the line can hold"""
    r = rng.random()
    if kind == DELAY:
        if r < 0.15:
            return cap
        if r < 0.25:
            return max(0, cap - 1)
        if r < 0.33:
            return 0
        if r < 0.41:
            return 1
        if r < 0.48:
            return cap + rng.randint(1, 5)
        return rng.randint(0, cap)
    if r < 0.1:
        return float(cap)
    if r < 0.15:
        return cap + rng.uniform(0, 3)
    if r < 0.2:
        return 0.0
    if r < 0.25:
        return -rng.uniform(0, 2)
    if frac == 'whole':
        return float(rng.randint(0, cap))
    if frac == 'eighths':
        return rng.randint(0, 8 * cap) / 8
    if r < 0.35:
        return min(cap, rng.randint(0, cap) + rng.choice([1e-3, 1e-6, 0.999, 0.9999]))
    return rng.uniform(0, cap)


def linear_k(ty, cap, frac):
    """how exact a fractional delay can be: set_delay takes f32 and subtracts in f32"""
    if frac != 'any':
        return 20 if ty == 32 else 44
    return max(4, 20 - (cap + 2).bit_length())


def delay_session(rng, ep, kind, ty, cap, d, n, weights, flags, frac='eighths', special=0.15, maxcap=None,
                  levels=0.0):
    """n random calls. weights: call -> weight; flags: call -> flags (default: not judged)"""
    o = ep.new(kind, ty, d, cap)
    ops, ws = zip(*weights.items())
    i = 0
    maxcap = maxcap or 2 * cap + 10
    if kind == LINEAR:
        special = 0.0
    by, far = 0, None
    if rng.random() < levels:
        # far away levels
        by, far = level(rng, ty, LINEAR, linear_k(ty, cap, frac))
        if kind == LINEAR:
            ep.units(o, by)

    def fl(op):
        if op not in flags:
            return 0
        if flags[op] == 'exact':
            return K(ty, 40, 40)
        if far is not None:
            return CMP | far
        if kind == LINEAR:
            return CMP | linear_k(ty, cap, frac)
        return CMP | (20 if ty == 32 else 44)

    def val():
        if far is not None:
            return math.ldexp(rng.randint(-512, 512) / 256, -by)
        if kind == LINEAR:
            return float(rng.randint(-512, 512)) if frac != 'any' else rng.uniform(-2, 2)
        return sample(rng, i, special)

    while n > 0:
        if 'last' in flags and rng.random() < 0.4:
            ep.last(o, fl('last'))
        op = rng.choices(ops, ws)[0]
        i += 1
        n -= 1
        if op == 'process':
            k = rng.randint(1, 6)
            for _ in range(k):
                i += 1
                ep.proc(o, val(), fl('process'))
        elif op == 'block':
            k = rng.choice([0, 1, 2, 3, 5, cap, cap + 1, 2 * cap + 3]) if cap < 40 else rng.randint(0, 30)
            xs = []
            for _ in range(k):
                i += 1
                xs.append(val())
            ep.block(o, xs, fl('process'))
        elif op == 'last':
            ep.last(o, fl('last'))
        elif op == 'zeros':
            for _ in range(rng.choice([1, 2, 3, cap])):
                ep.proc(o, 0.0, fl('process'))
        elif op == 'clear':
            ep.clear(o)
        elif op == 'setd':
            ep.setd(o, pick_delay(rng, kind, cap, frac))
            if 'getd' in flags and rng.random() < 0.7:
                ep.getd(o, fl('getd'))
        elif op == 'getd':
            ep.getd(o, fl('getd'))
        elif op == 'getm':
            ep.getm(o, fl('getm'))
        elif op == 'setm':
            m = rng.choice([0, cap - 1, cap, cap + 1, cap + 2, cap + rng.randint(1, 40), 2 * cap, 2 * cap + 1])
            m = max(0, m)
            if m > maxcap:
                m = rng.randint(0, cap)
            cap = max(cap, m)
            ep.setm(o, m)
            if 'getm' in flags:
                ep.getm(o, fl('getm'))
            if 'getd' in flags:
                ep.getd(o, fl('getd'))
            if 'tapo' in flags:
                for t in {0, 1, cap // 2, cap - 1, cap, rng.randint(0, cap)}:
                    if 0 <= t <= cap:
                        ep.tapo(o, t, fl('tapo'))
        elif op == 'next':
            for _ in range(rng.choice([1, 1, 2])):
                ep.nexto(o, fl('next'))
        elif op == 'tapo':
            ep.tapo(o, rng.choice([0, cap, rng.randint(0, cap)]), fl('tapo'))
        elif op == 'tapi':
            ep.tapi(o, rng.choice([0, cap, rng.randint(0, cap)]), val())
        elif op == 'addto':
            v = val()
            if kind == DELAY and far is None:
                v = rng.choice([1.0, -2.0, 0.5, 4.0])
            ep.addto(o, rng.choice([0, cap, rng.randint(0, cap)]), v, fl('addto'))
    return o


def delay_walks(r, kind, walks, rng, types, profiles, observe, share=1.0):
    """Replay the walks of mc_delay's graph; after every call, `observe` it."""
    eps = []
    for ty in types:
        for prof in profiles:
            for i, w in enumerate(walks):
                if share < 1 and rng.random() > share:
                    continue
                ep = Ep('walk %d of the %s model' % (i, NAMES[kind]), prof)
                den = 1 if kind == DELAY else 2
                o = ep.new(kind, ty, w[0]['a'] if den == 1 else w[0]['a'] / den, w[0]['b'])
                cap = w[0]['b']
                e = CMP | (40 if ty == 64 else 20)
                for c in w[1:]:
                    op, a, b = c['op'], c['a'], c['b']
                    if op == 'process':
                        ep.proc(o, float(a), e if 'process' in observe else 0)
                    elif op == 'set_delay':
                        ep.setd(o, a if den == 1 else a / den)
                        if 'getd' in observe:
                            ep.getd(o, e)
                    elif op == 'set_max_delay':
                        cap = max(cap, a)
                        ep.setm(o, a)
                        if 'getm' in observe:
                            ep.getm(o, e)
                        if 'getd' in observe:
                            ep.getd(o, e)
                    elif op == 'clear':
                        ep.clear(o)
                        if 'last' in observe:
                            ep.last(o, e)
                    elif op == 'next_out':
                        ep.nexto(o, e if 'next' in observe else 0)
                    elif op == 'tap_in':
                        ep.tapi(o, a, float(b))
                    elif op == 'add_to':
                        ep.addto(o, a, float(b), e if 'addto' in observe else 0)
                    if 'taps' in observe:
                        ep.tapo(o, rng.randint(0, cap), e)
                eps.append(ep)
    return eps


# ---- filters ---------------------------------------------------------------------------------
def poles(rng, rmax=0.93):
    """a1, a2 of a stable pair of poles"""
    if rng.random() < 0.7:
        r, th = rng.uniform(0, rmax), rng.uniform(0, math.pi)
        return -2 * r * math.cos(th), r * r
    p, q = rng.uniform(-rmax, rmax), rng.uniform(-rmax, rmax)
    return -(p + q), p * q


def pole1(rng, rmax=0.97):
    return rng.uniform(-rmax, rmax)


def coefs(rng, kind, dyadic):
    if dyadic:
        c = lambda: rng.choice([0.0, 0.25, -0.25, 0.5, -0.5, 1.0, -1.0, 2.0, 0.75, -1.5])
        return c(), c(), c(), rng.choice([0.0, 0.5, -0.5, 0.25, -0.75]), rng.choice([0.0, 0.5, -0.25, 0.25, -0.5])
    c = lambda: rng.uniform(-2, 2)
    if kind == ONEPOLE:
        return c(), 0.0, 0.0, pole1(rng), 0.0
    a1, a2 = poles(rng)
    return c(), c(), c(), a1, a2


def fields_of(kind):
    return {ONEPOLE: [0, 3], ONEZERO: [0, 1], TWOPOLE: [0, 3, 4], TWOZERO: [0, 1, 2]}.get(kind, [0, 1, 2, 3, 4])


def params(rng, kind, ty, gentle=False):
    """sample rate, frequency, gain, q or slope of a cookbook design"""
    sr = rng.choice([8000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0, 1.0, 2.0, 11025.0, 100.0, 44100.0, 48000.0,
                     rng.choice([0.5, 1e-3, 0.75, 3.0, 384000.0, 1e9, 1000.0])])
    if ty == 32:
        lo, hi = 0.03, 0.47
    else:
        lo, hi = (0.02, 0.48) if gentle else (0.0005, 0.4995)
    f = math.exp(rng.uniform(math.log(lo), math.log(hi))) if rng.random() < 0.5 else rng.uniform(lo, hi)
    if rng.random() < 0.12:
        f = rng.choice([1 / 4, 1 / 8, 1 / 3, 1 / 6, 1 / 16, 3 / 8, 1 / 12])
    shelf = kind in (LOWSHELF, HIGHSHELF)
    if shelf:
        p = rng.choice([1.0, 0.5, 0.25, 0.9, rng.uniform(0.1, 1.0), rng.uniform(0.1, 1.0)])
    else:
        p = rng.choice([0.5, 1.0, math.sqrt(0.5), 2.0, 4.0, rng.uniform(0.2, 6), rng.uniform(0.3, 2),
                        0.3 if gentle or ty == 32 else rng.choice([0.05, 20.0, 40.0])])
    db = rng.choice([0.0, 6.0, -6.0, 12.0, -12.0, 20.0, -20.0, 3.0, -3.0, rng.uniform(-24, 24), rng.uniform(-24, 24),
                     rng.choice([-1, 1]) * math.exp(rng.uniform(-9, 0.5))]
                    + ([] if ty == 32 else [40.0, -40.0]))
    return f32(sr), f32(f * sr) if sr > 4 else f * sr, f32(db), p


class Setup:
    """A processor of some kind with settings, so that the same can be built again."""

    def __init__(self, rng, kind, ty, cap=None, gentle=True):
        self.kind, self.ty = kind, ty
        self.a0 = self.a1 = 0
        self.calls = []
        if kind == DELAY:
            self.a1 = rng.choice([0, 1, 2, 3, 5, 8, 13]) if cap is None else cap
            self.a0 = rng.randint(0, self.a1)
        elif kind == LINEAR:
            self.a1 = rng.choice([0, 1, 2, 3, 5, 8, 13]) if cap is None else cap
            self.a0 = rng.randint(0, 8 * self.a1) / 8
        elif kind in BASIC:
            self.calls = [('coef',) + coefs(rng, kind, gentle or rng.random() < 0.5)]
        elif kind in RBJ:
            self.calls = [('rset',) + params(rng, kind, ty, gentle=True)]
        elif kind == LEAKY:
            self.calls = [('alpha', rng.choice([0.0, 0.5, 0.9, 0.25, rng.uniform(0, 0.95)]))]
        else:
            # the judge continues with the gains reported
            self.calls = [('att', rng.choice([1.0, 3.0, 10.0, rng.uniform(0.5, 30)])), ('gatt',),
                          ('rel', rng.choice([1.0, 5.0, 30.0, rng.uniform(0.5, 60)])), ('grel',)]

    def apply(self, ep, o):
        for c in self.calls:
            getattr(ep, c[0])(o, *c[1:])

    def build(self, ep):
        o = ep.new(self.kind, self.ty, self.a0, self.a1)
        self.apply(ep, o)
        return o


PROCESSORS = [DELAY, LINEAR] + BASIC + RBJ + ENVS


def tol(kind, ty, fine=True):
    """tolerance for gently set up processors"""
    if kind == DELAY:
        return CMP | (23 if ty == 32 else 50)
    if kind == LINEAR:
        return CMP | (20 if ty == 32 else 44)
    if kind in RBJ:
        return CMP | (9 if ty == 32 else 34)
    if kind in ENVS:
        return CMP | (16 if ty == 32 else 42)
    return CMP | (13 if ty == 32 else 40)
