"""Scripts of API calls for the recorder, built as episodes.

An episode is a self-contained list of calls on objects it creates itself.
Nothing here knows what a call should return: that is the specification's job.
"""
import itertools
import struct

CMP = 1 << 8      # judge the observation
FIN = 1 << 9      # only: must be finite
LOC = 1 << 10     # tolerance relative to this sample's own terms
MONO = 1 << 11    # not less than the previous observation
ABS = 1 << 12     # tolerance relative to 1 if that is more
NFOK = 1 << 13    # comparing two: or neither is finite
LD = 1 << 15      # LinearDelay takes its delay as f32

DELAY, LINEAR = 1, 2
ONEPOLE, ONEZERO, TWOPOLE, TWOZERO, BIQUAD1, BIQUAD2 = range(10, 16)
BASIC = list(range(10, 16))
LOWPASS, HIGHPASS, BANDPASS1, BANDPASS2, BANDSTOP, LOWSHELF, HIGHSHELF, ALLPASS, PEAK = range(20, 29)
RBJ = list(range(20, 29))
LEAKY, PEAKENV, RMSENV = 30, 31, 32
ENVS = [30, 31, 32]
WINDOWS = list(range(40, 46))
RECT = 46
NAMES = {1: 'Delay', 2: 'LinearDelay', 10: 'OnePole', 11: 'OneZero', 12: 'TwoPole', 13: 'TwoZero',
         14: 'Biquad1', 15: 'Biquad2', 20: 'LowPass', 21: 'HighPass', 22: 'BandPass1',
         23: 'BandPass2', 24: 'BandStop', 25: 'LowShelf', 26: 'HighShelf', 27: 'AllPass',
         28: 'Peak', 30: 'LeakyIntegrator', 31: 'PeakEnvDetector', 32: 'RmsEnvDetector',
         40: 'Triangular', 41: 'Bartlett', 42: 'Hann', 43: 'Hamming', 44: 'Blackman',
         45: 'BlackmanHarris', 46: 'Rectangular'}
OPS = {1: 'new', 2: 'process', 3: 'last_out', 4: 'clear', 5: 'process_block', 6: 'process_block returns',
       7: 'process repeatedly', 8: 'set_coefficients', 9: 'write coefficient', 10: 'set_coefficients',
       11: 'set_delay', 12: 'get_delay', 13: 'set_max_delay', 14: 'get_max_delay', 15: 'next_out',
       16: 'tap_out', 17: 'tap_in', 18: 'add_to', 19: 'read coefficient', 20: 'set_alpha',
       21: 'get_alpha', 22: 'set_attack', 23: 'set_release', 24: 'get_attack_gain',
       25: 'get_release_gain', 26: 'process the sample that silences', 30: 'next', 31: 'len', 32: 'size_hint', 33: 'nth', 34: 'take',
       35: 'apply_window', 36: 'drain', 37: 'len via zip', 38: 'count', 39: 'last', 46: 'collect', 47: 'apply_window, long', 40: 'to_db', 41: 'to_sample',
       42: 'apply_gain', 43: 'constant', 44: 'to_db(to_sample)', 45: 'to_sample(to_db)',
       50: 'compare two', 51: 'measure', 52: 'measured', 53: 'measure tail', 54: 'superpose', 55: 'shape', 57: 'units', 58: 'drop'}

_ids = itertools.count(1)


class Bits(int):
    """a raw 64 bit pattern"""


def fb(x):
    if isinstance(x, Bits):
        return int(x)
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def f32(x):
    """x rounded to single precision"""
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


NAN = float('nan')
INF = float('inf')


class Ep:
    """An episode. cost estimates the time the judge needs, in events."""

    def __init__(self, name, profile='dev'):
        self.name = name
        self.profile = profile
        self.lines = []
        self.cost = 0
        self.linear = set()

    def raw(self, *w, cost=1):
        self.lines.append(' '.join('%x' % x for x in w))
        self.cost += cost

    def new(self, kind, ty, a0=0, a1=0):
        o = next(_ids)
        if kind == LINEAR:
            self.linear.add(o)
            a0 = fb(a0)
        self.raw(1, 0, o, kind, ty, a0, a1, cost=1 + (a1 / 100 if kind in (1, 2) else 0))
        return o

    def proc(self, o, x, fl=0):
        self.raw(2, fl, o, fb(x))

    def last(self, o, fl=0):
        self.raw(3, fl, o)

    def clear(self, o):
        self.raw(4, 0, o)

    def block(self, o, xs, fl=0):
        self.raw(5, fl, o, *[fb(x) for x in xs], cost=len(xs) + 1)

    def run(self, o, n, x, fl=0, block=False, cost=None):
        self.raw(7, fl, o, n, fb(x), int(block), cost=n / 8 if cost is None else cost)

    def coef(self, o, b0, b1, b2, a1, a2):
        self.raw(8, 0, o, fb(b0), fb(b1), fb(b2), fb(a1), fb(a2))

    def field(self, o, i, v):
        self.raw(9, 0, o, i, fb(v))

    def readf(self, o, i, fl=0):
        self.raw(19, fl, o, i)

    def rset(self, o, sr, f0, db, p):
        self.raw(10, 0, o, fb(sr), fb(f0), fb(db), fb(p), cost=4)

    def setd(self, o, d):
        if o in self.linear:
            self.raw(11, LD, o, fb(d))
        else:
            self.raw(11, 0, o, d)

    def getd(self, o, fl=0):
        self.raw(12, fl, o)

    def setm(self, o, m):
        self.raw(13, 0, o, m, cost=1 + m / 100)

    def getm(self, o, fl=0):
        self.raw(14, fl, o)

    def nexto(self, o, fl=0):
        self.raw(15, fl, o)

    def tapo(self, o, t, fl=0):
        self.raw(16, fl, o, t)

    def tapi(self, o, t, v):
        self.raw(17, 0, o, t, fb(v))

    def addto(self, o, t, v, fl=0):
        self.raw(18, fl, o, t, fb(v))

    def alpha(self, o, g):
        self.raw(20, 0, o, fb(g))

    def galpha(self, o, fl=0):
        self.raw(21, fl, o)

    def att(self, o, n):
        self.raw(22, 0, o, fb(n), cost=2)

    def rel(self, o, n):
        self.raw(23, 0, o, fb(n), cost=2)

    def gatt(self, o, fl=0):
        self.raw(24, fl, o)

    def grel(self, o, fl=0):
        self.raw(25, fl, o)

    def wnext(self, o, fl=0):
        self.raw(30, fl, o, cost=3)

    def wlen(self, o, fl=0):
        self.raw(31, fl, o)

    def whint(self, o, fl=0):
        self.raw(32, fl, o)

    def wnth(self, o, k, fl=0):
        self.raw(33, fl, o, k, cost=3)

    def wtake(self, o, k, fl=0):
        self.raw(34, fl, o, k)

    def wdrain(self, o, fl=0):
        self.raw(36, fl, o)

    def wzip(self, o, fl=0):
        self.raw(37, fl, o)

    def wcount(self, o, fl=0):
        self.raw(38, fl, o)

    def wlast(self, o, fl=0):
        self.raw(39, fl, o, cost=3)

    def wcollect(self, o, fl=0, n=100, how=0):
        """all that is left: 0 collect, 1 fold, 2 fused and peeked at"""
        self.raw(46, fl, o, how, cost=3 * n)

    def silence(self, o, fl=0):
        """process a sample that makes the output zero (the recorder looks for it)"""
        self.raw(26, fl, o)

    def units(self, o, by):
        """judge the samples of this object in units of 2^-by"""
        self.raw(57, 0, o, abs(by), int(by < 0))

    def drop(self, o):
        self.raw(58, 0, o)

    def thread(self, t):
        """what follows is carried out on thread t; every episode ends on thread 0"""
        self.lines.append('f0 %d' % t)

    def together(self, parts):
        """episodes run at the same time, each on a thread of its own"""
        self.lines.append('f1')
        for i, p in enumerate(parts):
            self.lines += ['f2'] * (i > 0) + p.lines
            self.cost += p.cost
        self.lines.append('f3')

    def shape(self, o, what, k, cost=100):
        self.raw(55, k, o, what, cost=cost)

    def apply(self, kind, ty, xs, fl=0):
        self.raw(35, fl, kind, ty, *[fb(x) for x in xs], cost=3 * len(xs))

    def apply_long(self, kind, ty, n, x, at, fl=0):
        """apply_window to n samples of size x, judged at the places given"""
        self.raw(47, fl, kind, ty, n, fb(x), *at, cost=3 * len(at))

    def free(self, op, ty, a0, a1=0, fl=0):
        self.raw(op, fl, ty, a0 if op == 43 else fb(a0), fb(a1), cost=3)

    def same(self, o1, o2, k):
        """like eq, or both not finite"""
        self.raw(50, k | NFOK, o1, o2)

    def eq(self, o1, o2, k):
        self.raw(50, k, o1, o2)

    def scaled(self, o1, o2, k, e=0, neg=False):
        """o2 was fed what o1 was, times 2^e (on top of the units of the two), maybe with opposite sign"""
        self.raw(50, k, o1, o2, ((4096 + e) << 1 if e else 0) + int(neg))

    def summed(self, o1, o2, o3, k):
        self.raw(54, k, o1, o2, o3)

    def measure(self, o, f):
        self.raw(51, 0, o, fb(f), cost=2)

    def tail(self, o):
        self.raw(53, 0, o)

    def measured(self, o, what, k):
        self.raw(52, k, o, what, cost=2)
