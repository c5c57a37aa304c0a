// -*- mode: Bluespec; -*-
/**
 * Trace specification: decides whether a recorded execution of the real crate is
 * a behaviour of the specification.
 *
 * A trace is a list of events, one per public call, recorded at the call's
 * return by harness/ (a sequential library: the return is the linearization
 * point). PACKS holds the events, EVENTS_PER_PACK to an integer, 8 words of 64
 * bits each, first event in the least significant bits:
 *   w0  op | flags << 16 | panicked << 48
 *       flags: bits 0-7 tolerance exponent k, bit 8 compare the observation,
 *              bit 9 only require it to be finite,
 *              bit 11 not less than the observation of the event before,
 *              bit 10 tolerate relative to the terms of this sample alone,
 *              bit 12 tolerate relative to 1 if that is more,
 *              bit 13 (50) or neither of the two is finite
 *   w1  object      w2..w6  arguments      w7  observation
 *
 * The state is the map of live objects, each in its specification state; each
 * event is one transition, taken with the transition functions of delay.qnt,
 * filter.qnt, rbj.qnt, analysis.qnt, window.qnt and decibel.qnt. `bad` records
 * the first event that no behaviour of the specification explains.
 */
module trace {
  const PACKS: List[int]
  const EVENTS: int
  const EVENTS_PER_PACK: int

  import num.* from "./num"
  import delay(FDEN = 1) as DI from "./delay"
  import delay(FDEN = 2^128) as DL from "./delay"
  import filter(UNIT = 2^128) as F from "./filter"
  import analysis(UNIT = 2^128) as E from "./analysis"
  import rbj as R from "./rbj"
  import window as W from "./window"
  import winiter as WI from "./winiter"
  import decibel as U from "./decibel"

  type Par = { sr: int, f0: int, db: int, p: int }
  /** accumulated spectrum of an impulse response, see 51/52 */
  type Meas = { on: bool, n: int, dc: int, ny: int, re: int, im: int,
                c: int, s: int, rc: int, rs: int, peak: int, tail: int }
  type Obj =
    | DelayO(DI::Line)
    | LinearO({ s: DL::Line, mag: int, by: int, last: int })
    | FilterO({ kind: int, f: F::Filt, poison: int, par: Par, meas: Meas, by: int, ty: int, last: int })
    | EnvO({ e: E::Env, poison: int, now: int, by: int, last: int })
    | WinO({ s: WI::Iter, seen: List[int] })
    | NoneO

  type Bad = { at: int, op: int, why: str, want: int, got: int }
  type St = { objs: int -> Obj, bad: Bad, at: int, judged: int, done: int, used: int, usedAt: int, before: int }

  pure val M64 = 2^64
  pure val M512 = 2^512
  /** stands for a sample that is not a finite number */
  pure val NF = 2^4000
  pure val FOREVER = 2^60
  pure val noMeas: Meas = { on: false, n: 0, dc: 0, ny: 0, re: 0, im: 0, c: 0, s: 0, rc: 0, rs: 0, peak: 0, tail: 0 }
  pure val noPar: Par = { sr: ONE, f0: 0, db: 0, p: ONE }
  pure val fine: Bad = { at: -1, op: 0, why: "", want: 0, got: 0 }

  pure def word(e: int, i: int): int = (e / 2^(64 * i)) % M64

  // ---- comparing an observation with the specification -----------------------------
  pure def within(got: int, want: int, mag: int, k: int): bool =
    abs(got - want) <= max2(mag, abs(want)) / 2^k + 2^8

  /** same sample, bit for bit (any NaN is any NaN) */
  pure def sameBits(a: int, b: int): bool = a == b or (isNanBits(a) and isNanBits(b))

  pure def num(b: int): int = if (isFiniteBits(b)) fx(b) else NF
  pure def numBy(b: int, by: int): int = if (isFiniteBits(b)) fxBy(b, by) else NF

  // verdicts: 0 not compared, 1 agrees, 2 differs; used: 1/1000 of the tolerance used up
  type V = { v: int, why: str, want: int, got: int, used: int }
  pure val skip: V = { v: 0, why: "", want: 0, got: 0, used: 0 }
  pure def verdict(ok: bool, why: str, want: int, got: int): V =
    { v: if (ok) 1 else 2, why: why, want: want, got: got, used: 0 }
  pure def closeTo(why: str, want: int, got: int, mag: int, k: int): V =
    { v: if (within(got, want, mag, k)) 1 else 2, why: why, want: want, got: got,
      used: (1000 * abs(got - want)) / (max2(mag, abs(want)) / 2^k + 2^8) }

  /** a sample observed where the specification computes `want` */
  pure def judgeNum(fl: int, obs: int, want: int, mag: int, why: str): V =
    judgeBy(0, fl, obs, want, mag, why)

  /** units among the subnormal numbers: their spacing is the same however small they are */
  pure def floorOf(by: int): int = if (by >= 1020 or (by >= 124 and by <= 149)) ONE else 0

  /** the same, for an object whose samples are counted in units of 2^-by */
  pure def judgeBy(by: int, fl: int, obs: int, want: int, mag: int, why: str): V =
    val k = fl % 256
    val cmp = (fl / 256) % 2 == 1
    val fin = (fl / 512) % 2 == 1
    if (cmp)
      if (isFiniteBits(obs)) closeTo(why, want, fxBy(obs, by), max2(mag, if ((fl / 4096) % 2 == 1) ONE else floorOf(by)), k)
      else verdict(false, why, want, NF)
    else if (fin) verdict(isFiniteBits(obs), "not finite", want, num(obs))
    else skip

  pure def judgeInt(fl: int, obs: int, want: int, why: str): V =
    if ((fl / 256) % 2 == 1) verdict(obs == want, why, want, obs) else skip

  /** where the specification leaves an output open (disturbed by a sample that is not finite,
   *  or overflown), what is reported later is still the output that was returned, `last` */
  pure def judgeLast(by: int, fl: int, obs: int, last: int, why: str): V =
    if ((fl / 256) % 2 == 0) skip
    else if (isFiniteBits(last) and isFiniteBits(obs)) closeTo(why, fxBy(last, by), fxBy(obs, by), floorOf(by), fl % 256)
    else verdict(sameBits(last, obs), why, numBy(last, by), numBy(obs, by))

  /** more than single precision can hold, in units of 2^-by */
  pure def tooMuch(x: int, by: int): bool =
    val m = (2^25 - 1) * 2^103 * ONE
    abs(x) >= (if (by >= 0) m * 2^by else m / 2^(-by))

  type Res = { o: Obj, v: V }
  pure def res(o: Obj, v: V): Res = { o: o, v: v }

  // ---- one transition per kind of object ---------------------------------------------

  /** integer delay line: samples are opaque, they are moved and never computed with */
  pure def stepDelay(s: DI::Line, op: int, fl: int, a: List[int], obs: int): Res =
    val cmp = (fl / 256) % 2 == 1
    def same(n: DI::Line, want: int, why: str): Res =
      res(DelayO(n), if (cmp) verdict(sameBits(obs, want), why, want, obs) else skip)
    if (op == 2) { val n = DI::process(s, a[0]) same(n, n.out, "process") }
    else if (op == 5) { val n = DI::process(s, a[1]) same(n, n.out, "process_block sample") }
    else if (op == 6) same(s, s.out, "process_block result")
    else if (op == 7) { val n = DI::processMany(s, a[0], a[1]) same(n, n.out, "process, repeated") }
    else if (op == 3) same(s, s.out, "last_out")
    else if (op == 4) res(DelayO(DI::clear(s)), skip)
    else if (op == 11) res(DelayO(DI::setDelay(s, a[0])), skip)
    else if (op == 12) res(DelayO(s), judgeInt(fl, obs, s.delay, "get_delay"))
    else if (op == 13) res(DelayO(DI::setMaxDelay(s, a[0])), skip)
    else if (op == 14) res(DelayO(s), judgeInt(fl, obs, s.cap, "get_max_delay"))
    else if (op == 15) (if (DI::predictable(s)) same(s, DI::nextOut(s), "next_out") else res(DelayO(s), skip))
    else if (op == 16) same(s, DI::tapOut(s, a[0]), "tap_out")
    else if (op == 17) res(DelayO(DI::tapIn(s, a[0], a[1])), skip)
    else if (op == 18) {
      val was = DI::tapOut(s, a[0])
      // in units of the larger of the two
      val by = 1023 - max2(f64Exp(was), f64Exp(a[1]))
      val want = numBy(was, by) + numBy(a[1], by)
      // the sum is rounded by the implementation: continue from what it stored
      if (not(isFiniteBits(was)) or not(isFiniteBits(a[1])))
        res(DelayO(DI::tapIn(s, a[0], obs)), if (cmp) verdict(not(isFiniteBits(obs)), "add_to", NF, num(obs)) else skip)
      else res(DelayO(DI::tapIn(s, a[0], obs)),
        if (tooMuch(want, by) and not(isFiniteBits(obs))) skip else judgeBy(by, fl, obs, want, 0, "add_to"))
    }
    else res(DelayO(s), verdict(false, "unknown event", 0, op))

  /** the two stored samples an output interpolates between */
  pure def magAt(s: DL::Line, d: int): int =
    val k = d / ONE
    max2(abs(DL::tapOut(s, k)), abs(DL::tapOut(s, min2(k + 1, s.cap))))

  pure def delayArg(b: int): int =
    if (isFiniteBits(b)) fx(b) else if (isNegBits(b)) -NF else NF

  /** fractional delay line; a sample that is not finite is NF for as long as it is stored, and
   *  what is read next to one is open */
  pure def touched(s: DL::Line, d: int): bool =
    val k = d / ONE
    Set(k - 1, k, k + 1, k + 2, 0, s.cap).exists(t => t >= 0 and t <= s.cap and DL::tapOut(s, t) == NF)

  pure def stepLinear(q: { s: DL::Line, mag: int, by: int, last: int }, op: int, fl: int, a: List[int], obs: int): Res =
    val s = q.s
    def keep(n: DL::Line): Obj = LinearO({ ...q, s: n })
    def fed(n: DL::Line, why: str): Res =
      if (touched(n, n.delay)) res(LinearO({ ...q, s: n, mag: NF, last: obs }), skip)
      else {
        val m = magAt(n, n.delay)
        res(LinearO({ ...q, s: n, mag: m, last: obs }), judgeBy(q.by, fl, obs, n.out, m, why))
      }
    def stored(why: str): Res =
      res(LinearO(q), if (q.mag == NF) judgeLast(q.by, fl, obs, q.last, why) else judgeBy(q.by, fl, obs, s.out, q.mag, why))
    if (op == 2) fed(DL::process(s, numBy(a[0], q.by)), "process")
    else if (op == 5) fed(DL::process(s, numBy(a[1], q.by)), "process_block sample")
    else if (op == 6) stored("process_block result")
    else if (op == 7) fed(DL::processMany(s, a[0], numBy(a[1], q.by)), "process, repeated")
    else if (op == 3) stored("last_out")
    else if (op == 4) res(LinearO({ ...q, s: DL::clear(s), mag: 0, last: 0 }), skip)
    else if (op == 11) res(keep(DL::setDelay(s, delayArg(a[0]))), skip)
    else if (op == 12) res(LinearO(q), judgeNum(fl, obs, s.delay, 0, "get_delay"))
    else if (op == 13) res(keep(DL::setMaxDelay(s, a[0])), skip)
    else if (op == 14) res(LinearO(q), judgeInt(fl, obs, s.cap, "get_max_delay"))
    else if (op == 15) {
      if (DL::predictable(s) and not(touched(s, s.delay - ONE)))
        res(LinearO(q), judgeBy(q.by, fl, obs, DL::nextOut(s), magAt(s, s.delay - ONE), "next_out"))
      else res(LinearO(q), skip)
    }
    else if (op == 16) {
      val want = DL::tapOut(s, a[0])
      res(LinearO(q),
        if (want == NF) (if ((fl / 256) % 2 == 1) verdict(not(isFiniteBits(obs)), "tap_out", want, numBy(obs, q.by)) else skip)
        else judgeBy(q.by, fl, obs, want, 0, "tap_out"))
    }
    else if (op == 17) res(keep(DL::tapIn(s, a[0], numBy(a[1], q.by))), skip)
    else if (op == 18) {
      // the sum is rounded by the implementation: continue from what it stored
      val old = DL::tapOut(s, a[0])
      val add = numBy(a[1], q.by)
      val n = keep(DL::tapIn(s, a[0], numBy(obs, q.by)))
      if (old == NF or add == NF) res(n, if ((fl / 256) % 2 == 1) verdict(not(isFiniteBits(obs)), "add_to", NF, numBy(obs, q.by)) else skip)
      else res(n, if (tooMuch(old + add, q.by) and not(isFiniteBits(obs))) skip else judgeBy(q.by, fl, obs, old + add, 0, "add_to"))
    }
    else if (op == 57) res(LinearO({ ...q, by: if (a[1] == 1) -a[0] else a[0] }), skip)
    else res(LinearO(q), verdict(false, "unknown event", 0, op))

  // ---- filters ------------------------------------------------------------------------
  /** how long a sample that is not finite can disturb the output */
  pure def poisonSpan(kind: int): int =
    if (kind == 11) 2 else if (kind == 13) 3 else FOREVER

  /** the largest number of a sample type, in units of 2^-by */
  pure def top(ty: int, by: int): int =
    val m = if (ty == 32) (2^24 - 1) * 2^104 else (2^53 - 1) * 2^971
    if (by >= 0) m * ONE * 2^by else (m * ONE) / 2^(-by)
  /** what is added up exceeds the sample type: from here on the outputs are open */
  pure def overflows(f: F::Filt, ty: int, by: int): bool =
    f.mag + abs(f.z1) + abs(f.z2) > top(ty, by)

  /** settings of a cookbook filter that mean something */
  pure def sane(p: Par): bool =
    p.sr > 0 and p.sr < NF and p.f0 >= 0 and 2 * p.f0 <= p.sr and p.p > 0 and p.p < NF and abs(p.db) < NF

  pure def measure(m: Meas, y: int): Meas =
    if (not(m.on)) m
    else {
      ...m, n: m.n + 1, dc: m.dc + y, ny: if (m.n % 2 == 0) m.ny + y else m.ny - y,
      re: m.re + mul(y, m.c), im: m.im + mul(y, m.s),
      c: mul(m.c, m.rc) - mul(m.s, m.rs), s: mul(m.c, m.rs) + mul(m.s, m.rc),
      peak: max2(m.peak, abs(y)), tail: max2(m.tail, abs(y)),
    }

  pure def stepFilter(q: { kind: int, f: F::Filt, poison: int, par: Par, meas: Meas, by: int, ty: int, last: int },
                      op: int, fl: int, a: List[int], obs: int): Res =
    def fed(x: int, n: int, why: str): Res = {
      if (not(isFiniteBits(x))) res(FilterO({ ...q, last: obs, poison: poisonSpan(q.kind), f: F::processMany(q.f, n, 0) }), skip)
      else {
        val g = F::processMany(q.f, n, fxBy(x, q.by))
        val left = max2(0, q.poison - n)
        val m = if (q.meas.on and isFiniteBits(obs)) measure(q.meas, fx(obs)) else q.meas
        // while disturbed, the output is open
        if (q.poison == 0 and overflows(g, q.ty, q.by))
          res(FilterO({ ...q, last: obs, f: g, poison: FOREVER, meas: m }), skip)
        else if (q.poison > 0 and (q.poison >= FOREVER or left > 0))
          res(FilterO({ ...q, last: obs, f: g, poison: if (q.poison >= FOREVER) FOREVER else left, meas: m }), skip)
        else res(FilterO({ ...q, last: obs, f: g, poison: 0, meas: m }), judgeBy(q.by, fl, obs, g.out, if ((fl / 1024) % 2 == 1) g.now else g.mag, why))
      }
    }
    def stored(why: str): Res =
      res(FilterO(q), if (q.poison > 0) judgeLast(q.by, fl, obs, q.last, why) else judgeBy(q.by, fl, obs, q.f.out, if ((fl / 1024) % 2 == 1) q.f.now else q.f.mag, why))
    if (op == 2) fed(a[0], 1, "process")
    else if (op == 5) fed(a[1], 1, "process_block sample")
    else if (op == 6) stored("process_block result")
    else if (op == 7) fed(a[1], a[0], "process, repeated")
    else if (op == 3) stored("last_out")
    else if (op == 4) res(FilterO({ ...q, f: F::clear(q.f), poison: if (sane(q.par)) 0 else FOREVER, last: 0 }), skip)
    else if (op == 8) {
      val h = { b0: fx(a[0]), b1: fx(a[1]), b2: fx(a[2]), a1: fx(a[3]), a2: fx(a[4]) }
      val k = q.kind
      res(FilterO({ ...q, f: F::setCoefs(q.f, h.b0,
        if (k == 10 or k == 12) 0 else h.b1,
        if (k == 13 or k >= 14) h.b2 else 0,
        if (k == 11 or k == 13) 0 else h.a1,
        if (k == 12 or k >= 14) h.a2 else 0) }), skip)
    }
    else if (op == 9) {
      val v = fx(a[1])
      val f = q.f
      res(FilterO({ ...q, f:
        if (a[0] == 0) { ...f, b0: v } else if (a[0] == 1) { ...f, b1: v }
        else if (a[0] == 2) { ...f, b2: v } else if (a[0] == 3) { ...f, a1: v }
        else { ...f, a2: v } }), skip)
    }
    else if (op == 19) {
      val f = q.f
      val want = if (a[0] == 0) f.b0 else if (a[0] == 1) f.b1 else if (a[0] == 2) f.b2
                 else if (a[0] == 3) f.a1 else f.a2
      res(FilterO(q), judgeNum(fl, obs, want, 0, "coefficient"))
    }
    else if (op == 10) {
      // retuning: the cookbook's coefficients, and silence
      val par = { sr: num(a[0]), f0: num(a[1]), db: num(a[2]), p: num(a[3]) }
      // settings that make no sense leave the outputs open until it is tuned again
      if (not(sane(par))) res(FilterO({ ...q, par: par, poison: FOREVER, last: 0, f: F::clear(q.f) }), skip)
      else {
      val h = R::design(q.kind, par.sr, par.f0, par.db, par.p)
      res(FilterO({ ...q, par: par, poison: 0, last: 0,
            f: F::clear(F::setCoefs(q.f, h.b0, h.b1, h.b2, h.a1, h.a2)) }), skip)
      }
    }
    else if (op == 51) {
      // start measuring the response to what is fed from here on; a[0]: probe frequency
      val w = R::omega(q.par.sr, fx(a[0]))
      res(FilterO({ ...q, meas: { ...noMeas, on: true, c: ONE, s: 0, rc: cos(w), rs: sin(w) } }), skip)
    }
    else if (op == 57) res(FilterO({ ...q, by: if (a[1] == 1) -a[0] else a[0] }), skip)
    else if (op == 53) res(FilterO({ ...q, meas: { ...q.meas, tail: 0 } }), skip)
    else if (op == 52) {
      // a[0]: 0 DC, 1 half the sample rate, 2 probe frequency, 3 the response dies out
      val m = q.meas
      val k = fl % 256
      val g =
        if (a[0] == 0) { want: R::gainDC(q.kind, q.par.db), got: m.dc, why: "gain at DC" }
        else if (a[0] == 1) { want: R::gainNyquist(q.kind, q.par.db), got: m.ny, why: "gain at half the sample rate" }
        else if (a[0] == 2) { want: R::gainCenter(q.kind, q.par.db, q.par.p),
                              got: sqrt(mul(m.re, m.re) + mul(m.im, m.im)), why: "gain at the design frequency" }
        else { want: 0, got: m.tail, why: "response does not die out" }
      val scale = max2(ONE, max2(g.want, if (a[0] == 3) m.peak else 0))
      res(FilterO(q), closeTo(g.why, g.want, g.got, scale, k))
    }
    else res(FilterO(q), verdict(false, "unknown event", 0, op))

  // ---- integrator and envelope detectors --------------------------------------------------
  /** the RMS detector reports the root of what it averages: compare squares */
  pure def judgeEnv(q: { e: E::Env, poison: int, now: int, by: int, last: int }, fl: int, obs: int, why: str): V =
    val e = q.e
    val mag = if ((fl / 1024) % 2 == 1) q.now else e.mag
    if (e.kind == 32)
      if ((fl / 256) % 2 == 1 and isFiniteBits(obs))
        val y = fxBy(obs, q.by)
        if (y < 0) verdict(false, "negative level", sqrt(e.env), y)
        else closeTo(why, e.env, mul(y, y), mag, fl % 256)
      else judgeBy(q.by, fl, obs, sqrt(e.env), 0, why)
    else judgeBy(q.by, fl, obs, e.env, mag, why)

  /** exp(-1/n); far below the resolution of the specification for very small n */
  pure def timeGain(n: int): int = if (n < ONE / 1000) 0 else exp(-div(ONE, n))
  /** a gain asked for: -0 is 0, anything else below 0 is below 0 however small */
  pure def gainArg(b: int): int = if (isNegBits(b) and b != 2^63) -1 else fx(b)
  /** a time constant is accepted only if it is a positive finite number */
  pure def goodLength(b: int): bool = isFiniteBits(b) and not(isNegBits(b)) and b != 0

  pure def stepEnv(q: { e: E::Env, poison: int, now: int, by: int, last: int }, op: int, fl: int, a: List[int], obs: int): Res =
    def fed(x: int, n: int, why: str): Res = {
      if (not(isFiniteBits(x))) res(EnvO({ ...q, poison: FOREVER, last: obs }), skip)
      else {
        val u = fxBy(x, q.by)
        val v = E::rectify(q.e, u)
        val n1 = { ...q, last: obs, e: E::processMany(q.e, n, u), now: abs(v) + abs(mul(E::coef(q.e, v), q.e.env - v)) }
        res(EnvO(n1), if (q.poison > 0) skip else judgeEnv(n1, fl, obs, why))
      }
    }
    def storedEnv(why: str): Res =
      res(EnvO(q), if (q.poison > 0) judgeLast(q.by, fl, obs, q.last, why) else judgeEnv(q, fl, obs, why))
    if (op == 2) fed(a[0], 1, "process")
    else if (op == 5) fed(a[1], 1, "process_block sample")
    else if (op == 7) fed(a[1], a[0], "process, repeated")
    else if (op == 6) storedEnv("process_block result")
    else if (op == 3) storedEnv("last_out")
    else if (op == 4) res(EnvO({ ...q, e: E::clear(q.e), poison: 0, now: 0, last: 0 }), skip)
    else if (op == 57) res(EnvO({ ...q, by: if (a[1] == 1) -a[0] else a[0] }), skip)
    else if (op == 20) res(EnvO({ ...q, e: if (isFiniteBits(a[0])) E::setAlpha(q.e, gainArg(a[0])) else q.e }), skip)
    else if (op == 21) res(EnvO(q), judgeNum(fl, obs, q.e.attack, 0, "get_alpha"))
    else if (op == 22) res(EnvO({ ...q, e: if (goodLength(a[0])) { ...q.e, attack: timeGain(fx(a[0])) } else q.e }), skip)
    else if (op == 23) res(EnvO({ ...q, e: if (goodLength(a[0])) { ...q.e, release: timeGain(fx(a[0])) } else q.e }), skip)
    // a gain is a rounded number: once judged, continue with the one reported
    else if (op == 24) res(EnvO({ ...q, e: { ...q.e, attack: num(obs) } }), judgeNum(fl, obs, q.e.attack, 0, "attack gain"))
    else if (op == 25) res(EnvO({ ...q, e: { ...q.e, release: num(obs) } }), judgeNum(fl, obs, q.e.release, 0, "release gain"))
    else res(EnvO(q), verdict(false, "unknown event", 0, op))

  // ---- the shape of a window, from the values it gave (all of them, in order) -----------------
  /** the largest of f(0) .. f(m-1), not below 0 */
  pure def largest(m: int, f: int => int): int = range(0, m).foldl(0, (b, i) => max2(b, f(i)))

  pure def judgeShape(kind: int, v: List[int], what: int, k: int): V =
    val n = v.length()
    val h = (n - 1) / 2
    if (what == 0) closeTo("window not symmetric", 0, largest(n, i => abs(v[i] - v[n - 1 - i])), ONE, k)
    else if (what == 1) closeTo("window value outside 0..1", 0, largest(n, i => max2(-v[i], v[i] - ONE)), ONE, k)
    else if (what == 2) closeTo("window falls before its middle", 0, largest(h, i => v[i] - v[i + 1]), ONE, k)
    else if (what == 3) {
      // odd sizes, overlapped by half
      val want = if (kind == 43) ratio(108, 100) else ONE
      closeTo("overlapped windows not uniform", 0, largest(h, i => abs(v[i] + v[i + h] - want)), ONE, k)
    }
    else closeTo("window does not peak at one", 0, abs(v[h] - ONE), ONE, k)

  // ---- window iterators ---------------------------------------------------------------------
  pure def stepWin(q: { s: WI::Iter, seen: List[int] }, op: int, fl: int, a: List[int], obs: int): Res =
    val s = q.s
    def at(n: WI::Iter): Obj = WinO({ ...q, s: n })
    def valueAt(i: int, n: WI::Iter): Res =
      val o = WinO({ s: n, seen: if (a[4] == 1) q.seen.append(num(obs)) else q.seen })
      if (i >= s.size) res(o, verdict(a[4] == 0, "value past the end", 0, a[4]))
      else if (a[4] != 1) res(o, verdict(false, "ended early", 1, a[4]))
      else res(o, if ((fl / 256) % 2 == 1) judgeNum(fl, obs, W::value(s.kind, s.size, i), ONE, "window value")
                  else judgeNum(fl, obs, 0, ONE, "window value"))
    if (op == 30) valueAt(s.index, WI::advance(s, 1))
    else if (op == 33) valueAt(s.index + a[0], WI::advance(s, a[0] + 1))
    else if (op == 31) res(at(s), judgeInt(fl, obs, WI::remaining(s), "len"))
    else if (op == 32) res(at(s), judgeInt(fl, obs + M64 * a[4] + M64 * M64 * a[3],
                                  WI::remaining(s) + M64 * WI::remaining(s) + M64 * M64, "size_hint"))
    else if (op == 34) res(at(WI::advance(s, a[0])), judgeInt(fl, obs, min2(a[0], WI::remaining(s)), "values taken"))
    else if (op == 36) res(at(WI::advance(s, s.size)), judgeInt(fl, obs, WI::remaining(s), "values left"))
    else if (op == 38) res(at(WI::advance(s, s.size)), judgeInt(fl, obs, WI::remaining(s), "count"))
    else if (op == 39) {
      if (WI::remaining(s) == 0) res(at(s), verdict(a[4] == 0, "last of none", 0, a[4]))
      else valueAt(s.size - 1, WI::advance(s, s.size))
    }
    else if (op == 37) res(at(s), judgeInt(fl, obs, WI::remaining(s), "len through an adaptor"))
    else if (op == 55) res(at(s), judgeShape(s.kind, q.seen, a[0], fl % 256))
    else res(at(s), verdict(false, "unknown event", 0, op))

  // ---- calls without an object -----------------------------------------------------------------
  pure def free(op: int, fl: int, a: List[int], obs: int): V =
    if (op == 35) {
      // a: kind ty n i x
      if (not(isFiniteBits(a[4]))) {
        // never turned into a number; the rectangular window leaves it alone
        if ((fl / 256) % 2 == 0) skip
        else if (a[0] == 46) verdict(sameBits(obs, a[4]), "apply_window", NF, num(obs))
        else verdict(not(isFiniteBits(obs)), "apply_window", NF, num(obs))
      } else {
        // in units that make x about 1
        val by = 1023 - f64Exp(a[4])
        val x = fxBy(a[4], by)
        judgeBy(by, fl, obs, mul(W::value(a[0], a[2], a[3]), x), abs(x), "apply_window")
      }
    }
    else if (op == 40)
      judgeNum(fl, obs, if (isFiniteBits(a[1])) U::toDb(fx(a[1])) else U::FLOOR_DB, 120 * ONE, "to_db")
    else if (op == 41) {
      val want = if (isFiniteBits(a[1])) U::toSample(fx(a[1])) else 0
      judgeNum(fl, obs, want, 0, "to_sample")
    }
    else if (op == 42) {
      // each in units that make it about 1
      val bx = 1023 - f64Exp(a[1])
      val bg = 1023 - f64Exp(a[2])
      judgeBy(bx + bg, fl, obs, mul(fxBy(a[1], bx), fxBy(a[2], bg)), 0, "apply_gain")
    }
    else if (op == 43) judgeNum(fl, obs, if (a[1] == 0) PI else 2 * ONE, 0, "constant")
    else if (op == 44) judgeNum(fl, obs, if (fx(a[1]) > U::FLOOR_DB) fx(a[1]) else U::FLOOR_DB, 120 * ONE, "to_db(to_sample)")
    else if (op == 45) judgeNum(fl, obs, if (fx(a[1]) > ratio(1, 1000000)) fx(a[1]) else 0, 0, "to_sample(to_db)")
    else verdict(false, "unknown event", 0, op)

  pure def create(kind: int, ty: int, a0: int, a1: int): Obj =
    if (kind == 1) DelayO(DI::newLine(a0, a1))
    else if (kind == 2) LinearO({ s: DL::newLine(delayArg(a0), a1), mag: 0, by: 0, last: 0 })
    else if (kind < 30) FilterO({ kind: kind, f: F::newFilter(kind >= 15), poison: 0, par: noPar, meas: noMeas, by: 0, ty: ty, last: 0 })
    else if (kind < 40) EnvO({ e: E::newEnv(kind), poison: 0, now: 0, by: 0, last: 0 })
    else WinO({ s: WI::newIter(kind, a0), seen: [] })

  pure def objMag(o: Obj): int =
    match o {
      | FilterO(q) => q.f.mag
      | EnvO(q) => max2(q.e.mag, ONE / 2^20)
      | LinearO(q) => q.mag
      | _ => 0
    }

  /** outputs of an object that overflowed or was fed something that is not a number are open */
  pure def objOpen(o: Obj): bool =
    match o {
      | FilterO(q) => q.poison > 0
      | EnvO(q) => q.poison > 0
      | _ => false
    }

  pure def objBy(o: Obj): int =
    match o {
      | FilterO(q) => q.by
      | EnvO(q) => q.by
      | LinearO(q) => q.by
      | _ => 0
    }

  // ---- one event ---------------------------------------------------------------------------------
  pure def stepEvent(st: St, e: int): St =
    val w0 = e % M64
    val op = w0 % 2^16
    val fl = (w0 / 2^16) % 2^32
    val panicked = (w0 / 2^48) % 2 == 1
    val id = word(e, 1)
    val obs = word(e, 7)
    val a = [word(e, 2), word(e, 3), word(e, 4), word(e, 5), word(e, 6)]
    val nst = { ...st, at: st.at + 1, done: st.done + 1, before: obs }
    def judged(s: St, v: V): St =
      if (v.v == 2) { ...s, bad: { at: st.at, op: op, why: v.why, want: v.want, got: v.got } }
      else { ...s, judged: s.judged + v.v, used: max2(s.used, v.used), usedAt: if (v.used > s.used) st.at else s.usedAt }
    if (panicked) judged(nst, verdict(false, "panicked", 0, op))
    else if (op == 1) { ...nst, objs: st.objs.put(id, create(a[0], a[1], a[2], a[3])) }
    // dropped: nothing is known of it any more
    else if (op == 58) { ...nst, objs: st.objs.put(id, NoneO) }
    else if (op == 35 or (op >= 40 and op <= 45)) {
      val v = free(op, fl, a, obs)
      if (v.v != 2 and (fl / 2048) % 2 == 1)
        judged(nst, verdict(num(obs) >= num(st.before) - abs(num(st.before)) / 2^(fl % 256),
                            "order not kept", num(st.before), num(obs)))
      else judged(nst, v)
    }
    else if (op == 50) {
      // two objects fed alike must agree, each in its own units; a[4], obs: their last outputs.
      // a[1]: 0, or 4096 + e for a second one fed 2^e times as much, doubled; its lowest bit: with opposite sign
      val e = if (a[1] / 2 == 0) 0 else a[1] / 2 - 4096
      val y1 = numBy(a[4], objBy(st.objs.get(id)))
      val y0 = numBy(obs, objBy(st.objs.get(a[0])) - e)
      val y2 = if (a[1] % 2 == 1 and y0 != NF) -y0 else y0
      val m = max2(floorOf(objBy(st.objs.get(id))), max2(objMag(st.objs.get(id)), objMag(st.objs.get(a[0]))))
      judged(nst, if (y1 == NF or y2 == NF) verdict(y1 == y2 and ((fl / 8192) % 2 == 1 or objOpen(st.objs.get(id))), "not finite", y1, y2)
                  else closeTo("objects disagree", y1, y2, m, fl % 256))
    }
    else if (op == 54) {
      // the sum of two inputs was fed to the third; a[3], a[4], obs: last outputs
      val by = objBy(st.objs.get(id))
      val y1 = numBy(a[3], by)
      val y2 = numBy(a[4], by)
      val y3 = numBy(obs, by)
      val m = max2(max2(floorOf(by), objMag(st.objs.get(a[1]))), max2(objMag(st.objs.get(id)), objMag(st.objs.get(a[0]))))
      judged(nst, if (objOpen(st.objs.get(id)) or objOpen(st.objs.get(a[0])) or objOpen(st.objs.get(a[1]))) skip
                  else if (y1 == NF or y2 == NF or y3 == NF) verdict(false, "not finite", y1 + y2, y3)
                  else closeTo("not the sum of the responses", y1 + y2, y3, m, fl % 256))
    }
    else {
      val r = match st.objs.get(id) {
        | DelayO(s) => stepDelay(s, op, fl, a, obs)
        | LinearO(q) => stepLinear(q, op, fl, a, obs)
        | FilterO(q) => stepFilter(q, op, fl, a, obs)
        | EnvO(q) => stepEnv(q, op, fl, a, obs)
        | WinO(q) => stepWin(q, op, fl, a, obs)
        | NoneO => res(NoneO, verdict(false, "no such object", 0, id))
      }
      judged({ ...nst, objs: st.objs.put(id, r.o) }, r.v)
    }

  pure def stepPack(st: St, pack: int): St =
    range(0, min2(EVENTS_PER_PACK, EVENTS - st.at)).foldl({ p: pack, st: st }, (s, _) =>
      if (s.st.bad.why != "") s
      else { p: s.p / M512, st: stepEvent(s.st, s.p % M512) }).st

  pure def announce(n: St): St =
    if (q::debug("verdict", { bad: n.bad, judged: n.judged, done: n.done, used: n.used, usedAt: n.usedAt }).done >= 0) n else n

  var i: int
  var st: St
  action init = all {
    i' = 0,
    st' = { objs: Map(), bad: fine, at: 0, judged: 0, done: 0, used: 0, usedAt: 0, before: 0 },
  }
  /** consume the next pack of events; stop at the first one that is not explained */
  action step = all {
    i < PACKS.length(),
    st.bad.why == "",
    val n = stepPack(st, PACKS[i])
    all {
      i' = i + 1,
      // the verdict, for whoever runs this: first unexplained event, counts
      st' = if (i + 1 == PACKS.length() or n.bad.why != "")
              announce(n)
            else n,
    },
  }
  /** every event so far is a step of the specification */
  val explained = st.bad.why == ""
}
