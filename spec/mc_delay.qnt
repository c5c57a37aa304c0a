// -*- mode: Bluespec; -*-
/**
 * Design model of the delay lines: the ring buffer that rasp uses (memory,
 * write pointer, read pointer, interpolation weights, cached next output)
 * driven in lockstep with the user-level specification of delay.qnt.
 *
 * Every named action is one public call. `last` is the call just made; it makes
 * each state of the graph name the transition that led to it, which is what the
 * conformance driver replays against the real crate.
 *
 * REORDER / INVALIDATE select the design of the repaired code (true) or of the
 * code as found (false): with either off, TLC finds the defect (DESIGN.md).
 */
module mc_delay {
  const FDEN: int          // 1: Delay, 2: LinearDelay in half samples
  const VALS: Set[int]     // sample values (multiples of FDEN, so exact)
  const CAPS: Set[int]     // capacities max_delay
  const MAXCAP: int        // growth stops here
  const DELAYS: Set[int]   // requested delays, in 1/FDEN samples
  const MAXV: int          // bound for add_to sums
  const REORDER: bool
  const INVALIDATE: bool

  import delay(FDEN = FDEN) as D from "./delay"

  type Ring = { mem: List[int], w: int, r: int, alpha: int, delay: int, out: int,
                stale: bool, cache: int }
  var ring: Ring
  var line: D::Line
  var last: { op: str, a: int, b: int }

  // ---- the ring buffer, as implemented --------------------------------------
  pure def len(g: Ring): int = g.mem.length()

  pure def ringSetDelay(g: Ring, d: int): Ring =
    val lim = (g.len() - 1) * FDEN
    val dt = if (d > lim) lim else if (d < 0) 0 else d
    val pos0 = g.w * FDEN - dt
    val pos = if (pos0 < 0) pos0 + g.len() * FDEN else pos0
    { ...g, delay: dt, r: pos / FDEN, alpha: pos % FDEN,
      stale: if (INVALIDATE) true else g.stale }

  pure def ringNew(d: int, cap: int): Ring =
    { mem: D::zeros(cap + 1), w: 0, r: 0, alpha: 0, delay: 0, out: 0, stale: true, cache: 0 }
      .ringSetDelay(d)

  pure def interp(g: Ring): int =
    ((FDEN - g.alpha) * g.mem[g.r] + g.alpha * g.mem[(g.r + 1) % g.len()]) / FDEN

  pure def ringPeek(g: Ring): Ring =
    if (g.stale) { ...g, cache: interp(g), stale: false } else g

  pure def ringProcess(g: Ring, x: int): Ring =
    val g1 = { ...g, mem: g.mem.replaceAt(g.w, x), w: (g.w + 1) % g.len(),
               stale: if (INVALIDATE) true else g.stale }
    val g2 = ringPeek(g1)
    { ...g2, out: g2.cache, stale: true, r: (g2.r + 1) % g2.len() }

  pure def ringGrow(g: Ring, m: int): Ring =
    if (m < g.len()) g
    else
      val added = m + 1 - g.len()
      if (REORDER)
        { ...g, mem: g.mem.slice(0, g.w).concat(D::zeros(added)).concat(g.mem.slice(g.w, g.len())) }
          .ringSetDelay(g.delay)
      else { ...g, mem: g.mem.concat(D::zeros(added)) }

  pure def ringClear(g: Ring): Ring =
    { ...g, mem: D::zeros(g.len()), out: 0, stale: if (INVALIDATE) true else g.stale }

  pure def tapIndex(g: Ring, t: int): int = (g.w - t - 1 + 2 * g.len()) % g.len()
  pure def ringTapIn(g: Ring, t: int, v: int): Ring =
    { ...g, mem: g.mem.replaceAt(g.tapIndex(t), v), stale: if (INVALIDATE) true else g.stale }

  // ---- the state machine ------------------------------------------------------
  action init = {
    nondet cap = CAPS.oneOf()
    nondet d = DELAYS.oneOf()
    all {
      ring' = ringNew(d, cap),
      line' = D::newLine(d, cap),
      last' = { op: "new", a: d, b: cap },
    }
  }

  action call(op: str, a: int, b: int, g: Ring, s: D::Line): bool =
    all { ring' = g, line' = D::trim(s), last' = { op: op, a: a, b: b } }

  action doProcess = {
    nondet x = VALS.oneOf()
    call("process", x, 0, ringProcess(ring, x), D::process(line, x))
  }
  action doSetDelay = {
    nondet d = DELAYS.oneOf()
    call("set_delay", d, 0, ringSetDelay(ring, d), D::setDelay(line, d))
  }
  action doSetMaxDelay = {
    nondet m = CAPS.oneOf()
    all { m <= MAXCAP, call("set_max_delay", m, 0, ringGrow(ring, m), D::setMaxDelay(line, m)) }
  }
  action doClear = call("clear", 0, 0, ringClear(ring), D::clear(line))
  action doNextOut = call("next_out", 0, 0, ringPeek(ring), line)
  action doTapIn = {
    nondet t = 0.to(MAXCAP).oneOf()
    nondet v = VALS.oneOf()
    all { t <= line.cap, call("tap_in", t, v, ringTapIn(ring, t, v), D::tapIn(line, t, v)) }
  }
  action doAddTo = {
    nondet t = 0.to(MAXCAP).oneOf()
    nondet v = VALS.oneOf()
    all {
      t <= line.cap,
      D::tapOut(line, t) + v <= MAXV,
      call("add_to", t, v, ringTapIn(ring, t, ring.mem[ring.tapIndex(t)] + v), D::addTo(line, t, v)),
    }
  }
  action step = any { doProcess, doSetDelay, doSetMaxDelay, doClear, doNextOut, doTapIn, doAddTo }

  // ---- properties ---------------------------------------------------------------
  /** C01/C02: outputs are those of the user-level delay line */
  val outOk = ring.out == line.out
  /** C03: reported settings, clipped */
  val settingsOk = and {
    ring.delay == line.delay, ring.len() - 1 == line.cap,
    line.delay >= 0, line.delay <= line.cap * FDEN,
    line.delay == 0 or line.delay <= ring.delay,
  }
  /** C04/C05: every reachable sample sits where the taps look for it */
  val storeOk = 0.to(line.cap).forall(t => ring.mem[ring.tapIndex(t)] == D::tapOut(line, t))
  /** C06: asking first, or not asking, never changes what comes next */
  val peekOk = VALS.forall(x => and {
    ringProcess(ringPeek(ring), x).out == ringProcess(ring, x).out,
    D::predictable(line) implies and {
      ringPeek(ring).cache == D::nextOut(line),
      ringProcess(ring, x).out == D::nextOut(line),
    },
  })
  /** the read pointer trails the write pointer by exactly the delay in effect */
  val pointersOk =
    (ring.w * FDEN - ring.r * FDEN - ring.alpha - ring.delay) % (ring.len() * FDEN) == 0
  /** C09: clearing is indistinguishable from a fresh line with the same settings */
  val clearOk = and {
    D::clear(line) == D::newLine(line.delay, line.cap),
    ringProcess(ringClear(ring), 1 * FDEN).out == D::process(D::newLine(line.delay, line.cap), 1 * FDEN).out,
  }
  val allOk = and { outOk, settingsOk, storeOk, peekOk, pointersOk, clearOk }
}

/** exhaustive: integer line, capacities 0..3 */
module mc_delay_int {
  import mc_delay(FDEN = 1, VALS = Set(0, 1, 2), CAPS = Set(0, 1, 2, 3), MAXCAP = 3,
    DELAYS = Set(0, 1, 2, 3, 7), MAXV = 2, REORDER = true, INVALIDATE = true).*
}
/** exhaustive: interpolating line in half samples, capacities 0..2 */
module mc_delay_lin {
  import mc_delay(FDEN = 2, VALS = Set(0, 2, 4), CAPS = Set(0, 1, 2), MAXCAP = 2,
    DELAYS = Set(-3, 0, 1, 2, 3, 4, 9), MAXV = 4, REORDER = true, INVALIDATE = true).*
}
/** the same, small enough for every change */
module mc_delay_int_small {
  import mc_delay(FDEN = 1, VALS = Set(0, 1, 2), CAPS = Set(0, 1, 2), MAXCAP = 2,
    DELAYS = Set(0, 1, 2, 7), MAXV = 2, REORDER = true, INVALIDATE = true).*
}
module mc_delay_lin_small {
  import mc_delay(FDEN = 2, VALS = Set(0, 2), CAPS = Set(0, 1, 2), MAXCAP = 2,
    DELAYS = Set(-3, 0, 1, 2, 3, 4, 9), MAXV = 2, REORDER = true, INVALIDATE = true).*
}
/** replayed transition by transition against the crate (smaller alphabets) */
module mc_delay_int_replay {
  import mc_delay(FDEN = 1, VALS = Set(0, 1), CAPS = Set(1, 2), MAXCAP = 2,
    DELAYS = Set(0, 1, 2, 5), MAXV = 1, REORDER = true, INVALIDATE = true).*
}
module mc_delay_lin_replay {
  import mc_delay(FDEN = 2, VALS = Set(0, 2), CAPS = Set(1, 2), MAXCAP = 2,
    DELAYS = Set(0, 1, 2, 3, 7), MAXV = 2, REORDER = true, INVALIDATE = true).*
}
/** the design as found: growth appends at the end of the buffer */
module mc_delay_asfound_grow {
  import mc_delay(FDEN = 1, VALS = Set(0, 1), CAPS = Set(1, 2), MAXCAP = 2,
    DELAYS = Set(0, 1, 2), MAXV = 1, REORDER = false, INVALIDATE = true).*
}
/** the design as found: the cached next output survives later calls */
module mc_delay_asfound_cache {
  import mc_delay(FDEN = 2, VALS = Set(0, 2), CAPS = Set(1, 2), MAXCAP = 2,
    DELAYS = Set(0, 1, 2, 3), MAXV = 2, REORDER = true, INVALIDATE = false).*
}
