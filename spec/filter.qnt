// -*- mode: Bluespec; -*-
/**
 * Recursive filters (rasp::filter), as difference equations.
 *
 * One record covers all six structures: the coefficients (those a structure
 * does not have stay 0), the two previous inputs and outputs, and, for the
 * transposed structure, its two state words. UNIT is the fixed-point one.
 * `now` is the magnitude of the terms added up for the latest output and `mag`
 * the largest so far (used to judge floating-point observations, never to
 * compute an output).
 */
module filter {
  const UNIT: int

  type Filt = { b0: int, b1: int, b2: int, a1: int, a2: int,
                x1: int, x2: int, y1: int, y2: int, z1: int, z2: int,
                transposed: bool, out: int, mag: int, now: int }

  pure def fabs(a: int): int = if (a < 0) -a else a
  pure def fmax(a: int, b: int): int = if (a < b) b else a
  /** product of two fixed-point numbers, rounded towards zero */
  pure def fmul(a: int, b: int): int =
    val p = a * b
    if (p < 0) -((-p) / UNIT) else p / UNIT

  /** a new filter does not alter its input */
  pure def newFilter(transposed: bool): Filt =
    { b0: UNIT, b1: 0, b2: 0, a1: 0, a2: 0, x1: 0, x2: 0, y1: 0, y2: 0, z1: 0, z2: 0,
      transposed: transposed, out: 0, mag: 0, now: 0 }

  pure def setCoefs(s: Filt, b0: int, b1: int, b2: int, a1: int, a2: int): Filt =
    { ...s, b0: b0, b1: b1, b2: b2, a1: a1, a2: a2 }

  pure def clear(s: Filt): Filt =
    { ...s, x1: 0, x2: 0, y1: 0, y2: 0, z1: 0, z2: 0, out: 0, mag: 0, now: 0 }

  /** y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] */
  pure def processDirect(s: Filt, x: int): Filt =
    val t0 = fmul(s.b0, x)
    val t1 = fmul(s.b1, s.x1)
    val t2 = fmul(s.b2, s.x2)
    val t3 = fmul(s.a1, s.y1)
    val t4 = fmul(s.a2, s.y2)
    val y = t0 + t1 + t2 - t3 - t4
    val m = fabs(t0) + fabs(t1) + fabs(t2) + fabs(t3) + fabs(t4)
    { ...s, x2: s.x1, x1: x, y2: s.y1, y1: y, out: y, now: m, mag: fmax(s.mag, m) }

  /** y[n] = b0 x[n] + w1;  w1' = b1 x[n] + w2 - a1 y[n];  w2' = b2 x[n] - a2 y[n] */
  pure def processTransposed(s: Filt, x: int): Filt =
    val y = fmul(s.b0, x) + s.z1
    val p1 = fmul(s.b1, x)
    val p2 = fmul(s.a1, y)
    val p3 = fmul(s.b2, x)
    val p4 = fmul(s.a2, y)
    val m = fabs(y) + fabs(s.z1) + fabs(p1) + fabs(p2) + fabs(p3) + fabs(p4)
    { ...s, z1: p1 + s.z2 - p2, z2: p3 - p4, out: y, now: m, mag: fmax(s.mag, m) }

  pure def process(s: Filt, x: int): Filt =
    if (s.transposed) processTransposed(s, x) else processDirect(s, x)

  /** a and b are the same state up to 2^-90 of the unit */
  pure def settled(a: Filt, b: Filt): bool =
    val d = UNIT / 2^90
    and {
      fabs(a.x1 - b.x1) <= d, fabs(a.x2 - b.x2) <= d, fabs(a.y1 - b.y1) <= d, fabs(a.y2 - b.y2) <= d,
      fabs(a.z1 - b.z1) <= d, fabs(a.z2 - b.z2) <= d, fabs(a.out - b.out) <= d,
    }

  /** n times process(x); a state that repeats itself is not followed any further */
  pure def processMany(s: Filt, n: int, x: int): Filt =
    val most = range(0, n / 500).foldl({ f: s, done: false }, (r, _) =>
      if (r.done) r
      else {
        val a = range(0, 500).foldl(r.f, (q, _) => process(q, x))
        { f: a, done: settled(a, process(a, x)) }
      })
    if (most.done) most.f else range(0, n % 500).foldl(most.f, (q, _) => process(q, x))
}
