// -*- mode: Bluespec; -*-
/**
 * For all integers: every kind of processor fed C times the samples of another one (same
 * settings) returns C times its outputs, for every input sequence of any length; a detector
 * |C| times (for C = 2 and -8; by repetition for every positive and negative power of two). `scaled` relates the states of the two; it is inductive (Apalache, unbounded
 * integers). Covered at once: the direct biquad (all basic structures are special cases), the
 * transposed one (all cookbook filters), the interpolation of a fractional delay line between
 * two stored samples, the integrator and the peak detector. The last two divide by UNIT; they
 * are followed only where this leaves no rest, so that the arithmetic is exact.
 */
module mc_scale_ind {
  const C: int
  pure val UNIT = 2^4

  var cf: { b0: int, b1: int, b2: int, a1: int, a2: int }
  var g: { rise: int, fall: int }
  type S = { x1: int, x2: int, y1: int, y2: int, z1: int, z2: int, w: int, e: int, p: int }
  var s: S
  var t: S
  /** the outputs were not in proportion */
  var broken: bool

  pure def mag(v: int): int = if (v < 0) -v else v
  pure def times(k: int, u: S): S =
    { x1: k * u.x1, x2: k * u.x2, y1: k * u.y1, y2: k * u.y2, z1: k * u.z1, z2: k * u.z2, w: k * u.w,
      e: k * u.e, p: mag(k) * u.p }

  val scaled = and { not(broken), t == times(C, s), s.p >= 0,
                     0 <= g.rise, g.rise < UNIT, 0 <= g.fall, g.fall < UNIT }

  pure val silent: S = { x1: 0, x2: 0, y1: 0, y2: 0, z1: 0, z2: 0, w: 0, e: 0, p: 0 }
  action settings = {
    nondet b0 = Int.oneOf()
    nondet b1 = Int.oneOf()
    nondet b2 = Int.oneOf()
    nondet a1 = Int.oneOf()
    nondet a2 = Int.oneOf()
    nondet up = Int.oneOf()
    nondet down = Int.oneOf()
    all {
      0 <= up, up < UNIT, 0 <= down, down < UNIT,
      cf' = { b0: b0, b1: b1, b2: b2, a1: a1, a2: a2 }, g' = { rise: up, fall: down },
    }
  }
  action init = {
    nondet b0 = Int.oneOf()
    nondet b1 = Int.oneOf()
    nondet b2 = Int.oneOf()
    nondet a1 = Int.oneOf()
    nondet a2 = Int.oneOf()
    nondet up = Int.oneOf()
    nondet down = Int.oneOf()
    all {
      0 <= up, up < UNIT, 0 <= down, down < UNIT,
      cf' = { b0: b0, b1: b1, b2: b2, a1: a1, a2: a2 }, g' = { rise: up, fall: down },
      s' = silent, t' = silent, broken' = false,
    }
  }
  action anyScaled = {
    nondet b0 = Int.oneOf()
    nondet b1 = Int.oneOf()
    nondet b2 = Int.oneOf()
    nondet a1 = Int.oneOf()
    nondet a2 = Int.oneOf()
    nondet up = Int.oneOf()
    nondet down = Int.oneOf()
    nondet x1 = Int.oneOf()
    nondet x2 = Int.oneOf()
    nondet y1 = Int.oneOf()
    nondet y2 = Int.oneOf()
    nondet z1 = Int.oneOf()
    nondet z2 = Int.oneOf()
    nondet w = Int.oneOf()
    nondet e = Int.oneOf()
    nondet p = Int.oneOf()
    val u = { x1: x1, x2: x2, y1: y1, y2: y2, z1: z1, z2: z2, w: w, e: e, p: p }
    all {
      0 <= up, up < UNIT, 0 <= down, down < UNIT, p >= 0,
      cf' = { b0: b0, b1: b1, b2: b2, a1: a1, a2: a2 }, g' = { rise: up, fall: down },
      s' = u, t' = times(C, u), broken' = false,
    }
  }
  pure def direct(h: { b0: int, b1: int, b2: int, a1: int, a2: int }, u: S, x: int): int =
    h.b0 * x + h.b1 * u.x1 + h.b2 * u.x2 - h.a1 * u.y1 - h.a2 * u.y2

  action filters = {
    nondet x = Int.oneOf()
    val d1 = direct(cf, s, x)
    val d2 = direct(cf, t, C * x)
    val t1 = cf.b0 * x + s.z1
    val t2 = cf.b0 * C * x + t.z1
    all {
      s' = { ...s, x1: x, x2: s.x1, y1: d1, y2: s.y1, z1: cf.b1 * x + s.z2 - cf.a1 * t1, z2: cf.b2 * x - cf.a2 * t1 },
      t' = { ...t, x1: C * x, x2: t.x1, y1: d2, y2: t.y1, z1: cf.b1 * C * x + t.z2 - cf.a1 * t2, z2: cf.b2 * C * x - cf.a2 * t2 },
      broken' = or { d2 != C * d1, t2 != C * t1 },
      cf' = cf, g' = g,
    }
  }
  /** the second of two neighbours becomes the first; the weight is anything */
  action line = {
    nondet x = Int.oneOf()
    nondet a = Int.oneOf()
    all {
      0 <= a, a < UNIT,
      s' = { ...s, w: x }, t' = { ...t, w: C * x },
      broken' = ((UNIT - a) * C * x + a * t.w != C * ((UNIT - a) * x + a * s.w)),
      cf' = cf, g' = g,
    }
  }
  action followers = {
    nondet x = Int.oneOf()
    nondet e1 = Int.oneOf()
    nondet p1 = Int.oneOf()
    val u = mag(x)
    val v = mag(C * x)
    val gs = if (s.p < u) g.rise else g.fall
    val gt = if (t.p < v) g.rise else g.fall
    all {
      UNIT * e1 == UNIT * x + g.rise * (s.e - x),
      UNIT * p1 == UNIT * u + gs * (s.p - u),
      s' = { ...s, e: e1, p: p1 }, t' = { ...t, e: C * e1, p: mag(C) * p1 },
      // what the other one computes
      broken' = or { UNIT * C * e1 != UNIT * C * x + g.rise * (t.e - C * x),
                     UNIT * mag(C) * p1 != UNIT * v + gt * (t.p - v) },
      cf' = cf, g' = g,
    }
  }
  action resetting = all { settings, s' = silent, t' = silent, broken' = false }
  action step = any { filters, line, followers, resetting }
}
module mc_scale_ind_double { import mc_scale_ind(C = 2).* }
module mc_scale_ind_down { import mc_scale_ind(C = -8).* }
