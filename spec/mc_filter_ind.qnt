// -*- mode: Bluespec; -*-
/**
 * For all integers: the direct and the transposed biquad with the same constant
 * coefficients produce the same outputs, for every input sequence of any length.
 * `related` is inductive; Apalache checks base case and step over unbounded integers
 * (a polynomial identity, so it holds for real coefficients and samples alike).
 */
module mc_filter_ind {
  var b0: int
  var b1: int
  var b2: int
  var a1: int
  var a2: int
  var x1: int
  var x2: int
  var y1: int
  var y2: int
  var z1: int
  var z2: int
  var yd: int
  var yt: int

  val related = and {
    z1 == b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2,
    z2 == b2 * x1 - a2 * y1,
    yd == yt,
  }
  action init = {
    nondet c0 = Int.oneOf()
    nondet c1 = Int.oneOf()
    nondet c2 = Int.oneOf()
    nondet d1 = Int.oneOf()
    nondet d2 = Int.oneOf()
    all {
      b0' = c0, b1' = c1, b2' = c2, a1' = d1, a2' = d2,
      x1' = 0, x2' = 0, y1' = 0, y2' = 0, z1' = 0, z2' = 0, yd' = 0, yt' = 0,
    }
  }
  /** any state in the relation */
  action anyRelated = {
    nondet c0 = Int.oneOf()
    nondet c1 = Int.oneOf()
    nondet c2 = Int.oneOf()
    nondet d1 = Int.oneOf()
    nondet d2 = Int.oneOf()
    nondet p1 = Int.oneOf()
    nondet p2 = Int.oneOf()
    nondet q1 = Int.oneOf()
    nondet q2 = Int.oneOf()
    nondet o = Int.oneOf()
    all {
      b0' = c0, b1' = c1, b2' = c2, a1' = d1, a2' = d2,
      x1' = p1, x2' = p2, y1' = q1, y2' = q2,
      z1' = c1 * p1 + c2 * p2 - d1 * q1 - d2 * q2, z2' = c2 * p1 - d2 * q1,
      yd' = o, yt' = o,
    }
  }
  /** one sample through both realizations (the equations of filter.qnt, UNIT = 1) */
  action step = {
    nondet x = Int.oneOf()
    val d = b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2
    val t = b0 * x + z1
    all {
      yd' = d, yt' = t,
      x2' = x1, x1' = x, y2' = y1, y1' = d,
      z1' = b1 * x + z2 - a1 * t, z2' = b2 * x - a2 * t,
      b0' = b0, b1' = b1, b2' = b2, a1' = a1, a2' = a2,
    }
  }
}
