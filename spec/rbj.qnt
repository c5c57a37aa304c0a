// -*- mode: Bluespec; -*-
/**
 * The "RBJ Audio EQ Cookbook" designs (rasp::filter::rbj) as transfer functions
 *   H(z) = (b0 + b1 z^-1 + b2 z^-2) / (1 + a1 z^-1 + a2 z^-2)
 * and the landmarks of their frequency responses.
 * Kinds: 20 low-pass, 21 high-pass, 22 band-pass (peak gain Q), 23 band-pass
 * (0 dB peak), 24 band-stop, 25 low-shelf, 26 high-shelf, 27 all-pass, 28 peak.
 */
module rbj {
  import num.* from "./num"

  type Coefs = { b0: int, b1: int, b2: int, a1: int, a2: int }

  pure def omega(sr: int, f0: int): int = div(mul(2 * PI, f0), sr)

  /** p is Q, or the shelf slope for the shelves; db the gain in decibels */
  pure def design(kind: int, sr: int, f0: int, db: int, p: int): Coefs =
    val w0 = omega(sr, f0)
    val c = cos(w0)
    val s = sin(w0)
    val shelf = kind == 25 or kind == 26
    val A = if (shelf or kind == 28) pow10(tdiv(db, 40)) else ONE
    val alpha =
      if (shelf) mul(s / 2, sqrt(mul(A + div(ONE, A), div(ONE, p) - ONE) + 2 * ONE))
      else div(s, 2 * p)
    val g = mul(2 * sqrt(A), alpha)
    val n =
      if (kind == 20) { b0: (ONE - c) / 2, b1: ONE - c, b2: (ONE - c) / 2,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else if (kind == 21) { b0: (ONE + c) / 2, b1: -(ONE + c), b2: (ONE + c) / 2,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else if (kind == 22) { b0: s / 2, b1: 0, b2: -s / 2,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else if (kind == 23) { b0: alpha, b1: 0, b2: -alpha,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else if (kind == 24) { b0: ONE, b1: -2 * c, b2: ONE,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else if (kind == 25) {
        b0: mul(A, (A + ONE) - mul(A - ONE, c) + g),
        b1: 2 * mul(A, (A - ONE) - mul(A + ONE, c)),
        b2: mul(A, (A + ONE) - mul(A - ONE, c) - g),
        a0: (A + ONE) + mul(A - ONE, c) + g,
        a1: -2 * ((A - ONE) + mul(A + ONE, c)),
        a2: (A + ONE) + mul(A - ONE, c) - g }
      else if (kind == 26) {
        b0: mul(A, (A + ONE) + mul(A - ONE, c) + g),
        b1: -2 * mul(A, (A - ONE) + mul(A + ONE, c)),
        b2: mul(A, (A + ONE) + mul(A - ONE, c) - g),
        a0: (A + ONE) - mul(A - ONE, c) + g,
        a1: 2 * ((A - ONE) - mul(A + ONE, c)),
        a2: (A + ONE) - mul(A - ONE, c) - g }
      else if (kind == 27) { b0: ONE - alpha, b1: -2 * c, b2: ONE + alpha,
                        a0: ONE + alpha, a1: -2 * c, a2: ONE - alpha }
      else { b0: ONE + mul(alpha, A), b1: -2 * c, b2: ONE - mul(alpha, A),
             a0: ONE + div(alpha, A), a1: -2 * c, a2: ONE - div(alpha, A) }
    { b0: div(n.b0, n.a0), b1: div(n.b1, n.a0), b2: div(n.b2, n.a0),
      a1: div(n.a1, n.a0), a2: div(n.a2, n.a0) }

  // ---- what each design is for: gain at three landmark frequencies ------------
  /** linear gain at DC */
  pure def gainDC(kind: int, db: int): int =
    if (kind == 21 or kind == 22 or kind == 23) 0
    else if (kind == 25) pow10(tdiv(db, 20))
    else ONE
  /** linear gain at half the sample rate */
  pure def gainNyquist(kind: int, db: int): int =
    if (kind == 20 or kind == 22 or kind == 23) 0
    else if (kind == 26) pow10(tdiv(db, 20))
    else ONE
  /** linear gain at the design frequency */
  pure def gainCenter(kind: int, db: int, p: int): int =
    if (kind == 20 or kind == 21 or kind == 22) p
    else if (kind == 23 or kind == 27) ONE
    else if (kind == 24) 0
    else if (kind == 28) pow10(tdiv(db, 20))
    else pow10(tdiv(db, 40))

  /** squared magnitude of num/den given as complex pairs */
  pure def sq(re: int, im: int): int = mul(re, re) + mul(im, im)
  pure def gain2(h: Coefs, w: int): int =
    val c1 = cos(w)
    val s1 = sin(w)
    val c2 = cos(2 * w)
    val s2 = sin(2 * w)
    div(sq(h.b0 + mul(h.b1, c1) + mul(h.b2, c2), mul(h.b1, s1) + mul(h.b2, s2)),
        sq(ONE + mul(h.a1, c1) + mul(h.a2, c2), mul(h.a1, s1) + mul(h.a2, s2)))

  /** both poles strictly inside the unit circle */
  pure def stable(h: Coefs): bool =
    abs(h.a2) < ONE and abs(h.a1) < ONE + h.a2
}
