// -*- mode: Bluespec; -*-
/**
 * Numeric properties of the specification itself, evaluated in exact-ish fixed
 * point on parameters drawn by the simulator (quint run): window shapes, the
 * frequency responses of the cookbook designs, level conversions.
 */
module mc_shape {
  import num.* from "./num"
  import window as W from "./window"
  import rbj as R from "./rbj"
  import decibel as U from "./decibel"

  pure def close(a: int, b: int): bool = abs(a - b) <= ONE / 2^60 + (abs(a) + abs(b)) / 2^60

  // ---- windows --------------------------------------------------------------------
  var win: { kind: int, n: int, i: int }
  // ---- designs --------------------------------------------------------------------
  var dsn: { kind: int, f0: int, db: int, p: int }
  // ---- levels -----------------------------------------------------------------------
  var lev: { a: int, b: int }

  action draw = {
    nondet k = 40.to(45).oneOf()
    nondet n = 2.to(3000).oneOf()
    nondet i = 0.to(3000).oneOf()
    nondet ek = 20.to(28).oneOf()
    nondet f = 1.to(999).oneOf()
    nondet db = (-300).to(300).oneOf()
    nondet p = 1.to(100).oneOf()
    nondet a = (-1400).to(1400).oneOf()
    nondet b = (-1400).to(1400).oneOf()
    all {
      win' = { kind: k, n: n, i: i % n },
      // f0 in thousandths of half a sample rate of 2; p in tenths (slope: hundredths)
      dsn' = { kind: ek, f0: ratio(f, 1000), db: ratio(db, 10),
              p: if (ek == 25 or ek == 26) ratio(p, 100) else ratio(p, 10) },
      lev' = { a: ratio(a, 10), b: ratio(b, 10) },
    }
  }
  action init = draw
  action step = draw

  /** C22: symmetric, within [0, 1] (Blackman touches zero), peak in the middle */
  val symmetric = close(W::value(win.kind, win.n, win.i), W::value(win.kind, win.n, win.n - 1 - win.i))
  val inRange =
    val v = W::value(win.kind, win.n, win.i)
    v >= -ONE / 2^60 and v <= ONE + ONE / 2^60
  val peaked = win.n % 2 == 1 implies
    (if (win.kind == 40) close(W::value(40, win.n, win.n / 2), ONE)
     else close(W::value(win.kind, win.n, (win.n - 1) / 2), ONE))
  /** C22: rising to the middle */
  val rising = (2 * (win.i + 1) < win.n) implies
    W::value(win.kind, win.n, win.i) <= W::value(win.kind, win.n, win.i + 1) + ONE / 2^60
  /** C22: overlapped by half (odd sizes), Bartlett and Hann add up to one, Hamming to 1.08 */
  val overlapAdd =
    val h = (win.n - 1) / 2
    (win.n % 2 == 1 and win.i < h) implies and {
      close(W::value(41, win.n, win.i) + W::value(41, win.n, win.i + h), ONE),
      close(W::value(42, win.n, win.i) + W::value(42, win.n, win.i + h), ONE),
      close(W::value(43, win.n, win.i) + W::value(43, win.n, win.i + h), ratio(108, 100)),
    }
  val windowsOk = and { symmetric, inRange, peaked, rising, overlapAdd }

  /** C13: landmark gains and stability of every design */
  pure def sqv(a: int): int = mul(a, a)
  pure def near2(a: int, b: int): bool = abs(a - b) <= (max2(ONE, max2(a, b))) / 2^50
  val designsOk =
    val h = R::design(dsn.kind, 2 * ONE, dsn.f0, dsn.db, dsn.p)
    and {
      R::stable(h),
      near2(R::gain2(h, 0), sqv(R::gainDC(dsn.kind, dsn.db))),
      near2(R::gain2(h, PI), sqv(R::gainNyquist(dsn.kind, dsn.db))),
      near2(R::gain2(h, R::omega(2 * ONE, dsn.f0)), sqv(R::gainCenter(dsn.kind, dsn.db, dsn.p))),
    }
  /** C24: conversions are inverse to each other above the floor, and monotone */
  val levelsOk = and {
    U::toDb(U::toSample(lev.a)) >= U::FLOOR_DB,
    lev.a > U::FLOOR_DB implies close(U::toDb(U::toSample(lev.a)), lev.a),
    lev.a <= U::FLOOR_DB implies and { U::toSample(lev.a) == 0, U::toDb(U::toSample(lev.a)) == U::FLOOR_DB },
    lev.a <= lev.b implies U::toSample(lev.a) <= U::toSample(lev.b) + ONE / 2^90,
    lev.a <= lev.b implies U::toDb(U::toSample(lev.a)) <= U::toDb(U::toSample(lev.b)) + ONE / 2^60,
  }
  val allOk = and { windowsOk, designsOk, levelsOk }
}
