// -*- mode: Bluespec; -*-
/**
 * Numbers of the specification.
 *
 * A real number r is represented by the integer floor-ish(r * ONE), ONE = 2^128
 * ("fixed point"). Quint integers are unbounded, so neither overflow nor
 * rounding error (below 2^-120) is of the order of anything an f32 or f64
 * implementation can show. The elementary functions that rasp's documentation
 * refers to (cos, exp, log10, 10^x, sqrt) are defined here from their series.
 */
module num {
  pure val ONE: int = 2^128
  pure val PI:   int = 1069028584064966747859680373161870783300
  pure val LN2:  int = 235865763225513294137944142764154484399
  pure val LN10: int = 783529105480883066805338482703447369891

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max2(a: int, b: int): int = if (a < b) b else a
  pure def min2(a: int, b: int): int = if (a < b) a else b

  /** division rounding towards zero on every back end */
  pure def tdiv(a: int, b: int): int =
    if (a < 0) (if (b < 0) (-a) / (-b) else -((-a) / b))
    else (if (b < 0) -(a / (-b)) else a / b)

  pure def mul(a: int, b: int): int = tdiv(a * b, ONE)
  pure def div(a: int, b: int): int = tdiv(a * ONE, b)
  pure def fromInt(n: int): int = n * ONE
  /** the rational n/d */
  pure def ratio(n: int, d: int): int = tdiv(n * ONE, d)

  /** number of bits of a > 0, for a < 2^2048 */
  pure def bitLen(a: int): int =
    [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
      .foldl({ v: a, n: 0 }, (s, k) =>
        if (s.v >= 2^k) { v: s.v / 2^k, n: s.n + k } else s).n + 1

  /** floor of the square root of the integer a >= 0 */
  pure def isqrt(a: int): int =
    if (a <= 0) 0
    else range(0, 12).foldl(2^((bitLen(a) + 1) / 2), (x, _) =>
      val y = (x + a / x) / 2
      if (y < x) y else x)

  pure def sqrt(a: int): int = isqrt(a * ONE)

  /** a modulo 2*PI, in (-PI, PI] */
  pure def reduceAngle(x: int): int =
    val t = 2 * PI
    val r = x - t * tdiv(x, t)
    if (r > PI) r - t else if (r <= -PI) r + t else r

  pure def cos(x: int): int =
    val r = reduceAngle(x)
    val x2 = mul(r, r)
    range(1, 30).foldl({ t: ONE, s: ONE }, (a, k) =>
      val t = -tdiv(a.t * x2, ONE * ((2 * k - 1) * (2 * k)))
      { t: t, s: a.s + t }).s

  pure def sin(x: int): int =
    val r = reduceAngle(x)
    val x2 = mul(r, r)
    range(1, 30).foldl({ t: r, s: r }, (a, k) =>
      val t = -tdiv(a.t * x2, ONE * ((2 * k) * (2 * k + 1)))
      { t: t, s: a.s + t }).s

  /** e^x, for x below 500 or so */
  pure def exp(x: int): int =
    val n = tdiv(x, LN2)
    val r = x - n * LN2
    val e = range(1, 34).foldl({ t: ONE, s: ONE }, (a, k) =>
      val t = tdiv(a.t * r, ONE * k)
      { t: t, s: a.s + t }).s
    if (n >= 0) e * 2^n else if (n < -400) 0 else e / 2^(-n)

  /** natural logarithm of x > 0 */
  pure def ln(x: int): int =
    val e = bitLen(x) - 129
    // m in [1, 2)
    val m = if (e >= 0) x / 2^e else x * 2^(-e)
    val z = div(m - ONE, m + ONE)
    val z2 = mul(z, z)
    val s = range(1, 42).foldl({ t: z, s: z }, (a, k) =>
      val t = mul(a.t, z2)
      { t: t, s: a.s + tdiv(t, 2 * k + 1) }).s
    e * LN2 + 2 * s

  pure def log10(x: int): int = div(ln(x), LN10)
  pure def pow10(x: int): int = exp(mul(x, LN10))

  // ---- IEEE-754 binary64 bit patterns -------------------------------------
  pure def f64Sign(b: int): int = b / 2^63
  pure def f64Exp(b: int): int = (b / 2^52) % 2048
  pure def f64Man(b: int): int = b % 2^52
  pure def isFiniteBits(b: int): bool = f64Exp(b) != 2047
  pure def isNanBits(b: int): bool = f64Exp(b) == 2047 and f64Man(b) != 0
  pure def isNegBits(b: int): bool = f64Sign(b) == 1
  /** the value of a finite bit pattern times 2^by, to within 2^-128 */
  pure def fxBy(b: int, by: int): int =
    val e = f64Exp(b)
    val m = if (e == 0) f64Man(b) else f64Man(b) + 2^52
    // value = m * 2^(max(e,1) - 1075); scaled by 2^128
    val k = (if (e == 0) 1 else e) - 1075 + 128 + by
    val v = if (k >= 0) m * 2^k else m / 2^(-k)
    if (isNegBits(b)) -v else v
  pure def fx(b: int): int = fxBy(b, 0)

  // ---- self tests (quint test) ---------------------------------------------
  pure def near(a: int, b: int, bits: int): bool = abs(a - b) <= ONE / 2^bits
  pure def atanInv(n: int): int =
    range(1, 120).foldl({ t: ONE / n, s: ONE / n }, (a, k) =>
      val t = -tdiv(a.t, n * n)
      { t: t, s: a.s + tdiv(t, 2 * k + 1) }).s

  run piTest = assert(near(PI, 4 * (4 * atanInv(5) - atanInv(239)), 115))
  run ln2Test = assert(and {
    near(exp(LN2), 2 * ONE, 115),
    near(exp(LN10), 10 * ONE, 110),
    near(ln(2 * ONE), LN2, 115),
    near(ln(10 * ONE), LN10, 115),
  })
  run trigTest = assert(range(0, 40).foldl(true, (ok, i) =>
    val x = tdiv((i - 20) * PI, 7)
    and {
      ok,
      near(mul(sin(x), sin(x)) + mul(cos(x), cos(x)), ONE, 110),
      near(cos(2 * x), ONE - 2 * mul(sin(x), sin(x)), 110),
      near(sin(x + PI / 2), cos(x), 110),
    }))
  run trigPointsTest = assert(and {
    near(cos(0), ONE, 115), near(cos(PI), -ONE, 110), near(cos(PI / 2), 0, 110),
    near(cos(PI / 3), ONE / 2, 110), near(sin(PI / 6), ONE / 2, 110),
  })
  run expLnTest = assert(range(1, 60).foldl(true, (ok, i) => and {
    ok,
    near(ln(exp(ratio(i - 30, 3))), ratio(i - 30, 3), 80),
    near(mul(exp(ratio(i, 7)), exp(-ratio(i, 7))), ONE, 100),
    near(mul(sqrt(ratio(i, 9)), sqrt(ratio(i, 9))), ratio(i, 9), 110),
    near(log10(pow10(ratio(i - 30, 5))), ratio(i - 30, 5), 80),
  }))
  run fxTest = assert(and {
    fx(4607182418800017408) == ONE,          // 1.0
    fx(13830554455654793216) == -ONE,        // -1.0
    fx(4602678819172646912) == ONE / 2,      // 0.5
    fx(0) == 0,
    fxBy(1, 1074) == ONE,                    // the smallest positive number
    fxBy(4607182418800017408, -3) == ONE / 8,
    fx(4618441417868443648) == 6 * ONE,      // 6.0
    isNanBits(9221120237041090560),
    not(isFiniteBits(9218868437227405312)),  // +inf
  })
}
