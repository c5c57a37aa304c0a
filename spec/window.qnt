// -*- mode: Bluespec; -*-
/**
 * Window functions (rasp::window).
 * Kinds: 40 triangular, 41 Bartlett, 42 Hann, 43 Hamming, 44 Blackman
 * (alpha 0.16), 45 Blackman-Harris, 46 rectangular.
 */
module window {
  import num.* from "./num"

  /** cos(2 pi k i / (n-1)), the angle reduced exactly first */
  pure def cosTurn(k: int, i: int, n: int): int =
    cos(tdiv(2 * PI * ((k * i) % (n - 1)), n - 1))

  /** sample i of the n point window */
  pure def value(kind: int, n: int, i: int): int =
    if (kind == 46) ONE
    else if (kind == 40) ONE - ratio(abs(2 * i - (n - 1)), n)
    else if (n == 1) ONE
    else if (kind == 41) ONE - ratio(abs(2 * i - (n - 1)), n - 1)
    else if (kind == 42) (ONE - cosTurn(1, i, n)) / 2
    else if (kind == 43) ratio(54, 100) - mul(ratio(46, 100), cosTurn(1, i, n))
    else if (kind == 44) ratio(42, 100) - cosTurn(1, i, n) / 2 + mul(ratio(8, 100), cosTurn(2, i, n))
    else ratio(35875, 100000) - mul(ratio(48829, 100000), cosTurn(1, i, n))
       + mul(ratio(14128, 100000), cosTurn(2, i, n)) - mul(ratio(1168, 100000), cosTurn(3, i, n))
}
