// -*- mode: Bluespec; -*-
/**
 * Delay lines (rasp::delay::{Delay, LinearDelay}, TappableDelayLine).
 *
 * The state is what a user can reason about, not a ring buffer: the samples fed
 * so far (newest last), the capacity, the delay in effect and the last output.
 * Delays are counted in units of 1/FDEN sample: FDEN = 1 is the integer delay
 * line, larger FDEN the linear interpolating one.
 */
module delay {
  const FDEN: int

  /** hist holds at least cap+1 samples; older ones are no longer reachable */
  type Line = { hist: List[int], cap: int, delay: int, out: int }

  pure def zeros(n: int): List[int] = range(0, n).foldl(List(), (l, _) => l.append(0))

  /** delays are clipped to what the line can hold */
  pure def clipDelay(d: int, cap: int): int =
    if (d < 0) 0 else if (d > cap * FDEN) cap * FDEN else d

  pure def newLine(d: int, cap: int): Line =
    { hist: zeros(cap + 1), cap: cap, delay: clipDelay(d, cap), out: 0 }

  /** the sample fed t calls before the most recent one */
  pure def tapOut(s: Line, t: int): int = s.hist[s.hist.length() - 1 - t]

  /** the line read d units behind its most recent sample, interpolating */
  pure def readAt(s: Line, d: int): int =
    val k = d / FDEN
    val f = d % FDEN
    if (f == 0) tapOut(s, k)
    else ((FDEN - f) * tapOut(s, k) + f * tapOut(s, k + 1)) / FDEN

  pure def process(s: Line, x: int): Line =
    val fed = { ...s, hist: s.hist.append(x) }
    { ...fed, out: readAt(fed, s.delay) }

  /** what the next process() will return, whatever it is fed; delay >= 1 sample */
  pure def predictable(s: Line): bool = s.delay >= FDEN
  pure def nextOut(s: Line): int = readAt(s, s.delay - FDEN)

  pure def clear(s: Line): Line = { ...s, hist: zeros(s.cap + 1), out: 0 }

  pure def setDelay(s: Line, d: int): Line = { ...s, delay: clipDelay(d, s.cap) }

  /** growing forgets nothing and invents nothing; shrinking is ignored */
  pure def setMaxDelay(s: Line, m: int): Line =
    if (m <= s.cap) s
    else { ...s, cap: m,
           hist: zeros(m - s.cap).concat(s.hist.slice(s.hist.length() - s.cap - 1, s.hist.length())) }

  pure def tapIn(s: Line, t: int, v: int): Line =
    { ...s, hist: s.hist.replaceAt(s.hist.length() - 1 - t, v) }
  pure def addTo(s: Line, t: int, v: int): Line = tapIn(s, t, tapOut(s, t) + v)

  /** n times process(x) */
  pure def processMany(s: Line, n: int, x: int): Line =
    val k = if (n > s.cap + 1) s.cap + 1 else n
    val fed = { ...s, hist: s.hist.concat(range(0, k).foldl(List(), (l, _) => l.append(x))) }
    if (n == 0) s else { ...fed, out: readAt(fed, s.delay) }

  /** drop what can no longer be observed (keeps model states finite) */
  pure def trim(s: Line): Line =
    { ...s, hist: s.hist.slice(s.hist.length() - s.cap - 1, s.hist.length()) }
}
