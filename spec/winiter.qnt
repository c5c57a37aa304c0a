// -*- mode: Bluespec; -*-
/** The window iterators (rasp::window::*Iter): exact-size, fused iterators. */
module winiter {
  type Iter = { kind: int, size: int, index: int }
  pure def newIter(kind: int, n: int): Iter = { kind: kind, size: n, index: 0 }
  pure def remaining(s: Iter): int = s.size - s.index
  /** k values taken or skipped, as far as there are any */
  pure def advance(s: Iter, k: int): Iter =
    { ...s, index: if (s.index + k < s.size) s.index + k else s.size }
}
