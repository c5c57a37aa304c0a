// -*- mode: Bluespec; -*-
/** The protocol of the window iterators, under every sequence of calls. */
module mc_window {
  const SIZES: Set[int]
  const JUMPS: Set[int]

  import winiter.* from "./winiter"

  var it: Iter
  var given: int       // values handed out or skipped so far
  var gave: bool       // the last call yielded a value
  var last: { op: str, a: int }

  action init = {
    nondet n = SIZES.oneOf()
    all { it' = newIter(40, n), given' = 0, gave' = true, last' = { op: "new", a: n } }
  }
  action doNext = all {
    it' = advance(it, 1), gave' = (it.index < it.size),
    given' = if (it.index < it.size) given + 1 else given, last' = { op: "next", a: 0 },
  }
  action doNth = {
    nondet k = JUMPS.oneOf()
    all {
      it' = advance(it, k + 1), gave' = (it.index + k < it.size),
      given' = if (given + k + 1 < it.size) given + k + 1 else it.size, last' = { op: "nth", a: k },
    }
  }
  action doTake = {
    nondet k = JUMPS.oneOf()
    all {
      it' = advance(it, k), gave' = true,
      given' = if (given + k < it.size) given + k else it.size, last' = { op: "take", a: k },
    }
  }
  action doDrain = all {
    it' = advance(it, it.size), gave' = true, given' = it.size, last' = { op: "drain", a: 0 },
  }
  action step = any { doNext, doNth, doTake, doDrain }

  /** C20: what was given and what is announced always add up to the size */
  val countOk = given + remaining(it) == it.size
  val rangeOk = and { remaining(it) >= 0, remaining(it) <= it.size }
  /** C20: once exhausted, never a value again */
  val fusedOk = not(gave) implies remaining(it) == 0
  val allOk = and { countOk, rangeOk, fusedOk }
}
module mc_window_quick {
  import mc_window(SIZES = 0.to(12), JUMPS = Set(0, 1, 2, 3, 5, 11, 40)).*
}
module mc_window_full {
  import mc_window(SIZES = 0.to(64), JUMPS = 0.to(70)).*
}
