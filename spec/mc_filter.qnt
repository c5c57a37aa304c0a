// -*- mode: Bluespec; -*-
/**
 * Model of the basic filters under every sequence of public calls.
 *
 * Arithmetic is exact (UNIT = 1: integer coefficients and samples), so two
 * structures either agree or they do not. Next to the filter under study run
 *   twin   the other realization with the same coefficients,
 *   fresh  a filter built anew at the last clear(), given the same coefficients,
 *   a, b   the same filter fed two parts of the input (superposition).
 * `same` is false from a mid-stream change of coefficients until the next clear():
 * only then may the two realizations differ.
 */
module mc_filter {
  const KINDS: Set[int]        // 10 one-pole ... 15 transposed biquad
  const COEFS: Set[{ b0: int, b1: int, b2: int, a1: int, a2: int }]
  const VALS: Set[int]
  const DEPTH: int             // samples between clears
  const CHANGES: int           // coefficient changes in one behaviour

  import filter(UNIT = 1) as F from "./filter"

  var kind: int
  var f: F::Filt
  var twin: F::Filt
  var fresh: F::Filt
  var a: F::Filt
  var b: F::Filt
  var same: bool
  var n: int
  var changes: int
  var lastRet: int
  var last: { op: str, a: int, b: int, c: { b0: int, b1: int, b2: int, a1: int, a2: int } }

  pure val NOC = { b0: 0, b1: 0, b2: 0, a1: 0, a2: 0 }

  /** the coefficients a structure has; the others stay 0 */
  pure def has(k: int, i: int): bool =
    if (i == 0) true
    else if (i == 1) k == 11 or k == 13 or k >= 14
    else if (i == 2) k == 13 or k >= 14
    else if (i == 3) k == 10 or k == 12 or k >= 14
    else k == 12 or k >= 14
  pure def putCoefs(s: F::Filt, k: int, c: { b0: int, b1: int, b2: int, a1: int, a2: int }): F::Filt =
    F::setCoefs(s, c.b0,
      if (has(k, 1)) c.b1 else 0, if (has(k, 2)) c.b2 else 0,
      if (has(k, 3)) c.a1 else 0, if (has(k, 4)) c.a2 else 0)
  pure def putField(s: F::Filt, i: int, v: int): F::Filt =
    if (i == 0) { ...s, b0: v } else if (i == 1) { ...s, b1: v } else if (i == 2) { ...s, b2: v }
    else if (i == 3) { ...s, a1: v } else { ...s, a2: v }
  /** magnitudes only matter to the judge of recorded traces */
  pure def slim(s: F::Filt): F::Filt = { ...s, mag: 0, now: 0 }

  action init = {
    nondet k = KINDS.oneOf()
    all {
      kind' = k,
      f' = F::newFilter(k >= 15), twin' = F::newFilter(k < 15), fresh' = F::newFilter(k >= 15),
      a' = F::newFilter(k >= 15), b' = F::newFilter(k >= 15),
      same' = true, n' = 0, changes' = 0, lastRet' = 0,
      last' = { op: "new", a: k, b: 0, c: NOC },
    }
  }
  action doProcess = {
    nondet x = VALS.oneOf()
    // the first part takes the samples at even positions
    val u = if (n % 2 == 0) x else 0
    val g = F::process(f, x)
    all {
      n < DEPTH,
      f' = slim(g), twin' = slim(F::process(twin, x)), fresh' = slim(F::process(fresh, x)),
      a' = slim(F::process(a, u)), b' = slim(F::process(b, x - u)),
      n' = n + 1, lastRet' = g.out, kind' = kind, same' = same, changes' = changes,
      last' = { op: "process", a: x, b: 0, c: NOC },
    }
  }
  action setAll(c: { b0: int, b1: int, b2: int, a1: int, a2: int },
                g: F::Filt, op: str, i: int, v: int): bool = all {
    changes < CHANGES,
    changes' = changes + 1,
    f' = g,
    twin' = F::setCoefs(twin, g.b0, g.b1, g.b2, g.a1, g.a2),
    fresh' = F::setCoefs(fresh, g.b0, g.b1, g.b2, g.a1, g.a2),
    a' = F::setCoefs(a, g.b0, g.b1, g.b2, g.a1, g.a2),
    b' = F::setCoefs(b, g.b0, g.b1, g.b2, g.a1, g.a2),
    same' = and { same, n == 0 or g == f },
    n' = n, kind' = kind, lastRet' = lastRet,
    last' = { op: op, a: i, b: v, c: c },
  }
  action doCoefs = {
    nondet c = COEFS.oneOf()
    setAll(c, putCoefs(f, kind, c), "set_coefficients", 0, 0)
  }
  action doField = {
    nondet i = 0.to(4).oneOf()
    nondet v = Set(0, 2).oneOf()
    all { has(kind, i), n < DEPTH, setAll(NOC, putField(f, i, v), "field", i, v) }
  }
  action doClear = all {
    f' = F::clear(f),
    twin' = F::clear(twin),
    // not cleared but built anew
    fresh' = F::setCoefs(F::newFilter(kind >= 15), f.b0, f.b1, f.b2, f.a1, f.a2),
    a' = F::clear(a), b' = F::clear(b),
    same' = true, n' = 0, lastRet' = 0, kind' = kind, changes' = changes,
    last' = { op: "clear", a: 0, b: 0, c: NOC },
  }
  action step = any { doProcess, doCoefs, doField, doClear }

  // ---- properties -----------------------------------------------------------------
  /** C08: both realizations, and the lower order structures as special biquads, agree */
  val twinOk = same implies f.out == twin.out
  /** C08: the response to a sum is the sum of the responses, whatever is changed when */
  val linearOk = f.out == a.out + b.out
  /** C09: cleared and new are the same filter */
  val clearOk = f == fresh
  /** C10: the last output is what the last call returned */
  val lastOk = f.out == lastRet
  /** C11: a filter whose coefficients were never set does not alter its input */
  val newOk = (last.op == "process" and f.b0 == 1 and f.b1 == 0 and f.b2 == 0 and f.a1 == 0
    and f.a2 == 0 and same) implies f.out == last.a
  val allOk = and { twinOk, linearOk, clearOk, lastOk, newOk }
}

module mc_filter_quick {
  import mc_filter(KINDS = 10.to(15), DEPTH = 3, CHANGES = 2, VALS = Set(0, 1), COEFS = Set(
    { b0: 1, b1: 2, b2: 3, a1: 1, a2: 2 }, { b0: 2, b1: 1, b2: 0, a1: 0, a2: 1 })).*
}
module mc_filter_full {
  import mc_filter(KINDS = 10.to(15), DEPTH = 4, CHANGES = 3, VALS = Set(0, 1, 3), COEFS = Set(
    { b0: 1, b1: 2, b2: 3, a1: 1, a2: 2 }, { b0: 2, b1: 1, b2: 0, a1: 0, a2: 1 })).*
}
