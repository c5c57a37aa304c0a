// -*- mode: Bluespec; -*-
/**
 * The Processor contract, for two processors used in turns: blocks are sequences
 * of samples, an empty block is nothing, last_out is what was last returned,
 * clear is being new again, and what one processor does is no concern of the
 * other. The processors are the filter of filter.qnt (two zeros: y depends on
 * the last three samples) driven by calls; `log` is what each was told since it
 * was last cleared.
 */
module mc_proc {
  const VALS: Set[int]
  const DEPTH: int
  import filter(UNIT = 1) as F from "./filter"

  var f: int -> F::Filt
  var log: int -> List[int]
  var ret: int -> int
  var calls: int
  var last: { op: str, obj: int, xs: List[int] }

  pure def slim(s: F::Filt): F::Filt = { ...s, mag: 0, now: 0 }
  pure def fresh: F::Filt = F::setCoefs(F::newFilter(false), 1, 2, 4, 0, 0)
  /** a block: every sample replaced by its output, in order; returns the last one */
  pure def block(s: F::Filt, xs: List[int]): { s: F::Filt, ys: List[int], r: int } =
    val e = xs.foldl({ s: s, ys: List() }, (acc, x) =>
      val g = F::process(acc.s, x)
      { s: g, ys: acc.ys.append(g.out) })
    { s: e.s, ys: e.ys, r: if (xs.length() == 0) s.out else e.ys[xs.length() - 1] }
  pure def replay(xs: List[int]): F::Filt = xs.foldl(fresh, (s, x) => F::process(s, x))

  action init = all {
    f' = Map(1 -> fresh, 2 -> fresh), log' = Map(1 -> List(), 2 -> List()),
    ret' = Map(1 -> 0, 2 -> 0), calls' = 0,
    last' = { op: "new", obj: 0, xs: List() },
  }
  action doProcess = {
    nondet o = Set(1, 2).oneOf()
    nondet x = VALS.oneOf()
    val g = F::process(f.get(o), x)
    all {
      calls < DEPTH, calls' = calls + 1,
      f' = f.set(o, slim(g)), log' = log.set(o, log.get(o).append(x)), ret' = ret.set(o, g.out),
      last' = { op: "process", obj: o, xs: [x] },
    }
  }
  action doBlock = {
    nondet o = Set(1, 2).oneOf()
    nondet n = 0.to(3).oneOf()
    nondet x = VALS.oneOf()
    nondet y = VALS.oneOf()
    val xs = [x, y, x].slice(0, n)
    val b = block(f.get(o), xs)
    all {
      calls < DEPTH, calls' = calls + 1,
      f' = f.set(o, slim(b.s)), log' = log.set(o, log.get(o).concat(xs)), ret' = ret.set(o, b.r),
      last' = { op: "block", obj: o, xs: xs },
    }
  }
  action doClear = {
    nondet o = Set(1, 2).oneOf()
    all {
      calls < DEPTH, calls' = calls + 1,
      f' = f.set(o, F::clear(f.get(o))), log' = log.set(o, List()), ret' = ret.set(o, 0),
      last' = { op: "clear", obj: o, xs: List() },
    }
  }
  action step = any { doProcess, doBlock, doClear }

  /** C09, C10, C27: each is what it alone was told since it was last cleared */
  val ownOk = Set(1, 2).forall(o => f.get(o) == slim(replay(log.get(o))))
  /** C10 */
  val lastOk = Set(1, 2).forall(o => f.get(o).out == ret.get(o))
  /** C28: silence before the first sound makes no difference */
  pure def sounding(xs: List[int]): List[int] =
    xs.foldl(List(), (acc, x) => if (x == 0 and acc.length() == 0) acc else acc.append(x))
  val timeOk = Set(1, 2).forall(o => f.get(o) == slim(replay(sounding(log.get(o)))))
  /** C28: fed -4 times as much, it returns -4 times as much */
  val scaleOk = Set(1, 2).forall(o =>
    replay(log.get(o).foldl(List(), (acc, x) => acc.append(-4 * x))).out == -4 * f.get(o).out)
  val allOk = and { ownOk, lastOk, timeOk, scaleOk }
}
module mc_proc_quick {
  import mc_proc(VALS = Set(0, 1), DEPTH = 3).*
}
module mc_proc_full {
  import mc_proc(VALS = Set(0, 1, 3), DEPTH = 4).*
}
