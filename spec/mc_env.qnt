// -*- mode: Bluespec; -*-
/**
 * Model of the leaky integrator and the envelope detectors under every sequence
 * of calls, gains in eighths, samples in small integers (analysis.qnt, UNIT = 8).
 */
module mc_env {
  const KINDS: Set[int]      // 30 leaky integrator, 31 peak, 32 RMS
  const VALS: Set[int]       // samples, in units of 1/8
  const GAINS: Set[int]      // gains requested, in eighths; out of range ones included
  const LIMIT: int           // largest magnitude of a sample

  import analysis(UNIT = 8) as E from "./analysis"

  var e: E::Env
  var fresh: E::Env          // built anew at the last clear()
  var prev: int              // envelope before the last sample
  var fed: int               // what the last sample contributed
  var last: { op: str, a: int }

  action init = {
    nondet k = KINDS.oneOf()
    all { e' = E::newEnv(k), fresh' = E::newEnv(k), prev' = 0, fed' = 0, last' = { op: "new", a: k } }
  }
  pure def slim(s: E::Env): E::Env = { ...s, mag: 0 }
  action doProcess = {
    nondet x = VALS.oneOf()
    all {
      e' = slim(E::process(e, x)), fresh' = slim(E::process(fresh, x)),
      prev' = e.env, fed' = E::rectify(e, x), last' = { op: "process", a: x },
    }
  }
  action doAttack = {
    nondet g = GAINS.oneOf()
    // both detectors take a time constant; every positive finite one is a gain in [0, 1)
    all {
      e.kind != 30, g >= 0, g < 8,
      e' = { ...e, attack: g }, fresh' = { ...fresh, attack: g },
      prev' = e.env, fed' = e.env, last' = { op: "attack", a: g },
    }
  }
  action doRelease = {
    nondet g = GAINS.oneOf()
    all {
      e.kind != 30, g >= 0, g < 8,
      e' = { ...e, release: g }, fresh' = { ...fresh, release: g },
      prev' = e.env, fed' = e.env, last' = { op: "release", a: g },
    }
  }
  action doAlpha = {
    nondet g = GAINS.oneOf()
    all {
      e.kind == 30,
      e' = E::setAlpha(e, g), fresh' = E::setAlpha(fresh, g),
      prev' = e.env, fed' = e.env, last' = { op: "alpha", a: g },
    }
  }
  action doClear = all {
    e' = E::clear(e), fresh' = { ...E::newEnv(e.kind), attack: e.attack, release: e.release },
    prev' = 0, fed' = 0, last' = { op: "clear", a: 0 },
  }
  action step = any { doProcess, doAttack, doRelease, doAlpha, doClear }

  // ---- properties --------------------------------------------------------------
  /** C15-C17: the average never overshoots: it lies between where it was and its input */
  val between = or {
    and { prev <= e.env, e.env <= fed },
    and { fed <= e.env, e.env <= prev },
  }
  /** C16/C17: a level is never negative and never above the loudest input */
  val levelOk = and {
    e.kind != 30 implies e.env >= 0,
    e.env <= E::rectify({ ...e, kind: if (e.kind == 30) 31 else e.kind }, LIMIT),
    e.env >= -LIMIT,
  }
  /** C15/C18: gains stay in [0, 1), whatever is asked for */
  val gainsOk = and { e.attack >= 0, e.attack < 8, e.release >= 0, e.release < 8,
                      e.kind == 30 implies e.attack == e.release }
  /** C16/C17: rising follows the attack gain, falling the release gain */
  val ballisticsOk = (last.op == "process" and e.kind != 30) implies and {
    (fed > prev and e.attack == 0) implies e.env == fed,
    (fed <= prev and e.release == 0) implies e.env == fed,
    (fed > prev) implies e.env - fed == E::emul(e.attack, prev - fed),
    (fed <= prev) implies e.env - fed == E::emul(e.release, prev - fed),
  }
  /** C09 */
  val clearOk = e == fresh
  /** C11: with no gain set, what goes in comes out, rectified */
  val newOk = (last.op == "process" and e.attack == 0 and e.release == 0) implies e.env == fed
  val allOk = and { between, levelOk, gainsOk, ballisticsOk, clearOk, newOk }
}
module mc_env_quick {
  import mc_env(KINDS = 30.to(32), VALS = Set(-16, -8, 0, 8, 16), GAINS = Set(-1, 0, 2, 4, 7, 8, 9),
    LIMIT = 16).*
}
module mc_env_full {
  import mc_env(KINDS = 30.to(32), VALS = Set(-64, -37, -16, -9, -1, 0, 1, 8, 15, 40, 64),
    GAINS = Set(-8, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16), LIMIT = 64).*
}
