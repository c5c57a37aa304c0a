// -*- mode: Bluespec; -*-
/**
 * Integrator and envelope detectors for samples, levels and gains of any size (unbounded
 * integers, gains in 1/UNIT): whatever is fed and whatever gains are asked for, in any order,
 *   - a level is never negative and lies between the previous level and the rectified sample (C16, C17),
 *   - so it never exceeds the largest sample fed so far,
 *   - the gain in effect is the last valid one asked for (C15).
 * The transition is that of analysis.qnt (process, setAlpha).
 */
module mc_env_ind {
  import analysis(UNIT = 2^10) as E from "./analysis"
  pure val UNIT = 2^10

  var s: E::Env
  /** the largest magnitude fed so far */
  var top: int
  /** the last valid gains asked for */
  var want: { attack: int, release: int }
  var broken: bool

  val envOk = and {
    not(broken),
    s.kind == 31,
    0 <= s.env, s.env <= top,
    0 <= s.attack, s.attack < UNIT, 0 <= s.release, s.release < UNIT,
    s.attack == want.attack, s.release == want.release,
  }

  action init = all {
    s' = E::newEnv(31), top' = 0, want' = { attack: 0, release: 0 }, broken' = false,
  }
  action anyOk = {
    nondet e = Int.oneOf()
    nondet t = Int.oneOf()
    nondet g = Int.oneOf()
    nondet h = Int.oneOf()
    all {
      0 <= e, e <= t, 0 <= g, g < UNIT, 0 <= h, h < UNIT,
      s' = { kind: 31, attack: g, release: h, env: e, mag: t }, top' = t,
      want' = { attack: g, release: h }, broken' = false,
    }
  }
  action process = {
    nondet x = Int.oneOf()
    val n = E::process(s, x)
    val u = E::eabs(x)
    all {
      s' = n, top' = E::emax(top, u), want' = want,
      broken' = not(and { n.env >= 0,
                          if (s.env < u) s.env <= n.env and n.env <= u else u <= n.env and n.env <= s.env }),
    }
  }
  action setGains = {
    nondet g = Int.oneOf()
    nondet h = Int.oneOf()
    all {
      0 <= g, g < UNIT, 0 <= h, h < UNIT,
      s' = { ...s, attack: g, release: h }, top' = top, want' = { attack: g, release: h }, broken' = false,
    }
  }
  /** the integrator's setter: one gain, refused outside [0, 1) */
  action setAlpha = {
    nondet g = Int.oneOf()
    val n = E::setAlpha(s, g)
    all {
      s' = n, top' = top,
      want' = if (0 <= g and g < UNIT) { attack: g, release: g } else want,
      broken' = false,
    }
  }
  action clear = all { s' = E::clear(s), top' = 0, want' = want, broken' = (E::clear(s).env != 0) }
  action step = any { process, setGains, setAlpha, clear }
}
