// -*- mode: Bluespec; -*-
/**
 * Leaky integrator and envelope detectors (rasp::analysis).
 * Kinds: 30 leaky integrator, 31 peak detector, 32 RMS detector.
 * Gains are fixed point; `env` is the averaged quantity (the input itself, its
 * magnitude, or its square).
 */
module analysis {
  const UNIT: int

  type Env = { kind: int, attack: int, release: int, env: int, mag: int }

  pure def emul(a: int, b: int): int =
    val p = a * b
    if (p < 0) -((-p) / UNIT) else p / UNIT
  pure def eabs(a: int): int = if (a < 0) -a else a
  pure def emax(a: int, b: int): int = if (a < b) b else a

  /** gains start at zero: the (rectified) input passes unaveraged */
  pure def newEnv(kind: int): Env = { kind: kind, attack: 0, release: 0, env: 0, mag: 0 }
  pure def clear(s: Env): Env = { ...s, env: 0, mag: 0 }

  /** what the detector averages */
  pure def rectify(s: Env, x: int): int =
    if (s.kind == 31) eabs(x) else if (s.kind == 32) emul(x, x) else x

  /** rising towards the input uses the attack gain, falling the release gain */
  pure def coef(s: Env, u: int): int =
    if (s.kind == 30) s.attack else if (s.env < u) s.attack else s.release

  pure def process(s: Env, x: int): Env =
    val u = rectify(s, x)
    { ...s, env: u + emul(coef(s, u), s.env - u), mag: emax(s.mag, emax(eabs(u), eabs(s.env))) }

  /** n times process(x); an average that has arrived is not followed any further */
  pure def processMany(s: Env, n: int, x: int): Env =
    val most = range(0, n / 500).foldl({ e: s, done: false }, (r, _) =>
      if (r.done) r
      else {
        val a = range(0, 500).foldl(r.e, (q, _) => process(q, x))
        { e: a, done: eabs(process(a, x).env - a.env) <= UNIT / 2^90 }
      })
    if (most.done) most.e else range(0, n % 500).foldl(most.e, (q, _) => process(q, x))

  /** leaky integrator: only a gain in [0, 1) is accepted */
  pure def setAlpha(s: Env, a: int): Env =
    if (a >= 0 and a < UNIT) { ...s, attack: a, release: a } else s
}
