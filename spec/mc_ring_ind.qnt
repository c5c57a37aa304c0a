// -*- mode: Bluespec; -*-
/**
 * The ring buffer of the delay lines, for every capacity: pointers only, no contents.
 *
 * `w` is the cell written next, `r` the cell read next, `a` the weight of its neighbour (in
 * 1/FDEN), `d` the delay in effect (in 1/FDEN samples). One arbitrary stored sample is followed:
 * `k` is how many samples were fed after it, `p` the cell it lies in. What is shown by induction
 * (Apalache, unbounded integers), for every sequence of process, set_delay and set_max_delay:
 *   - the followed sample lies where tap_out(k) looks, so every tap hits its sample (C05);
 *   - it is overwritten by the sample that makes it older than the capacity, and by no other (C01, C04);
 *   - the cells and weights the next output is made of are those of the samples fed N and N+1
 *     calls ago, d = N + f (C01, C02), which is also what next_out looks at (C06);
 *   - the delay in effect is the request clipped to the capacity (C03).
 * mc_delay.qnt checks contents, outputs and the cache of the same design for small capacities.
 */
module mc_ring_ind {
  const FDEN: int
  const REORDER: bool      // false: growing as it was found, which Apalache must refute

  var len: int
  var w: int
  var r: int
  var a: int
  var d: int
  var k: int
  var p: int
  /** the last call broke its promise */
  var broken: bool

  pure def wrapDown(i: int, n: int): int = if (i < 0) i + n else i
  pure def wrapUp(i: int, n: int): int = if (i >= n) i - n else i
  pure def clip(q: int, n: int): int = if (q > (n - 1) * FDEN) (n - 1) * FDEN else if (q < 0) 0 else q
  pure def position(dt: int, n: int, wp: int): int =
    if (wp * FDEN - dt < 0) wp * FDEN - dt + n * FDEN else wp * FDEN - dt

  val inRange = and { len >= 1, 0 <= w, w < len, 0 <= r, r < len, 0 <= a, a < FDEN,
                      0 <= d, d <= (len - 1) * FDEN, 0 <= k, k < len, 0 <= p, p < len }
  /** the followed sample lies where a tap looks for it */
  val found = p == wrapDown(w - 1 - k, len)
  /** the next output is read from the right cells with the right weights: once a sample is written to w,
   *  the sample fed t calls before it lies in w - t */
  val reads =
    val n = d / FDEN
    val f = d % FDEN
    if (f == 0) and { a == 0, r == wrapDown(w - n, len) }
    else and { a == FDEN - f, r == wrapDown(w - n - 1, len), wrapUp(r + 1, len) == wrapDown(w - n, len) }
  val ringOk = and { inRange, found, reads, not(broken) }

  action init = {
    nondet cap = Int.oneOf()
    nondet q = Int.oneOf()
    nondet age = Int.oneOf()
    val n = cap + 1
    val dt = clip(q, n)
    all {
      cap >= 0, age >= 0, age < n,
      len' = n, w' = 0, d' = dt,
      r' = position(dt, n, 0) / FDEN, a' = position(dt, n, 0) % FDEN,
      // the zeros a new line is filled with count as fed before
      k' = age, p' = wrapDown(0 - 1 - age, n), broken' = false,
    }
  }
  /** any state in the relation */
  action anyOk = {
    nondet n = Int.oneOf()
    nondet wp = Int.oneOf()
    nondet dt = Int.oneOf()
    nondet age = Int.oneOf()
    all {
      n >= 1, 0 <= wp, wp < n, 0 <= dt, dt <= (n - 1) * FDEN, 0 <= age, age < n,
      len' = n, w' = wp, d' = dt, k' = age, p' = wrapDown(wp - 1 - age, n),
      a' = if (dt % FDEN == 0) 0 else FDEN - dt % FDEN,
      r' = if (dt % FDEN == 0) wrapDown(wp - dt / FDEN, n) else wrapDown(wp - dt / FDEN - 1, n),
      broken' = false,
    }
  }

  action process = {
    val gone = k == len - 1
    nondet age = Int.oneOf()
    all {
      // overwritten: follow any other one from here on (the new sample is age 0)
      age >= 0, age < len, not(gone) implies age == k + 1,
      broken' = ((w == p) != gone),
      w' = wrapUp(w + 1, len), r' = wrapUp(r + 1, len),
      k' = age,
      p' = if (gone) wrapDown(w - age, len) else p,
      len' = len, a' = a, d' = d,
    }
  }
  action setDelay = {
    nondet q = Int.oneOf()
    val dt = clip(q, len)
    val pos = position(dt, len, w)
    all {
      d' = dt, r' = pos / FDEN, a' = pos % FDEN,
      broken' = not(if (q < 0) dt == 0 else if (q > (len - 1) * FDEN) dt == (len - 1) * FDEN else dt == q),
      len' = len, w' = w, k' = k, p' = p,
    }
  }
  /** the new cells go before the oldest sample, i.e. at the write position */
  action grow = {
    nondet m = Int.oneOf()
    val added = m + 1 - len
    val pos = position(d, m + 1, w)
    all {
      m >= len,
      len' = m + 1, w' = w, d' = d, r' = pos / FDEN, a' = pos % FDEN,
      k' = k, p' = if (REORDER and p >= w) p + added else p,
      broken' = false,
    }
  }
  /** the added cells are what the line reads beyond its old capacity */
  action followAdded = {
    nondet m = Int.oneOf()
    nondet age = Int.oneOf()
    val added = m + 1 - len
    val pos = position(d, m + 1, w)
    all {
      m >= len, age >= len, age <= m,
      len' = m + 1, w' = w, d' = d, r' = pos / FDEN, a' = pos % FDEN,
      k' = age, p' = wrapDown(w - 1 - age, m + 1),
      broken' = not(and { wrapDown(w - 1 - age, m + 1) >= w, wrapDown(w - 1 - age, m + 1) < w + added }),
    }
  }
  action step = any { process, setDelay, grow, followAdded }
}
module mc_ring_ind_int { import mc_ring_ind(FDEN = 1, REORDER = true).* }
module mc_ring_ind_lin { import mc_ring_ind(FDEN = 2^10, REORDER = true).* }
module mc_ring_ind_asfound { import mc_ring_ind(FDEN = 1, REORDER = false).* }
