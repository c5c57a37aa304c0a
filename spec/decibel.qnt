// -*- mode: Bluespec; -*-
/** Level conversions (rasp::util). */
module decibel {
  import num.* from "./num"

  pure val FLOOR_DB: int = -120 * ONE
  /** the level of a non-negative finite sample, never below the floor */
  pure def toDb(x: int): int =
    if (x > ratio(1, 1000000)) 20 * log10(x) else FLOOR_DB
  /** the sample value of a finite level; silence at the floor and below */
  pure def toSample(db: int): int =
    if (db > FLOOR_DB) pow10(tdiv(db, 20)) else 0
}
