// Numeric constants of the deployed program.  The exhaustive small-scope instance replaces this
// file by small/params.qnt and keeps everything else.
module params {
  pure val SCALE: int = 2^64              // fixed-point scale of the unit price (Q64.64)
  pure val U64MAX: int = 2^64 - 1
  pure val U128MAX: int = 2^128 - 1
  pure val BPS: int = 10000
  pure val MIN_DURATION: int = 60
  pure val MAX_DURATION: int = 60 * 60 * 24 * 30
  pure val MAX_UNTIL_START: int = 60 * 60 * 24 * 30
  pure val MAX_LOCK_VEST: int = 60 * 60 * 24 * 365 * 10
  pure val MAX_REGISTRIES: int = 5
  pure val MAX_DEPOSIT_FEE_BPS: int = 5000
  // from here on C33 speaks of extreme amounts and prices
  pure val HUGE: int = 2^32
  pure val HUGE_PRICE: int = 2^80
  // scope of the small instances
  pure val LEVEL: int = 0
}
