// The deployed program's constants within TLC's 32-bit integers: prices in quarters instead of 2^-64ths,
// and the largest amounts cut to 2^31 - 1.  Everything else is as deployed.
module params {
  pure val SCALE: int = 4
  pure val U64MAX: int = 2147483647
  pure val U128MAX: int = 2147483647
  pure val BPS: int = 10000
  pure val MIN_DURATION: int = 60
  pure val MAX_DURATION: int = 60 * 60 * 24 * 30
  pure val MAX_UNTIL_START: int = 60 * 60 * 24 * 30
  pure val MAX_LOCK_VEST: int = 60 * 60 * 24 * 365 * 10
  pure val MAX_REGISTRIES: int = 5
  pure val MAX_DEPOSIT_FEE_BPS: int = 5000
  pure val HUGE: int = 1000000000
  pure val HUGE_PRICE: int = 1000000000
  // scope of the small instances
  pure val LEVEL: int = 0
}
