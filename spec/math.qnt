// Integer arithmetic of the presale: prices, fees, vesting, refunds.
module math {
  import params.* from "./params"
  import types.* from "./types"

  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def floorDiv(a: int, b: int): int = if (b <= 0) 0 else a / b
  pure def ceilDiv(a: int, b: int): int = if (b <= 0) 0 else (a + b - 1) / b
  pure def fitsU64(a: int): bool = a >= 0 and a <= U64MAX

  // ---- token transfers ----
  pure def activeFee(m: Mint, epoch: int): Fee = if (epoch >= m.switch) m.fee1 else m.fee0
  // fee withheld by the token program when `a` is sent
  pure def transferFee(m: Mint, epoch: int, a: int): int =
    if (not(m.t22) or not(m.hasFee)) 0 else {
      val f = activeFee(m, epoch)
      min2(ceilDiv(a * f.bps, BPS), f.max)
    }
  pure def received(m: Mint, epoch: int, a: int): int = a - transferFee(m, epoch, a)
  // amount to send so that the receiver gets exactly `a` (-1: impossible)
  pure def grossUp(m: Mint, epoch: int, a: int): int =
    if (a == 0) 0
    else if (not(m.t22) or not(m.hasFee)) a
    else {
      val f = activeFee(m, epoch)
      val raw =
        if (f.bps == BPS) a + f.max
        else if (f.bps == 0) a
        else {
          val pre = ceilDiv(a * BPS, BPS - f.bps)
          if (pre - a >= f.max) a + f.max else a + min2(ceilDiv(pre * f.bps, BPS), f.max)
        }
      if (fitsU64(raw)) raw else -1
    }

  // ---- price ----
  // base tokens that `a` quote buys at unit price q
  pure def tokensFor(q: int, a: int): int = floorDiv(a * SCALE, q)
  // quote charged for whole tokens bought with at most `a`
  pure def quoteFor(q: int, a: int): int = ceilDiv(tokensFor(q, a) * q, SCALE)

  // ---- deposit fee: the fee is feeBps of the fee-included amount, rounded up ----
  pure def feeIncluded(a: int, bps: int): int = ceilDiv(a * BPS, BPS - bps)

  // ---- progress ----
  pure def progress(p: Presale, now: int): int =
    if (now < p.start) NOT_STARTED
    else if (now < p.end) ONGOING
    else if (p.dep >= p.minCap) COMPLETED
    else FAILED

  // ---- sale ----
  // base tokens sold by registry r
  pure def soldOf(p: Presale, r: Reg): int =
    if (r.dep == 0) 0
    else if (p.mode == FIXED) min2(tokensFor(p.q, r.dep), r.supply)
    else r.supply
  pure def totalSold(p: Presale): int = p.regs.foldl(0, (a, r) => a + soldOf(p, r))
  pure def unsoldOf(p: Presale): int = p.supply - totalSold(p)

  // ---- vesting ----
  // base tokens released to a depositor of `dep` in registry r by time t, cumulatively
  pure def released(p: Presale, r: Reg, dep: int, t: int): int =
    if (dep == 0 or r.dep == 0) 0 else {
      val sold = soldOf(p, r)
      val imm = floorDiv(sold * p.immBps, BPS)
      val locked = sold - imm
      val immPart = if (t >= p.immTs) floorDiv(imm * dep, r.dep) else 0
      val drip =
        if (t < p.vestStart) 0
        else if (p.vest == 0) locked
        else floorDiv(locked * min2(t - p.vestStart, p.vest), p.vest)
      immPart + floorDiv(drip * dep, r.dep)
    }
  // everything a depositor of `dep` will ever be released
  pure def entitlement(p: Presale, r: Reg, dep: int): int =
    released(p, r, dep, max2(p.vestStart + p.vest, p.immTs))

  // ---- refunds ----
  pure def overflowQuote(p: Presale): int = max2(0, p.dep - p.maxCap)
  pure def regRefund(p: Presale, r: Reg): int =
    if (p.dep == 0 or r.dep == 0) 0 else floorDiv(overflowQuote(p) * r.dep, p.dep)
  pure def regFeeRefund(p: Presale, r: Reg): int =
    if (p.dep == 0 or r.dep == 0) 0 else floorDiv(r.fee * regRefund(p, r), r.dep)
  // quote to hand back to an escrow of a finished presale (-1: none is ever due)
  pure def refundOf(p: Presale, r: Reg, e: Escrow, prog: int): int =
    if (prog == FAILED) e.dep + e.fee
    else if (prog == COMPLETED and p.mode == PRORATA)
      floorDiv(e.dep * regRefund(p, r), r.dep) + floorDiv(e.fee * regFeeRefund(p, r), r.fee)
    else -1
  // deposit fees the creator may collect from a completed presale
  pure def collectable(p: Presale): int =
    if (p.mode == PRORATA) p.regs.foldl(0, (a, r) => a + r.fee - regFeeRefund(p, r)) else p.fee
  // quote raised for the creator
  pure def proceeds(p: Presale): int = min2(p.dep, p.maxCap)

  // ---- deposit quota ----
  pure def personalCap(r: Reg, e: Escrow): int = min2(r.maxCap, e.cap)
  pure def personalQuota(r: Reg, e: Escrow): int = max2(0, personalCap(r, e) - e.dep)
  pure def globalQuota(p: Presale): int = max2(0, p.maxCap - p.dep)
  // quote that buys out the registry's remaining tokens
  pure def registryQuota(p: Presale, r: Reg): int = {
    val rest = r.supply - soldOf(p, r)
    if (rest <= 0) 0 else ceilDiv(rest * p.q, SCALE)
  }
  pure def quota(p: Presale, r: Reg, e: Escrow): int =
    if (p.mode == PRORATA) personalQuota(r, e)
    else if (p.mode == FCFS) min2(globalQuota(p), personalQuota(r, e))
    else min2(min2(globalQuota(p), personalQuota(r, e)), registryQuota(p, r))
  // amount actually taken when the buyer offers up to `maxAmount` (0: nothing can be taken)
  pure def depositAmount(p: Presale, r: Reg, e: Escrow, maxAmount: int): int = {
    val a = min2(quota(p, r, e), maxAmount)
    if (a <= 0) 0 else if (p.mode == FIXED) quoteFor(p.q, a) else a
  }
}
