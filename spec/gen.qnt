// Behaviour generator: turns random draws into instructions, biased towards the interesting
// neighbourhood of the current state (cap boundaries, phase boundaries, vesting instants, price units).
module gen {
  import params.* from "./params"
  import types.* from "./types"
  import math.* from "./math"
  import merkle.* from "./merkle"
  import presale.* from "./presale"

  // profiles
  pure val GENERAL: int = 0
  pure val G_FIXED: int = 1
  pure val G_FCFS: int = 2
  pure val G_PRORATA: int = 3
  pure val G_VEST: int = 4
  pure val G_MERKLE: int = 5
  pure val G_AUTH: int = 6
  pure val G_INIT: int = 7
  pure val G_TAMPER: int = 8
  pure val G_T22: int = 9
  pure val G_BIG: int = 10
  pure val G_FAIL: int = 11
  pure val G_ADMIN: int = 12
  pure val G_MULTI: int = 13   // several registries, many participants

  pure val T0: int = 1700000000

  // i-th 32-bit draw out of z
  pure def dr(z: int, i: int): int = (z / (2^(32 * i))) % (2^32)
  pure def wide(z: int, i: int): int = (z / (2^(32 * i))) % (2^64)
  pure def pickS(l: List[str], r: int): str = l[r % l.length()]
  pure def pickI(l: List[int], r: int): int = l[r % l.length()]
  pure def pct(r: int, n: int): bool = r % 100 < n

  pure val USERS: List[str] = ["u1", "u2", "u3"]
  pure val ALL: List[str] = ["u1", "u2", "u3", "x", "c1", "c2", "o1", "o2"]
  pure val ALL_SET: Set[str] = Set("u1", "u2", "u3", "x", "c1", "c2", "o1", "o2")
  pure def creatorOf(p: str): str = if (p == "P1") "c1" else "c2"
  pure def other(p: str): str = if (p == "P1") "P2" else "P1"

  // ---------- initial world ----------
  pure def spl: Mint = { t22: false, hasFee: false, fee0: { bps: 0, max: 0 }, fee1: { bps: 0, max: 0 }, switch: 0, hook: false, ext: "", memo: false }
  pure def mkMint(prof: int, z: int): Mint =
    if (prof == G_T22 or pct(dr(z, 0), 12)) {
      val bps0 = pickI([0, 1, 100, 333, 5000, 9999, 10000], dr(z, 1))
      val max0 = pickI([0, 1, 7, 1000, 1000000, U64MAX], dr(z, 2))
      val bps1 = pickI([0, 1, 100, 333, 5000, 9999, 10000], dr(z, 3))
      val max1 = pickI([0, 1, 7, 1000, 1000000, U64MAX], dr(z, 4))
      { t22: true, hasFee: pct(dr(z, 5), 65), fee0: { bps: bps0, max: if (bps0 == BPS) min2(max0, 1000) else max0 },
        fee1: { bps: bps1, max: if (bps1 == BPS) min2(max1, 1000) else max1 }, switch: pickI([0, 1, 2], dr(z, 6)), hook: pct(dr(z, 7), 35),
        ext: if (pct(dr(z, 0) / 100, if (prof == G_T22) 10 else 5))
               pickS(["closeAuthority", "nonTransferable", "permanentDelegate", "defaultState", "interestBearing", "groupPointer",
                      "group", "memberPointer", "member", "confidential", "confidentialFee", "mintBurn", "scaledUi", "pausable", "native"], dr(z, 7) / 100)
             else if (pct(dr(z, 0) / 100, 40)) pickS(["metadata", "tokenMetadata"], dr(z, 5) / 100) else "",
        memo: pct(dr(z, 6) / 100, 30) }
    } else spl

  pure def world(prof: int, z: int): State = {
    val rich = if (prof == G_BIG) 2^60 else 1000000000000
    { now: T0, epoch: 0,
      base: mkMint(prof, z), quote: mkMint(prof, z / 2^256),
      presales: Map(), baseVault: Map(), quoteVault: Map(), escrows: Map(), operators: Set(),
      roots: Map(), fargs: Map(), meta: Map(),
      balB: Map("c1" -> (if (prof == G_BIG) 7 * 2^60 else rich), "c2" -> (if (prof == G_BIG) 7 * 2^60 else rich), "u1" -> 1000, "u2" -> 1000, "u3" -> 1000, "o1" -> 0, "o2" -> 0, "x" -> 100000),
      balQ: if (prof == G_MULTI) ALL_SET.mapBy(w => rich) else Map("c1" -> 1000, "c2" -> 1000, "u1" -> (if (prof == G_BIG) 13 * 2^60 else rich), "u2" -> (if (prof == G_BIG) 2 * 2^60 else rich),
                "u3" -> (if (pct(dr(z, 15), 25)) 150 else if (prof == G_BIG) 2^59 else rich), "o1" -> 0, "o2" -> 0, "x" -> 100000),
      supplyB: (if (prof == G_BIG) 14 * 2^60 else 2 * rich) + 103000 }
  }

  // ---------- presale parameters ----------
  pure def mkPrice(z: int): int =
    pickI([SCALE, SCALE / 3, 3 * SCALE, (SCALE * 4) / 3, (SCALE * 7) / 10, SCALE / 1000 + 1, 10 * SCALE,
           (SCALE * 33) / 100, 1, SCALE - 1, SCALE + 1, 2^63, 1 + wide(z, 2), (SCALE * 997) / 10,
           (SCALE * 5) / 2], dr(z, 0))

  pure def mkArgs(s: State, prof: int, p: str, z: int): InitArgs = {
    val hasF = p.in(s.fargs.keys())
    val mode =
      if (prof == G_MULTI and pct(dr(z, 0) / 100, 45)) PRORATA
      else if (prof == G_FCFS) FCFS else if (prof == G_PRORATA) PRORATA
      else if (hasF and (prof == G_FIXED or pct(dr(z, 0), 85))) FIXED
      else pickI([if (prof == G_MULTI) FCFS else PRORATA, FCFS], dr(z, 0))
    val q = if (hasF) s.fargs.get(p).q else SCALE
    val wl = if (prof == G_MERKLE) pickI([MERKLE, MERKLE, MERKLE, AUTHORITY], dr(z, 1))
             else if (prof == G_AUTH) pickI([AUTHORITY, AUTHORITY, AUTHORITY, MERKLE], dr(z, 1))
             else if (prof == G_MULTI) AUTHORITY
             else pickI([OPEN, OPEN, MERKLE, AUTHORITY], dr(z, 1))
    val unit = max2(1, ceilDiv(q, SCALE))
    val cap0 = if (prof == G_BIG) pickI([U64MAX, 2^63, 2^61 + dr(z, 2), 2^60], dr(z, 2) / 7)
               else pickI([50 + dr(z, 2) % 500, 100, 1000 + dr(z, 2) % 100000, 1000000 + dr(z, 2), 10 + dr(z, 2) % 20], dr(z, 2) / 7)
    val cap = if (mode == FIXED) min2(U64MAX, max2(cap0, 3 * unit)) else cap0
    val maxCap = if (mode == FIXED and pct(dr(z, 3), 60)) max2(1, min2(quoteFor(q, cap), U64MAX)) else cap
    val minCap = max2(1, pickI([1, maxCap / 2, maxCap / 10, maxCap - max2(1, unit), maxCap, maxCap / 3], dr(z, 3) / 100))
    val n = if (wl == OPEN) 1 else pickI(if (prof == G_MULTI) [2, 3, 3, 4, 5, 5] else [1, 2, 2, 3, 4, 5], dr(z, 4))
    val regMin = if (wl != OPEN) (if (mode == FIXED) unit else 1)
                 else if (mode == FIXED) max2(unit, pickI([unit, maxCap / 20, 2 * unit], dr(z, 5)))
                 else pickI([0, 1, maxCap / 20, maxCap / 5], dr(z, 5))
    val regMax = if (wl != OPEN) maxCap else max2(max2(regMin, 1), pickI([maxCap, maxCap, maxCap / 2, maxCap / 3 + 1], dr(z, 5) / 100))
    val need = if (mode == FIXED) tokensFor(q, maxCap) else 0
    val budget = if (prof == G_BIG) 6 * 2^60 else 900000000000
    val regs = range(0, n).foldl([], (l, i) => {
      val x = dr(z, 6) / (2^i)
      val sup =
        if (mode == FIXED)
          (if (prof == G_BIG and pct(x / 7, 50)) budget / n else if (pct(x, 70)) ceilDiv(need, n) + pickI([0, 0, 1, 5, need / 3], x / 100) else if (i == 0 and n > 1) need / 7 + 1 else need + x % 17)
        else pickI([1000, 7, 1000000, maxCap, 2 * maxCap + 1, 100 + x % 10000, 1], x)
      l.append({ minCap: regMin, maxCap: regMax, supply: max2(1, min2(sup, budget / n)),
                 feeBps: pickI(if (prof == G_MULTI) [0, 100, 333, 5000, 1, 2500, 77] else [0, 0, 100, 333, 5000, 1, 2500], x / 3) })
    })
    val start = pickI(if (prof == G_ADMIN or prof == G_MERKLE) [s.now + 100, s.now, s.now + 10, s.now + 100] else [0, s.now, s.now + 10, s.now + 100], dr(z, 7))
    val end = max2(start, s.now) + pickI([60, 100, 100, 3600, 2592000], dr(z, 7) / 10)
    val v = dr(z, 8)
    val hasVest = prof == G_VEST or pct(v, if (prof == G_MULTI) 30 else 55)
    val vk = (v / 100) % 6
    val lock = if (not(hasVest) or vk == 5) 0 else pickI([0, 30, 100, 1, 86400], v / 1000)
    val vest0 = if (not(hasVest) or vk == 5) 0 else pickI([0, 100, 7, 1000, 31536000], v / 7000)
    val vest = if (hasVest and vk != 5 and lock + vest0 == 0) 77 else vest0
    val immBps = if (not(hasVest)) 0 else if (vk == 5) BPS else pickI([0, 2500, 3333, 1, 9999, 5000], vk)
    val w = dr(z, 9)
    val immTs =
      if (not(hasVest)) 0
      else if (immBps == 0 or immBps == BPS) pickI([0, end], w)
      else pickI([0, end, end + lock, end + lock + vest, end + (w % (lock + vest + 1)), end + 1], w / 10)
    { maxCap: maxCap, minCap: min2(minCap, maxCap), start: start, end: end, wl: wl, mode: mode,
      unsold: dr(z, 10) % 2, disEarly: if (pct(dr(z, 10) / 2, 25)) 1 else 0,
      immBps: immBps, lock: lock, vest: vest, immTs: immTs, regs: regs }
  }

  pure def clamp(a: int): int = max2(0, min2(U64MAX, a))
  pure def clampArgs(a: InitArgs): InitArgs =
    { ...a, maxCap: clamp(a.maxCap), minCap: clamp(a.minCap), start: clamp(a.start), end: clamp(a.end),
            lock: clamp(a.lock), vest: clamp(a.vest), immTs: clamp(a.immTs),
            regs: a.regs.foldl([], (l, r) => l.append({ minCap: clamp(r.minCap), maxCap: clamp(r.maxCap),
                                                         supply: clamp(r.supply), feeBps: r.feeBps })) }
  // push one parameter to or over a boundary
  pure def mutateArgs(a: InitArgs, now: int, z: int): InitArgs = {
    val k = dr(z, 0) % 50
    val at = if (a.regs.length() > 0) (if (dr(z, 3) % 2 == 0) a.regs.length() - 1 else dr(z, 4) % a.regs.length()) else 0
    val st = max2(a.start, now)
    val r0 = if (a.regs.length() > 0) a.regs[0] else { minCap: 0, maxCap: 0, supply: 0, feeBps: 0 }
    def withR(r) = { ...a, regs: if (a.regs.length() > 0) a.regs.replaceAt(at, r) else a.regs }
    val rl = if (a.regs.length() > 0) a.regs[at] else r0
    if (k == 0) { ...a, maxCap: a.minCap - 1 }
    else if (k == 1) { ...a, minCap: 0 }
    else if (k == 2) { ...a, end: st + MIN_DURATION - 1 }
    else if (k == 3) { ...a, end: st + MIN_DURATION }
    else if (k == 4) { ...a, end: st + MAX_DURATION }
    else if (k == 5) { ...a, end: st + MAX_DURATION + 1 }
    else if (k == 6) { ...a, start: now + MAX_UNTIL_START, end: now + MAX_UNTIL_START + 100 }
    else if (k == 7) { ...a, start: now + MAX_UNTIL_START + 1, end: now + MAX_UNTIL_START + 101 }
    else if (k == 8) { ...a, end: st }
    else if (k == 9) { ...a, end: 0 }
    else if (k == 10) { ...a, wl: pickI([3, 255], dr(z, 1)) }
    else if (k == 11) { ...a, mode: pickI([3, 255], dr(z, 1)) }
    else if (k == 12) { ...a, unsold: pickI([2, 255], dr(z, 1)) }
    else if (k == 13) { ...a, disEarly: pickI([2, 255], dr(z, 1)) }
    else if (k == 14) { ...a, regs: [] }
    else if (k == 15) { ...a, regs: range(0, 6).foldl([], (l, i) => l.append(r0)) }
    else if (k == 16) { ...a, regs: [r0, r0] }
    else if (k == 17) withR({ ...rl, maxCap: a.maxCap + 1 })
    else if (k == 18) withR({ ...rl, maxCap: rl.minCap - 1 })
    else if (k == 19) withR({ ...rl, supply: 0 })
    else if (k == 20) withR({ ...rl, feeBps: MAX_DEPOSIT_FEE_BPS + 1 })
    else if (k == 21) withR({ ...rl, feeBps: MAX_DEPOSIT_FEE_BPS })
    else if (k == 22) withR({ ...rl, minCap: rl.minCap + 1 })
    else if (k == 23) withR({ ...rl, maxCap: max2(0, rl.maxCap - 1) })
    else if (k == 24) withR({ ...rl, minCap: 0, maxCap: 0 })
    else if (k == 25) { ...a, immBps: BPS + 1, lock: 10, vest: 10 }
    else if (k == 26) { ...a, lock: MAX_LOCK_VEST - 5, vest: 5, immBps: 0, immTs: 0 }
    else if (k == 27) { ...a, lock: MAX_LOCK_VEST - 6, vest: 5, immBps: 0, immTs: 0 }
    else if (k == 28) { ...a, immBps: BPS, lock: 1, vest: 0, immTs: 0 }
    else if (k == 29) { ...a, immBps: BPS, lock: 0, vest: 0, immTs: a.end + 1 }
    else if (k == 30) { ...a, immBps: 100, lock: 0, vest: 0, immTs: 0 }
    else if (k == 31) { ...a, immBps: 100, lock: 5, vest: 10, immTs: a.end - 1 }
    else if (k == 32) { ...a, immBps: 100, lock: 5, vest: 10, immTs: a.end + 15 }
    else if (k == 33) { ...a, immBps: 100, lock: 5, vest: 10, immTs: a.end + 16 }
    else if (k == 34) { ...a, immBps: 0, lock: 5, vest: 10, immTs: a.end + 1 }
    else if (k == 35) { ...a, immBps: 0, lock: 0, vest: 0, immTs: a.end }
    else if (k == 36) { ...a, minCap: a.maxCap }
    else if (k == 37) withR({ ...rl, supply: U64MAX })
    else if (k == 38) { ...a, maxCap: U64MAX }
    else if (k == 39) withR({ ...rl, supply: max2(1, rl.supply - 1) })
    else if (k == 40) { ...a, minCap: a.maxCap + 1 }
    else if (k == 41) { ...a, immBps: 0, lock: U64MAX - dr(z, 1) % 2, vest: pickI([0, 1, 2, 5], dr(z, 2)), immTs: 0 }
    else if (k == 42) { ...a, immBps: 0, lock: 1 + dr(z, 1) % 2, vest: pickI([U64MAX, U64MAX - 1, 2^32, 2^32 + 5], dr(z, 2)), immTs: 0 }
    else if (k == 43) { ...a, end: pickI([U64MAX, U64MAX - 10, st + 2^32 + 100], dr(z, 1)) }
    else if (k == 44) { ...a, start: pickI([U64MAX, U64MAX - 100, now + 2^32], dr(z, 1)), end: U64MAX }
    else if (k == 45) { ...a, immBps: 100, lock: 5, vest: 10, immTs: pickI([U64MAX, a.end + 2^32 + 3], dr(z, 1)) }
    else if (k == 46) withR({ ...rl, feeBps: pickI([65535, BPS, BPS + 1, MAX_DEPOSIT_FEE_BPS + 256], dr(z, 1)) })
    else if (k == 47) { ...a, immBps: pickI([65535, BPS + 1, BPS], dr(z, 1)), lock: 0, vest: 0, immTs: 0 }
    else if (k == 48) { ...a, regs: a.regs.concat(a.regs).concat(a.regs).slice(0, min2(5, 3 * a.regs.length())) }
    else { ...a, immBps: BPS, lock: 0, vest: 1, immTs: 0 }
  }

  // the same for the parameters tied together by a fixed price q
  pure def mutateFixed(a: InitArgs, q: int, z: int): InitArgs = {
    val k = dr(z, 0) % 12
    val n = a.regs.length()
    val unit = max2(1, ceilDiv(q, SCALE))
    val at = if (n > 0) dr(z, 4) % n else 0
    def withR(f: (RegArgs) => RegArgs): InitArgs = { ...a, regs: if (n > 0) a.regs.replaceAt(at, f(a.regs[at])) else a.regs }
    val top = quoteFor(q, a.maxCap)       // the smallest amount that buys as much as the maximum cap
    val tot = a.regs.foldl(0, (x, r) => x + r.supply)
    val need = tokensFor(q, a.maxCap)
    // supplies which together come to t
    def supplies(t: int): InitArgs = { ...a, regs: range(0, n).foldl([], (l, i) => l.append({ ...a.regs[i], supply: if (i == 0) t - (n - 1) * (t / max2(1, n)) else t / n })) }
    if (k == 0) { ...a, minCap: top }                                   // no whole token between the caps
    else if (k == 1) { ...a, minCap: top - 1 }                          // exactly one
    else if (k == 2) { ...a, maxCap: quoteFor(q, a.maxCap) + (if (unit > 1) unit - 1 else 0), minCap: top }
    else if (k == 3) supplies(need)
    else if (k == 4) supplies(need - 1)
    else if (k == 5) supplies(need + 1)
    else if (k == 6) withR(r => { ...r, minCap: unit - 1 })
    else if (k == 7) withR(r => { ...r, minCap: unit + 1 })
    else if (k == 8) withR(r => { ...r, minCap: unit })
    else if (k == 9) withR(r => { ...r, maxCap: pickI([unit - 1, unit, a.maxCap - 1], dr(z, 1)), minCap: if (a.wl == OPEN) unit - dr(z, 2) % 2 else r.minCap })
    else if (k == 10) { ...a, minCap: max2(1, unit - 1) }
    else { ...a, minCap: a.maxCap - dr(z, 1) % (unit + 1) }
  }

  // ---------- amounts and times ----------
  pure def depositPick(p: Presale, r: Reg, e: Escrow, prof: int, z: int): int = {
    val q = quota(p, r, e)
    val unit = max2(1, ceilDiv(p.q, SCALE))
    val c0 = dr(z, 0) % 18
    // pro rata sales are meant to be oversubscribed; elsewhere several participants should fit
    val c = if (p.mode == PRORATA and prof.in(Set(G_PRORATA, G_MULTI)) and c0 > 8) pickI([0, 10, 14], c0)
            else if (prof == G_MULTI and c0 > 4 and c0 != 12) 18 else c0
    val x = wide(z, 1)
    val a =
      if (c == 0) q else if (c == 1) q + 1 else if (c == 2) q - 1
      else if (c == 3) r.minCap - e.dep else if (c == 4) r.minCap - e.dep - 1
      else if (c == 5) U64MAX else if (c == 6) unit else if (c == 7) unit * (1 + x % 5)
      else if (c == 8) registryQuota(p, r) else if (c == 9) globalQuota(p)
      else if (c == 10) q / 2 else if (c == 11) q / 3 + 1
      else if (c == 12) 1 + x % 3 else if (c == 13) r.minCap + x % 7
      else if (c == 14) (if (q > 0) x % q + 1 else 1) else if (c == 15) (if (q > 0) x % q + 1 else 1)
      else if (c == 16) p.minCap - p.dep else if (c == 18) max2(unit, q / 12 + x % 3) else (if (q > 0) x % q + 1 else 0)
    max2(0, min2(U64MAX, a))
  }
  pure def withdrawPick(p: Presale, r: Reg, e: Escrow, z: int): int = {
    val unit = max2(1, ceilDiv(p.q, SCALE))
    val c = dr(z, 0) % 13
    val x = wide(z, 1)
    val a = if (c == 0 or c >= 9) e.dep else if (c == 1) e.dep - 1 else if (c == 2) e.dep + 1 else if (c == 3) 1
      else if (c == 4) unit else if (c == 5) e.dep / 2 else if (c == 6) e.dep - r.minCap
      else if (c == 7) e.dep - r.minCap + 1 else if (e.dep > 0) x % e.dep + 1 else 0
    max2(0, min2(U64MAX, a))
  }
  pure def tickPick(p: Presale, now: int, z: int, late: bool): int = {
    val ts = if (now < p.start) [p.start, p.start, p.start - 1, p.start + 1]
      else if (now < p.end)
        (if (late) [p.end, p.end, p.end - 1, p.end + 1] else [now + 1, now + 7, p.end - 1, now + (p.end - now) / 2, now + 1 + dr(z, 1) % 20])
      else [p.immTs, p.immTs - 1, p.immTs + 1, p.vestStart, p.vestStart - 1, p.vestStart + 1,
            p.vestStart + p.vest / 2, p.vestStart + p.vest / 3, p.vestEnd - 1, p.vestEnd, p.vestEnd + 1, p.vestEnd + 1000, if (dr(z, 3) % 4 == 0) p.vestEnd + 2^33 else p.vestEnd,
            now + 1, now + 7, now + max2(1, p.vest / 10), now + 1 + dr(z, 1) % (p.vest + 1)]
    val t = pickI(ts, dr(z, 0))
    if (t > now) t - now else pickI([1, 3, 11], dr(z, 2))
  }

  pure val URLS: List[str] = ["https://a.example", "", "https://proofs.example/long/path?x=1", "https://préventé.example/ключ/証明",
    "https://proofs.example/0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"]
  // root versions that coincide modulo 2^8 or 2^32
  pure val VERS: List[int] = [0, 1, 256, 2^40 + 1]
  pure val FILL: List[str] = ["w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11", "w12", "w13", "w14", "w15", "w16", "w17", "w18", "w19", "w20", "w21", "w22", "w23", "w24", "w25", "w26", "w27", "w28", "w29", "w30", "w31", "w32", "w33", "w34", "w35", "w36", "w37", "w38", "w39", "w40", "w41", "w42", "w43", "w44", "w45", "w46", "w47", "w48", "w49", "w50", "w51", "w52", "w53", "w54", "w55", "w56", "w57", "w58", "w59", "w60", "w61", "w62", "w63", "w64", "w65", "w66", "w67", "w68", "w69", "w70", "w71", "w72", "w73", "w74", "w75", "w76", "w77", "w78", "w79", "w80", "w81", "w82", "w83", "w84", "w85", "w86", "w87", "w88", "w89", "w90", "w91", "w92", "w93", "w94", "w95", "w96", "w97", "w98", "w99", "w100", "w101", "w102", "w103", "w104", "w105", "w106", "w107", "w108", "w109", "w110", "w111", "w112", "w113", "w114", "w115", "w116", "w117", "w118"]
  // ---------- whitelist trees: a handful of fixed shapes per presale ----------
  pure def treeOf(s: State, p: str, v: int): List[Leaf] = {
    val pr = s.presales.get(p)
    val n = pr.regs.length()
    val m = pr.maxCap
    val lo = if (n > 0) max2(1, pr.regs[0].minCap) else 1
    val k = v % 8
    if (k == 6) range(0, 21).foldl([("u1", 0, m)], (l, i) => l.append(
      if (i == 7) ("u2", 0, max2(lo, m / 2)) else if (i == 20) ("u3", n - 1, m) else (FILL[i], i % 5, m)))
    else if (k == 7) range(0, 48).foldl([], (l, i) => l.append(
      if (i == 3) ("u1", 0, lo) else if (i == 32) ("u2", n - 1, m) else if (i == 47) ("u3", 0, m) else (FILL[i], 0, lo + i)))
    else if (k == 0) [("u1", 0, m)]
    else if (k == 1) [("u1", 0, m), ("u2", n - 1, lo), ("u3", 0, max2(lo, m / 2))]
    else if (k == 2) [("u1", n - 1, m / 2 + 1), ("u2", 0, m)]
    else if (k == 3) [("u1", 0, m), ("u2", 0, m), ("u3", n - 1, m), ("x", 0, lo), ("o1", 0, m)]
    else if (k == 4) [("u1", 0, min2(m + 1, U64MAX)), ("u2", n, m), ("u3", 0, lo - 1), ("x", 0, m)]
    else [("u1", 0, m), ("u2", 0, max2(lo, m / 3)), ("u3", 0, m), ("c1", 0, m), ("c2", 0, m), ("o1", 0, m), ("o2", 0, m)]
  }

  // some whitelists are the small part of a much larger tree: further siblings on the way to the root
  pure def upper(v: int): List[int] =
    range(0, if (v % 8 == 3) 12 else if (v % 8 == 5) 18 else if (v % 8 == 2) 4 else 0).foldl([], (l, i) => l.append(3 + 4 * (i % 7)))
  pure def rootFor(s: State, p: str, v: int): int = upper(v).foldl(rootOf(treeOf(s, p, v)), (h, x) => nodeHash(h, x))

  // ---------- account substitutions that must be refused, per instruction ----------
  pure def tampers(kind: str): List[(str, str)] =
    if (kind == "deposit")
      [("presale", "forged"), ("presale", "sibling"), ("escrow", "forged"), ("escrow", "sibling"), ("escrow", "type"),
       ("quote_token_vault", "sibling"), ("quote_token_vault", "fake"), ("quote_mint", "sibling"),
       ("payer_quote_token", "sibling"), ("payer", "unsigned"), ("token_program", "wallet")]
    else if (kind == "withdraw" or kind == "withdrawRemaining")
      [("presale", "forged"), ("presale", "sibling"), ("escrow", "forged"), ("escrow", "sibling"), ("escrow", "type"),
       ("quote_token_vault", "sibling"), ("quote_token_vault", "fake"), ("quote_mint", "sibling"),
       ("presale_authority", "wallet"), ("owner", "unsigned"), ("token_program", "wallet"), ("memo_program", "wallet")]
    else if (kind == "claim")
      [("presale", "forged"), ("presale", "sibling"), ("escrow", "forged"), ("escrow", "sibling"), ("escrow", "type"),
       ("base_token_vault", "sibling"), ("base_token_vault", "fake"), ("base_mint", "sibling"),
       ("presale_authority", "wallet"), ("owner", "unsigned"), ("token_program", "wallet"), ("memo_program", "wallet")]
    else if (kind == "refresh")
      [("presale", "forged"), ("presale", "sibling"), ("escrow", "forged"), ("escrow", "sibling"), ("escrow", "type")]
    else if (kind == "closeEscrow")
      [("presale", "forged"), ("presale", "sibling"), ("escrow", "forged"), ("escrow", "sibling"), ("escrow", "type"), ("owner", "unsigned")]
    else if (kind == "creatorWithdraw")
      [("presale", "forged"), ("vault", "sibling"), ("vault", "fake"), ("vault", "swap"), ("mint", "sibling"),
       ("presale_authority", "wallet"), ("owner", "unsigned"), ("token_program", "wallet"), ("memo_program", "wallet")]
    else if (kind == "collectFee")
      [("presale", "forged"), ("quote_token_vault", "sibling"), ("quote_token_vault", "fake"), ("quote_mint", "sibling"),
       ("presale_authority", "wallet"), ("owner", "unsigned"), ("token_program", "wallet"), ("memo_program", "wallet")]
    else if (kind == "unsold")
      [("presale", "forged"), ("base_token_vault", "sibling"), ("base_token_vault", "fake"), ("base_mint", "sibling"),
       ("presale_authority", "wallet"), ("creator_base_token", "sibling"), ("creator_base_token", "fake"), ("token_program", "wallet"), ("memo_program", "wallet")]
    else if (kind == "createEscrow")
      [("presale", "forged"), ("escrow", "wrong"), ("payer", "unsigned")]
    else if (kind == "createEscrowByOperator")
      [("presale", "forged"), ("escrow", "wrong"), ("operator", "forged"), ("operator", "type"), ("operator_owner", "unsigned")]
    else if (kind == "createEscrowByProof")
      [("presale", "forged"), ("escrow", "wrong"), ("merkle_root_config", "forged"), ("merkle_root_config", "cross"), ("payer", "unsigned")]
    else if (kind == "createOperator") [("operator", "wrong"), ("creator", "unsigned")]
    else if (kind == "revokeOperator") [("operator", "forged"), ("operator", "type"), ("creator", "unsigned")]
    else if (kind == "createRoot") [("presale", "forged"), ("merkle_root_config", "wrong"), ("creator", "unsigned")]
    else if (kind == "closeRoot") [("presale", "forged"), ("merkle_root_config", "forged"), ("merkle_root_config", "cross"), ("merkle_root_config", "type"), ("creator", "unsigned")]
    else if (kind == "createMeta") [("presale", "forged"), ("permissioned_server_metadata", "wrong"), ("owner", "unsigned")]
    else if (kind == "closeMeta") [("presale", "forged"), ("permissioned_server_metadata", "forged"), ("permissioned_server_metadata", "cross"), ("permissioned_server_metadata", "type"), ("owner", "unsigned")]
    else if (kind == "initFixedArgs") [("fixed_price_presale_params", "wrong"), ("payer", "unsigned")]
    else if (kind == "closeFixedArgs") [("fixed_price_presale_args", "forged"), ("fixed_price_presale_args", "cross"), ("owner", "unsigned")]
    else if (kind == "initPresale")
      [("presale", "wrong"), ("presale_authority", "wallet"), ("presale_vault", "wrong"), ("quote_token_vault", "wrong"),
       ("base", "unsigned"), ("payer", "unsigned"), ("payer_presale_token", "sibling")]
    else [("", "")]

  pure def moves(kind: str): bool = kind.in(Set("deposit", "withdraw", "claim", "withdrawRemaining", "creatorWithdraw", "collectFee", "unsold", "initPresale"))

  // ---------- choosing the instruction ----------
  pure def kindFor(s: State, prof: int, p: str, n: int, z: int): str = {
    val r = dr(z, 0)
    val kinds = ["deposit", "withdraw", "claim", "refresh", "withdrawRemaining", "closeEscrow", "creatorWithdraw", "collectFee", "unsold",
               "createEscrow", "createEscrowByOperator", "createEscrowByProof", "createOperator", "revokeOperator", "createRoot", "closeRoot",
               "createMeta", "closeMeta", "initFixedArgs", "closeFixedArgs", "initPresale", "tick", "donate", "epoch", "tree"]
    if (pct(r, if (prof == G_ADMIN) 25 else 7)) pickS(kinds, r / 100)
    else if (not(hasP(s, p))) {
      if (prof == G_FCFS or prof == G_PRORATA) pickS(["initPresale", "initPresale", "initPresale", "createOperator"], r / 100)
      else if (p.in(s.fargs.keys())) pickS(["initPresale", "initPresale", "initPresale", "initPresale", "closeFixedArgs"], r / 100)
      else if (prof == G_FIXED) "initFixedArgs"
      else pickS(["initFixedArgs", "initFixedArgs", "initPresale"], r / 100)
    } else {
      val pr = s.presales.get(p)
      val g = progress(pr, s.now)
      val esc = s.escrows.keys().filter(k => k._1 == p)
      val mk = if (pr.wl == OPEN) "createEscrow" else if (pr.wl == MERKLE) "createEscrowByProof" else "createEscrowByOperator"
      val prep = if (pr.wl == MERKLE and s.roots.keys().filter(k => k._1 == p).size() == 0) "createRoot"
                 else if (pr.wl == AUTHORITY and s.operators.filter(o => o._1 == pr.owner).size() == 0) "createOperator"
                 else mk
      if (g == NOT_STARTED and n < 24 and (prof == G_ADMIN or (prof == G_MERKLE and pr.wl == MERKLE)))
        pickS(["tick", "createRoot", "closeRoot", "createRoot", "closeRoot", "createMeta", "closeMeta", prep, mk, "deposit", if (pr.wl == AUTHORITY) "revokeOperator" else "createRoot"], r / 100)
      else if (g == NOT_STARTED)
        pickS(["tick", "tick", "tick", prep, mk, "deposit", if (prof == G_ADMIN or (prof == G_MERKLE and pr.wl == MERKLE)) "createRoot" else "tick",
               if (prof == G_ADMIN or (prof == G_MERKLE and pr.wl == MERKLE)) "closeRoot" else prep, if (prof == G_ADMIN) "createMeta" else "tick", if (prof == G_ADMIN) "closeMeta" else prep], r / 100)
      else if (g == ONGOING)
        if (prof == G_MULTI and esc.size() == 0) prep
        else if (prof == G_MULTI and esc.size() < 2 * pr.regs.length() and n < 26) pickS([prep, prep, prep, prep, prep, "deposit", "deposit", "deposit", "deposit", "tick"], r / 100)
        else if (prof == G_MULTI and n < 30) pickS(["deposit", "deposit", "deposit", "deposit", "withdraw", mk, "tick"], r / 100)
        else if (esc.size() == 0) pickS([prep, prep, prep, prep, mk, mk, "tick"], r / 100)
        else if (n > 34 or (n > 24 and pct(r / 100, 30))) pickS(["tick", "tick", "tick", "deposit"], r / 10000)
        else pickS(["deposit", "deposit", "deposit", "deposit", "deposit", if (prof == G_FAIL) "tick" else "deposit", "withdraw", "withdraw", mk, mk, prep,
                    if (pr.wl == AUTHORITY) "revokeOperator" else mk, if (prof == G_PRORATA) "withdraw" else "deposit",
                    "tick", "refresh", "closeEscrow", "donate", if (prof == G_ADMIN) "createMeta" else "deposit",
                    if (prof == G_T22) "epoch" else "deposit", if (prof == G_ADMIN) "closeRoot" else mk], r / 100)
      else if (g == FAILED)
        pickS(["withdrawRemaining", "withdrawRemaining", "withdrawRemaining", "creatorWithdraw", "closeEscrow", "closeEscrow", "claim",
               "collectFee", "unsold", "tick", "refresh", if (prof == G_ADMIN or prof == G_MERKLE) "closeRoot" else "withdrawRemaining", if (prof == G_ADMIN) "closeMeta" else "withdrawRemaining"], r / 100)
      else
        if (prof == G_MULTI and n < 45) pickS(["claim", "withdrawRemaining", if (pr.mode == PRORATA) "withdrawRemaining" else "claim", "collectFee", "unsold",
               "tick", "closeEscrow", "creatorWithdraw", if (pr.mode == PRORATA) "withdrawRemaining" else "tick", "claim"], r / 100)
        else pickS(["claim", "claim", "claim", "claim", "refresh", "refresh", "tick", "tick", "tick", "creatorWithdraw", "collectFee", "unsold",
               "closeEscrow", "closeEscrow", if (pr.mode == PRORATA or pct(r / 7, 30)) "withdrawRemaining" else "claim",
               if (pr.mode == PRORATA) "withdrawRemaining" else "tick", if (prof == G_ADMIN or prof == G_MERKLE) "closeRoot" else "claim",
               if (prof == G_T22) "epoch" else "claim"], r / 100)
    }
  }

  pure def mkOp(s: State, prof: int, n: int, z: int): Op = {
    val p0 = if (pct(dr(z, 0), if (prof == G_TAMPER) 60 else if (prof == G_MULTI) 95 else 85)) "P1" else "P2"
    // an instruction usually targets a presale that live
    val p = if (not(hasP(s, p0)) and hasP(s, other(p0)) and pct(dr(z, 0) / 100, 50)) other(p0) else p0
    val kind = kindFor(s, prof, p, n, z / 2^32)
    val u = if (pct(dr(z, 2) / 100, if (prof == G_MULTI) 60 else 4)) pickS(ALL, dr(z, 2)) else pickS(USERS, dr(z, 2))
    val esc = s.escrows.keys().filter(k => k._1 == p)
    val live = hasP(s, p)
    val pr = if (live) s.presales.get(p) else newPresale(noArgs, s.now, creatorOf(p), { owner: "", q: 0, dw: 0 })
    val nreg = max2(1, pr.regs.length())
    // prefer an escrow that live, for a random user
    val reg0 = if (pr.wl == OPEN) (if (pct(dr(z, 3), 96)) 0 else 1) else dr(z, 3) % (nreg + (if (pct(dr(z, 3) / 10, 5)) 1 else 0))
    val bare = range(0, nreg).select(i => not(esc.exists(k => k._3 == i)))
    val reg1 = if (prof == G_MULTI and bare.length() > 0 and pct(dr(z, 3) / 1000, 70)) bare[0] else reg0
    val mine = esc.filter(k => k._2 == u)
    val own0 = if (mine.size() == 0 and esc.size() > 0 and kind.in(Set("deposit", "withdraw", "claim", "refresh", "withdrawRemaining", "closeEscrow")))
                pickS(ALL.select(w => esc.exists(k => k._2 == w)), dr(z, 2) / 10000) else u
    val hisRegs = range(0, 5).select(i => (p, own0, i).in(s.escrows.keys()))
    val reg = if (kind.in(Set("deposit", "withdraw", "claim", "refresh", "withdrawRemaining", "closeEscrow")) and hisRegs.length() > 0)
                hisRegs[dr(z, 3) % hisRegs.length()] else reg1
    val fresh = ALL.select(w => not((p, w, reg).in(s.escrows.keys())))
    val own = if (prof == G_MULTI and kind == "createEscrowByOperator" and fresh.length() > 0 and pct(dr(z, 4) / 10000, 90)) pickS(fresh, dr(z, 2) / 100) else own0
    val k: EKey = (p, own, reg)
    val e: Escrow = if (hasE(s, k)) s.escrows.get(k) else { dep: 0, fee: 0, claimed: 0, pending: 0, refundDone: false, cap: 0, created: 0, refreshed: 0 }
    val r: Reg = if (reg < pr.regs.length()) pr.regs[reg] else { supply: 0, minCap: 0, maxCap: 0, feeBps: 0, dep: 0, fee: 0, claimed: 0, refunded: 0, escrows: 0 }
    val stranger = pct(dr(z, 4), if (prof == G_MULTI) 3 else 8)
    val someone = pickS(["x", "u1", "u2", "c1", "c2", "o1"], dr(z, 4) / 100)
    val zz = z / 2^192
    val base: Op = { ...noOp, kind: kind, p: p, own: own, reg: reg,
      hook: if (moves(kind) and pct(dr(z, 5), if (prof == G_T22) 20 else 6)) pickS(["none", "zero", "extra", "wrong", "short", "dup", "cut", "cut2", "both", "other", "zerofirst", "surplus"], dr(z, 5) / 100) else "auto" }
    val op: Op =
      if (kind == "tick") { ...noOp, kind: kind, p: p, amt: if (live) tickPick(pr, s.now, zz, n > 24) else 1 + dr(zz, 0) % 30 }
      else if (kind == "epoch") { ...noOp, kind: kind }
      else if (kind == "donate") { ...noOp, kind: kind, p: p, who: "x", amt: 1 + dr(zz, 0) % 50, txt: pickS(["B", "Q"], dr(zz, 1)) }
      else if (kind == "deposit")
        { ...base, who: if (stranger) someone else own, amt: depositPick(pr, r, e, prof, zz) }
      else if (kind == "withdraw")
        { ...base, who: if (stranger) someone else own, amt: withdrawPick(pr, r, e, zz), dest: if (pct(dr(zz, 3), 10)) someone else own }
      else if (kind.in(Set("claim", "withdrawRemaining", "closeEscrow")))
        { ...base, who: if (stranger) someone else own, dest: if (pct(dr(zz, 3), 12)) someone else own }
      else if (kind == "refresh") { ...base, who: someone }
      else if (kind.in(Set("creatorWithdraw", "collectFee"))) {
        val w = if (stranger) someone else pr.owner
        { ...base, who: w, dest: if (pct(dr(zz, 3), 15)) someone else w, own: "", reg: 0,
          txt: if (kind == "collectFee") "" else if (pct(dr(zz, 4), 90) == (progress(pr, s.now) == FAILED)) "B" else "Q" }
      }
      else if (kind == "unsold") { ...base, who: someone, own: "", reg: 0, dest: if (pct(dr(zz, 3), 8)) someone else pr.owner }
      else if (kind == "tree") {
        val c = dr(zz, 0) / 100
        val big = pct(dr(zz, 0), 15)
        val k = if (not(big)) c % 8 else pickI([8, 9, 15, 16, 17, 31, 32, 33, 40, 8 + c % 57, 63 + c % 4, 96 + c % 3, 110 + c % 17, 8 + c % 118], c / 128)
        val ws = ["u1", "u2", "u3", "c1", "c2", "o1", "o2", "x"]
        val f0 = dr(zz, 4) % 3
        val n0 = pickI([127, 128, 129, 255, 256, 257, 258, 300, 513, 700, 1023, 1024, 1025, 127 + c % 1200], dr(zz, 1) / 100)
        if (pct(dr(zz, 1), 5))
          { ...noOp, kind: kind, p: p, ver: VERS[dr(zz, 4) / 3 % 4], amt: n0, cap: pickI([n0, n0, n0 + 1, n0 - 1, n0 / 2 + 1, 3], dr(zz, 2)) }
        else
        { ...noOp, kind: kind, p: p, ver: VERS[dr(zz, 4) / 3 % 4], leaves: range(0, k).foldl([], (l, i) =>
            l.append((if (i < 8 and (f0 == 0 or not(big))) pickS(ws, dr(zz, 1) / (8^i))
                      else if (f0 == 1 and i % 9 == 8) FILL[i % 4] else FILL[i % 119], pickI([0, 1, 2, 255], dr(zz, 2) / (8^(i % 8)) + i / 8),
                      pickI([0, 1, 1000, U64MAX, dr(zz, 3) / (8^(i % 8)) + i], dr(zz, 3) / (7^(i % 8)) + i / 8)))) }
      }
      else if (kind == "createEscrow") { ...base, who: if (stranger) someone else own, reg: 0 }
      else if (kind == "createEscrowByOperator") {
        val ops = s.operators.filter(o => o._1 == pr.owner)
        val apt = ALL.select(w => (pr.owner, w).in(ops))
        val oo = if (apt.length() > 0) apt[dr(zz, 6) % apt.length()] else "o2"
        // sometimes with an appointment by somebody else than the presale's creator, if there is one
        val foreign = ALL.foldl([], (l, c) => if (c == pr.owner) l else ALL.foldl(l, (l2, o) => if ((c, o).in(s.operators)) l2.append((c, o)) else l2))
        val f = foreign.length() > 0 and pct(dr(zz, 4), if (prof == G_MULTI) 2 else 15)
        val fo = if (f) foreign[dr(zz, 5) % foreign.length()] else ("", "")
        val w = if (f) fo._2 else if (stranger) pickS(["o1", "o2", "x", pr.owner, own], dr(z, 4) / 100) else oo
        val ac = if (f) fo._1 else if (pct(dr(zz, 2), 8)) creatorOf(other(p)) else pr.owner
        { ...base, who: w, acc: ac, acc2: if (not(f) and pct(dr(zz, 3), 8)) oo else w,
          cap: if (prof == G_MULTI and pct(dr(zz, 1), 80)) clamp(r.maxCap - dr(zz, 0) % 2) else clamp(pickI([r.maxCap, r.maxCap, r.maxCap / 2, r.minCap, r.minCap - 1, r.maxCap + 1, 0, max2(1, r.maxCap / 3), r.maxCap - 1], dr(zz, 0))) }
      }
      else if (kind == "createEscrowByProof") {
        val vs = range(0, 4).select(v => (p, VERS[v]).in(s.roots.keys()))
        val v = if (vs.length() > 0 and pct(dr(zz, 0), 92)) vs[dr(zz, 1) % vs.length()] else dr(zz, 1) % 4
        // the list behind the published root, sometimes the one an earlier root of this version stood for
        val b = v + pr.created % 7
        val cur = if (live and pr.regs.length() > 0 and (p, VERS[v]).in(s.roots.keys()) and s.roots.get((p, VERS[v])) == rootFor(s, p, b + 1)) b + 1 else b
        val shape = if (pct(dr(zz, 5), 8)) 2 * b + 1 - cur else cur
        val tree = if (live and pr.regs.length() > 0) treeOf(s, p, shape) else [("u1", 0, 1)]
        val us = range(0, tree.length()).select(i => tree[i]._1.in(ALL_SET))
        val i0 = us[dr(zz, 2) % us.length()]
        val lf = tree[i0]
        val up = if (live and pr.regs.length() > 0) upper(shape) else []
        val pf = proofOf(tree, i0).concat(up)
        val m = dr(zz, 3) % 20
        val jun = 3 + 4 * (dr(zz, 4) % 7)
        { ...base, who: if (stranger) someone else lf._1, ver: VERS[v],
          acc: if (m == 0) other(p) else p,
          own: if (m == 1) own else lf._1,
          reg: if (m == 2) (lf._2 + 1) % 3 else lf._2,
          cap: if (m == 3) clamp(lf._3 + 1) else if (m == 4) max2(0, lf._3 - 1) else lf._3,
          proof: if (m == 5) pf.append(jun) else if (m == 6) [jun].concat(pf)
                 else if (m == 7 and pf.length() > 0) pf.slice(0, pf.length() - 1)
                 else if (m == 8) [inner(lf)].concat(pf) else if (m == 9 and pf.length() > 1) pf.slice(1, pf.length())
                 else if (m == 10) proofOf(tree, (i0 + 1) % tree.length()).concat(up) else pf }
      }
      else if (kind == "createOperator")
      {
        val w = if (pct(dr(zz, 0), 75)) (if (live) pr.owner else creatorOf(p)) else pickS([someone, "o1", "o2"], dr(zz, 2))
        // also somebody appointing themselves
        { ...noOp, kind: kind, who: w, own: if (pct(dr(zz, 3), 15)) w else pickS(["o1", "o1", "o2", "x"], dr(zz, 1)) }
      }
      else if (kind == "revokeOperator") {
        val ac = if (pct(dr(zz, 0), 80)) creatorOf(p) else pickS(["c1", "c2", "x"], dr(zz, 1))
        { ...noOp, kind: kind, who: if (stranger or pct(dr(zz, 2), 15)) someone else ac, acc: ac, acc2: pickS(["o1", "o1", "o2"], dr(zz, 3)) }
      }
      else if (kind == "createRoot") {
        val v = dr(zz, 0) % 4
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else pr.owner, ver: VERS[v],
          num: if (live and pr.regs.length() > 0) rootFor(s, p, v + pr.created % 7 + (if (pct(dr(zz, 1), 25)) 1 else 0)) else 3 }
      }
      else if (kind == "closeRoot") {
        val vs = range(0, 4).select(v => (p, VERS[v]).in(s.roots.keys()))
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else pr.owner,
          ver: if (vs.length() > 0 and pct(dr(zz, 3), 75)) VERS[vs[dr(zz, 0) % vs.length()]] else VERS[dr(zz, 0) % 4],
          acc: if (pct(dr(zz, 1), 10)) other(p) else p, dest: pickS(["x", "c1", "u1"], dr(zz, 2)) }
      }
      else if (kind == "createMeta")
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else pr.owner, txt: pickS(URLS, dr(zz, 0)) }
      else if (kind == "closeMeta")
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else pr.owner, acc: if (pct(dr(zz, 1), 10)) other(p) else p,
          dest: pickS(["x", "c1", "u1"], dr(zz, 2)) }
      else if (kind == "initFixedArgs")
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else creatorOf(p), own: if (pct(dr(zz, 5), 10)) someone else creatorOf(p),
          num: if (pct(dr(zz, 6), 3)) 0 else if (prof == G_BIG and pct(dr(zz, 7), 40)) pickI([10 * SCALE, 1000 * SCALE + 7, 4 * SCALE, 2^100], dr(zz, 7) / 100) else mkPrice(zz), reg: if (pct(dr(zz, 6) / 100, 3)) 2 else if (pct(dr(zz, 6) / 100, 25)) 1 else 0 }
      else if (kind == "closeFixedArgs") {
        val fo = if (p.in(s.fargs.keys())) s.fargs.get(p).owner else creatorOf(p)
        { ...noOp, kind: kind, p: p, who: if (stranger) someone else fo }
      }
      else {
        val a = mkArgs(s, prof, p, zz)
        val mut = pct(dr(z, 5) / 7, if (prof == G_INIT) 85 else 10)
        { ...noOp, kind: kind, p: p, who: creatorOf(p), own: if (pct(dr(z, 4), 12)) someone else if (pct(dr(z, 4) / 100, 15)) "c1" else creatorOf(p),
          args: clampArgs(if (mut and a.mode == FIXED and p.in(s.fargs.keys()) and pct(dr(z, 1) / 100, 45)) mutateFixed(a, s.fargs.get(p).q, z / 2^160)
                          else if (mut) mutateArgs(a, s.now, z / 2^160) else a),
          acc: if (a.mode != FIXED) "" else if (pct(dr(z, 4) / 50, 4)) other(p) else if (pct(dr(z, 4) / 50, 7)) "" else p, hook: base.hook }
      }
    op
  }

  // An instruction for a random draw: biased towards accepted ones, some of which are then offered
  // with one account replaced.
  pure def chooseOp(s: State, prof: int, n: int, z: int, y: int): Op = {
    val o1 = mkOp(s, prof, n, z)
    val good1 = apply(s, o1).ok
    val o2 = if (good1 or pct(dr(y, 18), if (prof == G_INIT and o1.kind == "initPresale") 90 else 35)) o1 else mkOp(s, prof, n, y)
    val ts = if (o2.kind == "initPresale" and o2.acc != "") tampers(o2.kind).concat([("fargs", "forged"), ("fargs", "forged")]) else tampers(o2.kind)
    val t = ts[dr(y, 17) % ts.length()]
    if (ts[0]._1 != "" and pct(dr(y, 16), if (prof == G_TAMPER) 35 else 6) and (good1 or apply(s, o2).ok or pct(dr(y, 15), 15)))
      { ...o2, slot: t._1, sub: t._2 } else o2
  }
}
