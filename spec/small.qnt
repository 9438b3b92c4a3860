// Small scope, exhaustively: every reachable state of a few small sales, and in each of them every
// instruction of a menu, friendly and hostile.  Explored completely by TLC (tools/small.py); the graph is then
// replayed edge by edge in the program.
module small {
  import params.* from "./params"
  import types.* from "./types"
  import math.* from "./math"
  import presale.* from "./presale"
  import props.* from "./props"

  var sst: State
  var sgh: Ghost
  var sin: int          // the instance
  var sbad: Set[str]    // properties violated by the last transition

  pure val T0: int = 1700000000
  pure val spl: Mint = { t22: false, hasFee: false, fee0: { bps: 0, max: 0 }, fee1: { bps: 0, max: 0 }, switch: 0, hook: false, ext: "", memo: false }
  pure val taxed: Mint = { t22: true, hasFee: true, fee0: { bps: 1000, max: 1 }, fee1: { bps: 2500, max: 1000 }, switch: 1, hook: false, ext: "", memo: false }
  pure def start(i: int): State = { now: T0, epoch: 0, base: if (i == 6) taxed else spl, quote: if (i == 6) taxed else spl,
      presales: Map(), baseVault: Map(), quoteVault: Map(), escrows: Map(), operators: Set(),
      roots: Map(), fargs: Map(), meta: Map(),
      balB: Map("c1" -> 1000, "c2" -> 0, "u1" -> 0, "u2" -> 0, "u3" -> 0, "o1" -> 0, "o2" -> 0, "x" -> 0),
      balQ: Map("c1" -> 0, "c2" -> 0, "u1" -> 100, "u2" -> 100, "u3" -> 100, "o1" -> 0, "o2" -> 0, "x" -> 0),
      supplyB: 1000 }

  // ---------- the sales ----------
  pure def reg(lo: int, hi: int, sup: int, fee: int): RegArgs = { minCap: lo, maxCap: hi, supply: sup, feeBps: fee }
  pure val sale: InitArgs = { maxCap: 10, minCap: 6, start: 0, end: T0 + 60, wl: OPEN, mode: PRORATA, unsold: REFUND, disEarly: 0,
     immBps: 0, lock: 0, vest: 0, immTs: 0, regs: [reg(2, 10, 7, 2000)] }
  // 1 pro rata with vesting; 2 fixed price with withdrawals; 3 first come, two gated registries, ends early;
  // 4 pro rata, two gated registries with different fees; 5 fixed price, two gated registries, no withdrawals, burning; 6 first come, taxed mints;
  // 7 one buyer, vesting in detail
  pure def termsOf(i: int): InitArgs =
    if (i == 1) { ...sale, immBps: 3000, lock: 60, vest: 60, immTs: T0 + 120 }
    else if (i == 2) { ...sale, mode: FIXED, maxCap: 9, minCap: 5, regs: [reg(3, 9, 8, 500)] }
    else if (i == 3) { ...sale, mode: FCFS, wl: AUTHORITY, maxCap: 8, minCap: 4, end: T0 + 120, unsold: BURN, immBps: 5000, lock: 60, vest: 60, immTs: T0 + 120, regs: [reg(1, 8, 5, 0), reg(1, 8, 7, 3000)] }
    else if (i == 4) { ...sale, wl: AUTHORITY, maxCap: 7, minCap: 7, regs: [reg(1, 7, 9, 1000), reg(1, 7, 4, 5000)] }
    else if (i == 5) { ...sale, mode: FIXED, wl: AUTHORITY, maxCap: 6, minCap: 3, unsold: BURN, disEarly: 1, regs: [reg(2, 6, 3, 0), reg(2, 6, 3, 2500)] }
    else if (i == 6) { ...sale, mode: FCFS, maxCap: 10, minCap: 4, regs: [reg(2, 10, 9, 1000)] }
    else { ...sale, mode: PRORATA, maxCap: 4, minCap: 4, regs: [reg(0, 4, 11, 1)], immBps: 3333, lock: 60, vest: 180, immTs: T0 + 60 }
  pure def fixedPrice(i: int): int = if (i == 2) 6 * SCALE / 4 else if (i == 5) 5 * SCALE / 4 else 0
  pure def regOfUser(i: int, u: str): int = if (i.in(Set(3, 4, 5)) and u == "u2") 1 else 0

  // ---------- the menu ----------
  pure def on(i: int, kind: str, u: str): Op = { ...noOp, kind: kind, p: "P1", who: u, own: u, dest: u, reg: regOfUser(i, u) }
  pure def by(o: Op, w: str): Op = { ...o, who: w, dest: w }
  pure def opening(i: int, u: str): Op =
    if (termsOf(i).wl == AUTHORITY) { ...on(i, "createEscrowByOperator", u), who: "o1", dest: "", acc: "c1", acc2: "o1", cap: if (i == 4) 7 else 5 }
    else { ...on(i, "createEscrow", u), dest: "" }
  pure def deposits(i: int): List[int] = if (i == 1) [3, 10] else if (i == 2) [3, 4, 9] else if (i == 3) [2, 5] else if (i == 4) [3, 7] else if (i == 5) [2, 6] else if (i == 6) [3, 9] else [1, 4]
  pure def withdrawals(i: int): List[int] = if (i == 1) [3, 10] else if (i == 2) [1, 3] else if (i == 4) [3] else if (i == 7) [1] else [2]
  pure def buyers(i: int): List[str] = if (i == 7) ["u1"] else ["u1", "u2"]
  pure def forUser(i: int, u: str): List[Op] =
    withdrawals(i).foldl(deposits(i).foldl([opening(i, u)],
        (l, a) => l.append({ ...on(i, "deposit", u), amt: a })), (l, a) => l.append({ ...on(i, "withdraw", u), amt: a }))
      .concat([on(i, "claim", u), on(i, "withdrawRemaining", u), on(i, "closeEscrow", u)])
  pure def crOp(kind: str, w: str, m: str): Op = { ...noOp, kind: kind, p: "P1", who: w, dest: w, txt: m }
  pure def menuOf(i: int): List[Op] =
    [ { ...noOp, kind: "tick", amt: 60 } ]
    .concat(if (fixedPrice(i) > 0) [{ ...noOp, kind: "initFixedArgs", p: "P1", who: "c1", own: "c1", num: fixedPrice(i), reg: if (i == 5) 1 else 0 },
                                    { ...noOp, kind: "closeFixedArgs", p: "P1", who: "c1" }] else [])
    .concat(if (termsOf(i).wl == AUTHORITY) [{ ...noOp, kind: "createOperator", who: "c1", own: "o1" },
                                             { ...noOp, kind: "revokeOperator", who: "c1", acc: "c1", acc2: "o1" }] else [])
    .concat([{ ...noOp, kind: "initPresale", p: "P1", who: "c1", own: "c1", args: termsOf(i), acc: if (fixedPrice(i) > 0) "P1" else "" }])
    .concat(buyers(i).foldl([], (l, u) => l.concat(forUser(i, u))))
    .concat([crOp("creatorWithdraw", "c1", "Q"), crOp("creatorWithdraw", "c1", "B"), crOp("collectFee", "c1", ""),
             { ...crOp("unsold", "x", ""), dest: "c1" }])
    .concat(if (i == 6) [{ ...noOp, kind: "epoch" }] else if (i == 7) [{ ...on(i, "refresh", "u1"), who: "x" }] else [])
    // by strangers, to the wrong receiver
    .concat([by(on(i, "withdraw", "u1"), "u2"), by(on(i, "claim", "u1"), "u2"), by(on(i, "withdrawRemaining", "u1"), "u2"), by(on(i, "closeEscrow", "u1"), "x"),
             crOp("creatorWithdraw", "u1", "Q"), crOp("creatorWithdraw", "x", "B"), crOp("collectFee", "u1", ""), { ...crOp("unsold", "x", ""), dest: "x" }])

  // ---------- the scope ----------
  pure def used(g: Ghost, o: Op): bool = at(g.inQ, opKey(o)) > 0
  pure def scope(i: int, s: State, g: Ghost, o: Op): bool = and {
    hasP(s, "P1") or o.kind.in(Set("initPresale", "initFixedArgs", "createOperator")),
    o.kind == "initPresale" implies (not(hasP(s, "P1")) and (fixedPrice(i) > 0 implies "P1".in(s.fargs.keys()))
                                     and (termsOf(i).wl == AUTHORITY implies ("c1", "o1").in(s.operators))),
    o.kind.in(Set("initFixedArgs", "createOperator")) implies not(hasP(s, "P1")),
    o.kind.in(Set("closeFixedArgs", "revokeOperator")) implies hasP(s, "P1") and escrowsOf(s, "P1").size() > 0,
    LEVEL == 0 implies (o.kind == "revokeOperator" implies i == 5) and (o.kind == "closeFixedArgs" implies i == 2),
    o.kind == "tick" implies s.now < T0 + (if (i == 7) 360 else if (i.in(Set(1, 3))) (if (LEVEL == 0) 180 else 240) else 120),
    o.kind == "epoch" implies s.epoch < 1 and s.now == T0,
    // an escrow is opened once, and one deposit is followed by another only after a withdrawal or as a top-up of the first
    o.kind.in(Set("createEscrow", "createEscrowByOperator")) implies not(opKey(o).in(g.closed.keys())),
    o.kind == "deposit" implies at(g.inQ, opKey(o)) <= (if (i == 7) 4 else if (LEVEL < 2) 0 else if (i.in(Set(3, 5))) 3 else 4),
    o.kind == "withdraw" implies at(g.wdQ, opKey(o)) == 0,
    // the narrowest scope: the second buyer makes one kind of deposit and stays
    LEVEL == 0 implies (o.own == "u2" and o.who == "u2") implies
      (o.kind != "withdraw" and (o.kind == "deposit" implies o.amt == deposits(i)[1]))
  }
  pure val MENUS: List[List[Op]] = [[], menuOf(1), menuOf(2), menuOf(3), menuOf(4), menuOf(5), menuOf(6), menuOf(7)]
  action accepts(k: int): bool = all {
    k < MENUS[sin].length(),
    scope(sin, sst, sgh, MENUS[sin][k]),
    val o = MENUS[sin][k]
    val r = apply(sst, o)
    val x: Tr = { s: sst, op: o, ok: r.ok, ev: r.ev, rent: r.rent, t: r.s }
    val h = advance(sgh, x)
    all { r.ok, sst' = r.s, sgh' = h, sin' = sin, sbad' = violated(x, sgh, h) }
  }
  action rejects(k: int): bool = all {
    k < MENUS[sin].length(),
    scope(sin, sst, sgh, MENUS[sin][k]),
    not(apply(sst, MENUS[sin][k]).ok),
    sst' = sst, sgh' = sgh, sin' = sin, sbad' = sbad
  }
  action init = {
    nondet i = 1.to(7).oneOf()
    all { sst' = start(i), sgh' = ghost0, sin' = i, sbad' = Set() }
  }
  action step = {
    nondet k = 0.to(43).oneOf()
    any { accepts(k), rejects(k) }
  }
  val safe = sbad == Set()
}
