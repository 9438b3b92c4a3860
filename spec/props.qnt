// The properties, as predicates over one transition of the system together with the history so far.
// They are evaluated on behaviours of this specification and on transitions recorded from the program.
// Every predicate is total: a recorded state may be anything.
module props {
  import params.* from "./params"
  import types.* from "./types"
  import math.* from "./math"
  import merkle.* from "./merkle"
  import presale.* from "./presale"

  // One transition: instruction `op` took `s` to `t` with result (ok, ev, rent).
  type Tr = { s: State, op: Op, ok: bool, ev: Event, rent: str, t: State }

  // History, kept from what moved in the vaults and not from the program's own books.
  type Ghost = {
    inQ: EKey -> int,    // quote that entered the vault by deposits into the escrow
    wdQ: EKey -> int,    // quote that left the vault by withdrawals during the sale
    rfQ: EKey -> int,    // quote that left the vault by refunds after the sale
    rfN: EKey -> int,    // accepted refunds
    outB: EKey -> int,   // base that left the vault by claims
    closed: EKey -> Escrow,  // closed escrows, as they were
    crQ: str -> int, crB: str -> int, crN: str -> int,   // creator withdrawals
    feeQ: str -> int, feeN: str -> int,                  // fee collections
    unsB: str -> int, unsN: str -> int,                  // unsold token actions
    donQ: str -> int, donB: str -> int,                  // tokens sent to the vaults by others
    born: str -> Presale,                                // presales as created
    outcome: str -> int                                  // first finished outcome seen
  }
  pure val ghost0: Ghost = { inQ: Map(), wdQ: Map(), rfQ: Map(), rfN: Map(), outB: Map(), closed: Map(),
    crQ: Map(), crB: Map(), crN: Map(), feeQ: Map(), feeN: Map(), unsB: Map(), unsN: Map(), donQ: Map(),
    donB: Map(), born: Map(), outcome: Map() }

  pure def at(m: a -> int, k: a): int = if (k.in(m.keys())) m.get(k) else 0
  pure def add(m: a -> int, k: a, v: int): a -> int = m.put(k, at(m, k) + v)
  pure val noEscrow: Escrow = { dep: 0, fee: 0, claimed: 0, pending: 0, refundDone: false, cap: 0, created: 0, refreshed: 0 }
  pure def escrowOf(s: State, k: EKey): Escrow = if (k.in(s.escrows.keys())) s.escrows.get(k) else noEscrow
  pure val noPresale: Presale = newPresale(noArgs, 0, "", { owner: "", q: 0, dw: 0 })
  pure def presaleOf(s: State, p: str): Presale = if (hasP(s, p)) s.presales.get(p) else noPresale
  pure def total(ks: Set[a], f: a => int): int = ks.fold(0, (x, k) => x + f(k))

  pure def isEscrowOp(op: Op): bool =
    op.kind.in(Set("deposit", "withdraw", "claim", "refresh", "withdrawRemaining", "closeEscrow",
                   "createEscrow", "createEscrowByOperator", "createEscrowByProof"))
  pure def opKey(op: Op): EKey = if (op.kind == "createEscrow") (op.p, op.own, 0) else (op.p, op.own, op.reg)

  pure def outcomes(g: Ghost, t: State): str -> int =
    g.outcome.keys().union(t.presales.keys().filter(p => progress(t.presales.get(p), t.now).in(Set(COMPLETED, FAILED))))
     .mapBy(p => if (p.in(g.outcome.keys())) g.outcome.get(p) else progress(t.presales.get(p), t.now))

  pure def advance(g: Ghost, x: Tr): Ghost = {
    val dq = bal(x.t.quoteVault, x.op.p) - bal(x.s.quoteVault, x.op.p)
    val db = bal(x.t.baseVault, x.op.p) - bal(x.s.baseVault, x.op.p)
    val k = opKey(x.op)
    val p = x.op.p
    val g1 =
      if (not(x.ok)) g
      else if (x.op.kind == "deposit") { ...g, inQ: add(g.inQ, k, dq) }
      else if (x.op.kind == "withdraw") { ...g, wdQ: add(g.wdQ, k, -dq) }
      else if (x.op.kind == "withdrawRemaining") { ...g, rfQ: add(g.rfQ, k, -dq), rfN: add(g.rfN, k, 1) }
      else if (x.op.kind == "claim") { ...g, outB: add(g.outB, k, -db) }
      else if (x.op.kind == "closeEscrow") { ...g, closed: g.closed.put(k, escrowOf(x.s, k)) }
      else if (x.op.kind == "creatorWithdraw") { ...g, crQ: add(g.crQ, p, -dq), crB: add(g.crB, p, -db), crN: add(g.crN, p, 1) }
      else if (x.op.kind == "collectFee") { ...g, feeQ: add(g.feeQ, p, -dq), feeN: add(g.feeN, p, 1) }
      else if (x.op.kind == "unsold") { ...g, unsB: add(g.unsB, p, -db), unsN: add(g.unsN, p, 1) }
      else if (x.op.kind == "donate") { ...g, donQ: add(g.donQ, p, dq), donB: add(g.donB, p, db) }
      else if (x.op.kind == "initPresale") { ...g, born: g.born.put(p, presaleOf(x.t, p)) }
      else g
    { ...g1, outcome: outcomes(g1, x.t) }
  }

  // ---------- derived quantities of a state ----------
  pure def escrowsOf(s: State, p: str): Set[EKey] = s.escrows.keys().filter(k => k._1 == p)
  pure def closedOf(s: State, g: Ghost, p: str): Set[EKey] =
    g.closed.keys().filter(k => k._1 == p and not(k.in(s.escrows.keys())))
  // every escrow of p, open or closed, as last seen
  pure def everyOf(s: State, g: Ghost, p: str): EKey -> Escrow =
    escrowsOf(s, p).union(closedOf(s, g, p)).mapBy(k => if (k.in(s.escrows.keys())) s.escrows.get(k) else g.closed.get(k))
  pure def progOf(s: State, p: str): int = progress(s.presales.get(p), s.now)
  pure def refundDue(s: State, p: str, k: EKey): int = {
    val pr = s.presales.get(p)
    val e = s.escrows.get(k)
    if (e.refundDone) 0 else max2(0, refundOf(pr, regOf(pr, k._3), e, progOf(s, p)))
  }
  pure def quoteOwed(s: State, p: str): int = {
    val pr = s.presales.get(p)
    val g = progOf(s, p)
    if (g == COMPLETED)
      (if (pr.creatorWithdrawn) 0 else proceeds(pr)) + (if (pr.feeCollected) 0 else collectable(pr))
        + total(escrowsOf(s, p), k => refundDue(s, p, k))
    else if (g == FAILED) total(escrowsOf(s, p), k => refundDue(s, p, k))
    else total(escrowsOf(s, p), k => s.escrows.get(k).dep + s.escrows.get(k).fee)
  }
  pure def baseOwed(s: State, p: str): int = {
    val pr = s.presales.get(p)
    val g = progOf(s, p)
    if (g == COMPLETED)
      (if (pr.unsoldDone) 0 else max2(0, unsoldOf(pr)))
        + total(escrowsOf(s, p), k => max2(0, entitlement(pr, regOf(pr, k._3), s.escrows.get(k).dep) - s.escrows.get(k).claimed))
    else if (g == FAILED and pr.creatorWithdrawn) 0
    else pr.supply
  }
  pure def walletDelta(m0: str -> int, m1: str -> int, w: str): int = bal(m1, w) - bal(m0, w)
  pure def wallets(s: State): Set[str] = s.balB.keys().union(s.balQ.keys())

  // =====================================================================================
  // Each property: e is what the specification prescribes for this transition, g / h the history
  // before / after it.

  // C01 quote solvency and conservation
  pure def C01(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.t.quoteVault == e.s.quoteVault,
    x.t.presales.keys().forall(p => and {
      bal(x.t.quoteVault, p) >= quoteOwed(x.t, p),
      bal(x.t.quoteVault, p) == total(h.inQ.keys().filter(k => k._1 == p), k => at(h.inQ, k))
        - total(h.wdQ.keys().filter(k => k._1 == p), k => at(h.wdQ, k))
        - total(h.rfQ.keys().filter(k => k._1 == p), k => at(h.rfQ, k))
        - at(h.crQ, p) - at(h.feeQ, p) + at(h.donQ, p)
    })
  }
  // C02 base solvency and conservation
  pure def C02(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.t.baseVault == e.s.baseVault,
    x.t.supplyB == e.s.supplyB,
    x.t.presales.keys().forall(p => and {
      bal(x.t.baseVault, p) >= baseOwed(x.t, p),
      bal(x.t.baseVault, p) == x.t.presales.get(p).supply
        - total(h.outB.keys().filter(k => k._1 == p), k => at(h.outB, k))
        - at(h.crB, p) - at(h.unsB, p) + at(h.donB, p)
    })
  }
  // C03 isolation: an instruction touches only the accounts it is about
  pure def C03(x: Tr, e: Res, g: Ghost, h: Ghost): bool = {
    val p = x.op.p
    val k = opKey(x.op)
    val parties = Set(x.op.who, x.op.dest).union(if (x.op.kind == "unsold") Set(presaleOf(x.s, p).owner) else Set())
    and {
      x.s.presales.keys().union(x.t.presales.keys()).exclude(Set(p)).forall(q => and {
        presaleOf(x.s, q) == presaleOf(x.t, q), hasP(x.s, q) == hasP(x.t, q),
        bal(x.s.quoteVault, q) == bal(x.t.quoteVault, q), bal(x.s.baseVault, q) == bal(x.t.baseVault, q) }),
      // nor anything registered for another presale
      x.s.roots.keys().union(x.t.roots.keys()).forall(r => r._1 == p
        or (r.in(x.s.roots.keys()) and r.in(x.t.roots.keys()) and x.s.roots.get(r) == x.t.roots.get(r))),
      x.s.meta.keys().union(x.t.meta.keys()).forall(r => r == p
        or (r.in(x.s.meta.keys()) and r.in(x.t.meta.keys()) and x.s.meta.get(r) == x.t.meta.get(r))),
      x.s.fargs.keys().union(x.t.fargs.keys()).forall(r => r == p
        or (r.in(x.s.fargs.keys()) and r.in(x.t.fargs.keys()) and x.s.fargs.get(r) == x.t.fargs.get(r))),
      x.s.escrows.keys().union(x.t.escrows.keys()).forall(j =>
        (isEscrowOp(x.op) and j == k)
        or (j.in(x.s.escrows.keys()) == j.in(x.t.escrows.keys()) and escrowOf(x.s, j) == escrowOf(x.t, j))),
      wallets(x.s).union(wallets(x.t)).exclude(parties).forall(w =>
        walletDelta(x.s.balB, x.t.balB, w) == 0 and walletDelta(x.s.balQ, x.t.balQ, w) == 0),
      x.op.slot == "" or x.t == x.s
    }
  }
  // C04 authorization and account binding
  pure def authorised(s: State, op: Op): bool =
    if (op.kind.in(Set("withdraw", "claim", "withdrawRemaining", "closeEscrow"))) op.who == op.own
    else if (op.kind.in(Set("creatorWithdraw", "collectFee", "createRoot", "createMeta"))) op.who == presaleOf(s, op.p).owner
    else if (op.kind.in(Set("closeRoot", "closeMeta"))) op.who == presaleOf(s, op.p).owner and op.acc == op.p
    else if (op.kind == "unsold") op.dest == presaleOf(s, op.p).owner
    else if (op.kind == "closeFixedArgs") op.p.in(s.fargs.keys()) and s.fargs.get(op.p).owner == op.who
    else if (op.kind == "revokeOperator") op.who == op.acc
    else if (op.kind == "createEscrowByOperator")
      op.who == op.acc2 and op.acc == presaleOf(s, op.p).owner and (op.acc, op.acc2).in(s.operators)
    else if (op.kind == "createEscrowByProof") op.acc == op.p
    else true
  pure def C04(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.ok implies (x.op.slot == "" and authorised(x.s, x.op)),
    // value leaves a wallet only if it signed, and an escrow only for its owner
    wallets(x.t).forall(w => (walletDelta(x.s.balQ, x.t.balQ, w) < 0 or walletDelta(x.s.balB, x.t.balB, w) < 0)
                              implies w == x.op.who),
    x.s.presales.keys().forall(p => presaleOf(x.t, p).owner == presaleOf(x.s, p).owner),
    // the rightful party is not refused
    (e.ok and x.op.kind.in(Set("withdraw", "claim", "withdrawRemaining", "closeEscrow", "creatorWithdraw", "collectFee",
       "createRoot", "createMeta", "closeRoot", "closeMeta", "closeFixedArgs", "revokeOperator", "unsold"))) implies x.ok
  }
  // C05 phases and outcome
  pure def phaseOk(s: State, op: Op): bool = {
    val g = progress(presaleOf(s, op.p), s.now)
    if (op.kind.in(Set("deposit", "withdraw", "createEscrow", "createEscrowByOperator", "createEscrowByProof"))) g == ONGOING
    else if (op.kind.in(Set("claim", "collectFee", "unsold"))) g == COMPLETED
    else if (op.kind.in(Set("withdrawRemaining", "creatorWithdraw"))) g == COMPLETED or g == FAILED
    else if (op.kind == "closeEscrow") g != NOT_STARTED
    else if (op.kind.in(Set("createRoot", "createMeta"))) g == NOT_STARTED or g == ONGOING
    else if (op.kind == "closeRoot") g != ONGOING
    else true
  }
  pure def gated(op: Op): bool = op.kind.in(Set("deposit", "withdraw", "createEscrow", "createEscrowByOperator", "createEscrowByProof",
    "claim", "collectFee", "unsold", "withdrawRemaining", "creatorWithdraw", "closeEscrow", "createRoot", "createMeta", "closeRoot"))
  pure def C05(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.ok implies phaseOk(x.s, x.op),
    (gated(x.op) and e.ok) implies x.ok,
    g.outcome.keys().forall(p => hasP(x.t, p) implies progOf(x.t, p) == g.outcome.get(p)),
    x.s.presales.keys().forall(p => hasP(x.t, p) implies
      (progOf(x.t, p) >= progOf(x.s, p) or progOf(x.s, p) == FAILED) and (progOf(x.s, p) == COMPLETED implies progOf(x.t, p) == COMPLETED)),
    // the two outcomes' payouts never mix
    h.outcome.keys().forall(p =>
      if (h.outcome.get(p) == FAILED) at(h.crQ, p) == 0 and at(h.feeQ, p) == 0 and at(h.unsB, p) == 0
          and h.outB.keys().filter(k => k._1 == p).forall(k => at(h.outB, k) == 0)
      else at(h.crB, p) == 0)
  }
  // C06 deposit limits
  pure def C06(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "deposit" implies {
      val k = opKey(x.op)
      val d = escrowOf(x.t, k).dep - escrowOf(x.s, k).dep
      val pr = presaleOf(x.t, x.op.p)
      val r = regOf(pr, x.op.reg)
      and {
        x.ok == e.ok,
        escrowOf(x.t, k).dep == escrowOf(e.s, k).dep,
        x.ok implies and { d > 0, d <= x.op.amt, escrowOf(x.t, k).dep >= r.minCap }
      }
    },
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      pr.mode == PRORATA or pr.dep <= pr.maxCap
    }),
    x.t.escrows.keys().forall(k => {
      val r = regOf(presaleOf(x.t, k._1), k._3)
      val es = x.t.escrows.get(k)
      es.dep <= es.cap and es.dep <= r.maxCap and (es.dep == 0 or es.dep >= r.minCap)
    })
  }
  // C07 deposit fee and charge
  pure def C07(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    (x.op.kind == "deposit" and x.ok) implies {
      val k = opKey(x.op)
      val a = escrowOf(x.t, k).dep - escrowOf(x.s, k).dep
      val f = escrowOf(x.t, k).fee - escrowOf(x.s, k).fee
      val p0 = presaleOf(x.s, x.op.p)
      val p1 = presaleOf(x.t, x.op.p)
      val bps = regOf(p0, x.op.reg).feeBps
      and {
        f == feeIncluded(a, bps) - a,
        // f is the smallest fee that is at least bps of what is paid
        f * BPS >= bps * (a + f), f == 0 or (f - 1) * BPS < bps * (a + f - 1),
        p1.fee - p0.fee == f, regOf(p1, x.op.reg).fee - regOf(p0, x.op.reg).fee == f,
        p1.dep - p0.dep == a, regOf(p1, x.op.reg).dep - regOf(p0, x.op.reg).dep == a,
        bal(x.t.quoteVault, x.op.p) - bal(x.s.quoteVault, x.op.p) == a + f,
        -walletDelta(x.s.balQ, x.t.balQ, x.op.who) == grossUp(x.s.quote, x.s.epoch, a + f)
      }
    },
    // nothing else changes recorded fees
    x.t.presales.keys().forall(p => hasP(x.s, p) implies and {
      (x.op.kind == "deposit" and p == x.op.p) or presaleOf(x.t, p).fee == presaleOf(x.s, p).fee,
      range(0, presaleOf(x.t, p).regs.length()).foldl(true, (b, i) => b and
        ((x.op.kind == "deposit" and p == x.op.p and i == x.op.reg) or regOf(presaleOf(x.t, p), i).fee == regOf(presaleOf(x.s, p), i).fee)) }),
    x.t.escrows.keys().forall(k => (hasE(x.s, k) and not(x.op.kind == "deposit" and k == opKey(x.op))) implies
      x.t.escrows.get(k).fee == x.s.escrows.get(k).fee),
    // books agree with the tokens received
    x.t.escrows.keys().forall(k => x.t.escrows.get(k).dep + x.t.escrows.get(k).fee == at(h.inQ, k) - at(h.wdQ, k))
  }
  // C08 fixed price
  pure def C08(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    (x.op.kind.in(Set("deposit", "withdraw")) and presaleOf(x.s, x.op.p).mode == FIXED) implies and {
      x.ok == e.ok,
      escrowOf(x.t, opKey(x.op)).dep == escrowOf(e.s, opKey(x.op)).dep,
      // a purchase is the price of a whole number of tokens, rounded up, and never a unit more
      (x.ok and x.op.kind == "deposit") implies {
        val d = escrowOf(x.t, opKey(x.op)).dep - escrowOf(x.s, opKey(x.op)).dep
        quoteFor(presaleOf(x.s, x.op.p).q, d) == d and tokensFor(presaleOf(x.s, x.op.p).q, d) >= 1
      }
    },
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      pr.mode == FIXED implies and {
        pr.q > 0,
        range(0, pr.regs.length()).foldl(true, (b, i) => b and {
          val out = total(h.outB.keys().filter(k => k._1 == p and k._3 == i), k => at(h.outB, k))
          // never below the price, never above the registry's supply
          and { out * pr.q <= pr.regs[i].dep * SCALE, out <= pr.regs[i].supply }
        }),
        totalSold(pr) <= pr.supply
      }
    }),
    (x.op.kind == "initFixedArgs" or (x.op.kind == "initPresale" and x.op.args.mode == FIXED)) implies and {
      x.ok == e.ok, x.t.fargs == e.s.fargs,
      presaleOf(x.t, x.op.p).q == presaleOf(e.s, x.op.p).q
    },
    (x.op.kind == "claim" and presaleOf(x.s, x.op.p).mode == FIXED) implies
      escrowOf(x.t, opKey(x.op)).claimed == escrowOf(e.s, opKey(x.op)).claimed
  }
  // C09 early end and the schedule
  pure def C09(x: Tr, e: Res, g: Ghost, h: Ghost): bool = x.s.presales.keys().forall(p => hasP(x.t, p) implies {
    val a = x.s.presales.get(p)
    val b = x.t.presales.get(p)
    val c = presaleOf(e.s, p)
    val filled = x.op.kind == "deposit" and x.ok and x.op.p == p and b.mode != PRORATA and b.disEarly == 0 and b.dep >= b.maxCap
    and {
      (b.end, b.immTs, b.vestStart, b.vestEnd) ==
        (if (filled) (x.s.now, x.s.now + max2(0, a.immTs - a.end), x.s.now + a.lock, x.s.now + a.lock + a.vest)
         else (a.end, a.immTs, a.vestStart, a.vestEnd)),
      // and a sale that is full does not stay open
      (x.op.kind == "deposit" and x.op.p == p and e.ok) implies b.end == c.end,
      (b.mode != PRORATA and b.disEarly == 0 and b.dep >= b.maxCap) implies x.t.now >= b.end
    }
  })
  // C10 withdrawals during the sale
  pure def C10(x: Tr, e: Res, g: Ghost, h: Ghost): bool = x.op.kind == "withdraw" implies {
    val k = opKey(x.op)
    val a = escrowOf(x.s, k).dep - escrowOf(x.t, k).dep
    and {
      x.ok == e.ok, x.t.escrows == e.s.escrows, x.t.presales == e.s.presales,
      x.t.quoteVault == e.s.quoteVault, x.t.balQ == e.s.balQ, x.t.balB == x.s.balB,
      x.ok implies and {
        a > 0, a <= x.op.amt, withdrawAllowed(presaleOf(x.s, x.op.p)),
        bal(x.s.quoteVault, x.op.p) - bal(x.t.quoteVault, x.op.p) == a,
        escrowOf(x.t, k).fee == escrowOf(x.s, k).fee,
        at(h.wdQ, k) <= at(h.inQ, k)
      }
    }
  }
  // C11 vesting
  pure def C11(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "claim" implies and {
      x.ok == e.ok, x.t.escrows == e.s.escrows, x.t.baseVault == e.s.baseVault, x.t.balB == e.s.balB
    },
    x.t.escrows.keys().forall(k => {
      val pr = presaleOf(x.t, k._1)
      val es = x.t.escrows.get(k)
      val r = regOf(pr, k._3)
      and {
        es.claimed == at(h.outB, k),
        es.claimed <= entitlement(pr, r, es.dep),
        progress(pr, x.t.now) == COMPLETED implies es.claimed <= released(pr, r, es.dep, x.t.now),
        progress(pr, x.t.now) != COMPLETED implies es.claimed == 0,
        es.claimed >= escrowOf(x.s, k).claimed or not(hasE(x.s, k)),
        (x.op.kind == "claim" and x.ok and k == opKey(x.op)) implies es.claimed == released(pr, r, es.dep, x.t.now)
      }
    })
  }
  // C12 fair shares
  pure def C12(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind.in(Set("claim", "refresh")) implies
      (escrowOf(x.t, opKey(x.op)).claimed == escrowOf(e.s, opKey(x.op)).claimed
       and escrowOf(x.t, opKey(x.op)).pending == escrowOf(e.s, opKey(x.op)).pending),
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      val every = everyOf(x.t, h, p)
      progress(pr, x.t.now) == COMPLETED implies and {
        range(0, pr.regs.length()).foldl(true, (b, i) => {
          val r = pr.regs[i]
          b and total(every.keys().filter(k => k._3 == i), k => entitlement(pr, r, every.get(k).dep)) <= soldOf(pr, r)
            and soldOf(pr, r) <= r.supply
        }),
        every.keys().forall(k => {
          val r = regOf(pr, k._3)
          every.get(k).claimed * r.dep <= soldOf(pr, r) * every.get(k).dep
        }),
        // whoever closed left with the share, less at most the two roundings
        closedOf(x.t, h, p).forall(k => {
          val r = regOf(pr, k._3)
          val c = h.closed.get(k)
          c.dep == 0 or at(h.outB, k) * r.dep > soldOf(pr, r) * c.dep - 2 * r.dep
        })
      }
    })
  }
  // C13 failed presale: everything back
  pure def C13(x: Tr, e: Res, g: Ghost, h: Ghost): bool = {
    val k = opKey(x.op)
    val failed = hasP(x.s, x.op.p) and progOf(x.s, x.op.p) == FAILED
    and {
      (x.op.kind == "withdrawRemaining" and failed) implies and {
        x.ok == e.ok, x.t.balQ == e.s.balQ, x.t.quoteVault == e.s.quoteVault, x.t.escrows == e.s.escrows,
        x.ok implies at(h.rfQ, k) == at(h.inQ, k) - at(h.wdQ, k) and escrowOf(x.t, k).refundDone
      },
      // nobody is paid twice, and nothing paid in is forgotten by closing
      x.t.presales.keys().forall(p => progOf(x.t, p) == FAILED implies and {
        everyOf(x.t, h, p).keys().forall(j => at(h.rfQ, j) <= at(h.inQ, j) - at(h.wdQ, j)),
        closedOf(x.t, h, p).forall(j => at(h.rfQ, j) == at(h.inQ, j) - at(h.wdQ, j)),
        escrowsOf(x.t, p).forall(j => x.t.escrows.get(j).refundDone == (at(h.rfN, j) > 0)) })
    }
  }
  // C14 oversubscribed pro rata presale: the excess back, in proportion
  pure def C14(x: Tr, e: Res, g: Ghost, h: Ghost): bool = {
    val k = opKey(x.op)
    val done = hasP(x.s, x.op.p) and progOf(x.s, x.op.p) == COMPLETED
    and {
      (x.op.kind == "withdrawRemaining" and done) implies and {
        x.ok == e.ok, x.t.balQ == e.s.balQ, x.t.quoteVault == e.s.quoteVault, x.t.escrows == e.s.escrows,
        presaleOf(x.t, x.op.p) == presaleOf(e.s, x.op.p)
      },
      x.t.presales.keys().forall(p => progOf(x.t, p) == COMPLETED implies {
        val pr = x.t.presales.get(p)
        val every = everyOf(x.t, h, p)
        and {
          total(every.keys(), j => at(h.rfQ, j)) == pr.refunded,
          pr.mode != PRORATA implies total(every.keys(), j => at(h.rfQ, j)) == 0,
          every.keys().forall(j => and {
            at(h.rfN, j) <= 1,
            // no more than the excess share of what was paid in, fee included
            at(h.rfQ, j) * pr.dep <= (every.get(j).dep + every.get(j).fee) * overflowQuote(pr)
          })
        }
      })
    }
  }
  // C15 creator's proceeds
  pure def C15(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "creatorWithdraw" implies and {
      x.ok == e.ok, x.t.balQ == e.s.balQ, x.t.balB == e.s.balB, x.t.quoteVault == e.s.quoteVault,
      x.t.baseVault == e.s.baseVault, x.t.presales == e.s.presales
    },
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      and {
        at(h.crN, p) <= 1, pr.creatorWithdrawn == (at(h.crN, p) == 1),
        at(h.crN, p) == 1 implies
          (if (progOf(x.t, p) == COMPLETED) at(h.crQ, p) == min2(pr.dep, pr.maxCap) and at(h.crB, p) == 0
           else progOf(x.t, p) == FAILED and at(h.crB, p) == pr.supply and at(h.crQ, p) == 0)
      }
    })
  }
  // C16 fee collection
  pure def C16(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "collectFee" implies and {
      x.ok == e.ok, x.t.balQ == e.s.balQ, x.t.quoteVault == e.s.quoteVault, x.t.presales == e.s.presales
    },
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      and {
        at(h.feeN, p) <= 1, pr.feeCollected == (at(h.feeN, p) == 1),
        at(h.feeN, p) == 1 implies progOf(x.t, p) == COMPLETED and at(h.feeQ, p) == collectable(pr) and at(h.feeQ, p) <= pr.fee
      }
    })
  }
  // C17 unsold tokens
  pure def C17(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "unsold" implies and {
      x.ok == e.ok, x.t.balB == e.s.balB, x.t.baseVault == e.s.baseVault, x.t.presales == e.s.presales,
      x.t.supplyB == e.s.supplyB
    },
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      and {
        at(h.unsN, p) <= 1, pr.unsoldDone == (at(h.unsN, p) == 1),
        at(h.unsN, p) == 1 implies progOf(x.t, p) == COMPLETED and at(h.unsB, p) == unsoldOf(pr) and at(h.unsB, p) > 0
      }
    })
  }
  // C18 closing an escrow
  pure def C18(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "closeEscrow" implies {
      val k = opKey(x.op)
      and {
        x.ok == e.ok, x.t.escrows == e.s.escrows, x.t.presales == e.s.presales, x.rent == e.rent,
        x.t.balQ == x.s.balQ, x.t.balB == x.s.balB,
        x.ok implies and {
          not(hasE(x.t, k)),
          // nothing was still owed to it
          hasP(x.s, x.op.p) implies {
            val pr = x.s.presales.get(x.op.p)
            val es = escrowOf(x.s, k)
            and {
              progOf(x.s, x.op.p).in(Set(NOT_STARTED, ONGOING)) implies es.dep + es.fee == 0,
              hasE(x.s, k) implies refundDue(x.s, x.op.p, k) == 0,
              progOf(x.s, x.op.p) == COMPLETED implies es.claimed == entitlement(pr, regOf(pr, x.op.reg), es.dep)
            }
          }
        }
      }
    },
    x.op.kind != "closeEscrow" implies x.s.escrows.keys().forall(k => hasE(x.t, k))
  }
  // C19 whitelist gate
  pure def creates(op: Op): bool = op.kind.in(Set("createEscrow", "createEscrowByOperator", "createEscrowByProof"))
  pure def C19(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    creates(x.op) implies and {
      x.ok == e.ok,
      x.ok implies presaleOf(x.s, x.op.p).wl ==
        (if (x.op.kind == "createEscrow") OPEN else if (x.op.kind == "createEscrowByProof") MERKLE else AUTHORITY),
      x.ok implies escrowOf(x.t, opKey(x.op)).cap == (if (x.op.kind == "createEscrow") regOf(presaleOf(x.s, x.op.p), 0).maxCap else x.op.cap)
    },
    not(creates(x.op)) implies x.t.escrows.keys().forall(k => hasE(x.s, k)),
    // nobody deposits without an escrow obtained through the gate
    (x.op.kind == "deposit" and x.ok) implies hasE(x.s, opKey(x.op))
  }
  // C20 merkle proofs
  pure def C20(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "createEscrowByProof" implies and {
      x.ok == e.ok,
      x.ok implies and { (x.op.acc, x.op.ver).in(x.s.roots.keys()), x.op.acc == x.op.p,
        (x.op.acc, x.op.ver).in(x.s.roots.keys()) implies
          verifies(x.s.roots.get((x.op.acc, x.op.ver)), (x.op.own, x.op.reg, x.op.cap), x.op.proof),
        hasE(x.t, opKey(x.op)) and escrowOf(x.t, opKey(x.op)).cap == x.op.cap }
    },
    x.op.kind == "createRoot" implies x.t.roots == e.s.roots,
    // a published root is never altered
    x.s.roots.keys().forall(k => k.in(x.t.roots.keys()) implies x.t.roots.get(k) == x.s.roots.get(k))
  }
  // C21 operators
  pure def C21(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.t.operators == e.s.operators,
    x.op.kind.in(Set("createOperator", "revokeOperator", "createEscrowByOperator")) implies x.ok == e.ok,
    (x.op.kind == "createEscrowByOperator" and x.ok) implies and {
      (x.op.acc, x.op.who).in(x.s.operators), x.op.acc == presaleOf(x.s, x.op.p).owner, x.op.acc2 == x.op.who,
      escrowOf(x.t, opKey(x.op)).cap == x.op.cap,
      x.op.cap > 0, x.op.cap >= regOf(presaleOf(x.s, x.op.p), x.op.reg).minCap, x.op.cap <= regOf(presaleOf(x.s, x.op.p), x.op.reg).maxCap
    },
    x.op.kind == "revokeOperator" implies x.rent == e.rent
  }
  // C22 off-chain whitelist builder
  pure def C22(x: Tr, e: Res, g: Ghost, h: Ghost): bool =
    x.op.kind == "tree" implies x.ok == e.ok and x.ev == e.ev
  // C23 admission of presale parameters
  pure def C23(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind.in(Set("initPresale", "initFixedArgs")) implies x.ok == e.ok,
    (x.op.kind == "initPresale" and x.ok) implies
      initArgsValid(x.op.args, x.s.now, if (x.op.p.in(x.s.fargs.keys())) x.s.fargs.get(x.op.p).q else 0)
        and mintSupported(x.s.base) and mintSupported(x.s.quote)
  }
  // C24 the presale as created is what was asked for, and funded
  pure def C24(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "initPresale" implies and {
      x.t.presales == e.s.presales, x.t.baseVault == e.s.baseVault, x.t.quoteVault == e.s.quoteVault, x.t.balB == e.s.balB,
      x.ok implies and { bal(x.t.baseVault, x.op.p) == supplyOf(x.op.args), presaleOf(x.t, x.op.p).owner == x.op.own,
        presaleOf(x.t, x.op.p).supply == supplyOf(x.op.args), not(hasP(x.s, x.op.p)) }
    },
    x.op.kind == "initFixedArgs" implies x.t.fargs == e.s.fargs,
    x.op.kind != "initPresale" implies x.t.presales.keys() == x.s.presales.keys()
  }
  // C25 totals are sums
  pure def C25(x: Tr, e: Res, g: Ghost, h: Ghost): bool = x.t.presales.keys().forall(p => {
    val pr = x.t.presales.get(p)
    val every = everyOf(x.t, h, p)
    and {
      pr.dep == pr.regs.foldl(0, (a, r) => a + r.dep), pr.fee == pr.regs.foldl(0, (a, r) => a + r.fee),
      pr.claimed == pr.regs.foldl(0, (a, r) => a + r.claimed), pr.refunded == pr.regs.foldl(0, (a, r) => a + r.refunded),
      pr.escrows == pr.regs.foldl(0, (a, r) => a + r.escrows), pr.supply == pr.regs.foldl(0, (a, r) => a + r.supply),
      range(0, pr.regs.length()).foldl(true, (b, i) => {
        val r = pr.regs[i]
        val ks = every.keys().filter(k => k._3 == i)
        b and and {
          r.dep == total(ks, k => every.get(k).dep), r.fee == total(ks, k => every.get(k).fee),
          r.claimed == total(ks, k => every.get(k).claimed),
          r.refunded == total(ks, k => at(h.rfQ, k)),
          r.escrows == escrowsOf(x.t, p).filter(k => k._3 == i).size()
        }
      })
    }
  })
  // C26 transfer fees of the mints
  pure def feeMint(s: State): bool = (s.base.t22 and s.base.hasFee) or (s.quote.t22 and s.quote.hasFee)
  pure def C26(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    feeMint(x.s) implies and {
      x.ok == e.ok, x.t.balB == e.s.balB, x.t.balQ == e.s.balQ, x.t.quoteVault == e.s.quoteVault, x.t.baseVault == e.s.baseVault
    },
    // mints that could undermine the vaults are refused, all others are not
    x.op.kind == "initPresale" implies and {
      x.ok implies mintSupported(x.s.base) and mintSupported(x.s.quote),
      (x.s.base.t22 or x.s.quote.t22) implies x.ok == e.ok
    },
    // what enters a vault by a deposit or by the funding is exact, for the least possible charge
    (x.op.kind == "deposit" and x.ok) implies {
      val sent = -walletDelta(x.s.balQ, x.t.balQ, x.op.who)
      val got = bal(x.t.quoteVault, x.op.p) - bal(x.s.quoteVault, x.op.p)
      received(x.s.quote, x.s.epoch, sent) == got
        and got == escrowOf(x.t, opKey(x.op)).dep + escrowOf(x.t, opKey(x.op)).fee - escrowOf(x.s, opKey(x.op)).dep - escrowOf(x.s, opKey(x.op)).fee
    },
    (x.op.kind == "initPresale" and x.ok) implies
      received(x.s.base, x.s.epoch, -walletDelta(x.s.balB, x.t.balB, x.op.who)) == bal(x.t.baseVault, x.op.p)
  }
  // C27 events
  pure def C27(x: Tr, e: Res, g: Ghost, h: Ghost): bool =
    (x.ok and e.ok and x.op.kind != "tree") implies x.ev == e.ev
  // C28 refresh
  pure def C28(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.op.kind == "refresh" implies and {
      x.ok == e.ok, x.t.escrows == e.s.escrows, { ...x.t, escrows: x.s.escrows } == x.s,
      x.ok implies { ...escrowOf(x.t, opKey(x.op)), pending: 0, refreshed: 0 } == { ...escrowOf(x.s, opKey(x.op)), pending: 0, refreshed: 0 }
    },
    x.t.escrows.keys().forall(k => {
      val es = x.t.escrows.get(k)
      val pr = presaleOf(x.t, k._1)
      es.pending >= 0 and es.claimed + es.pending <= entitlement(pr, regOf(pr, k._3), es.dep)
    })
  }
  // C29 terms never change
  pure def terms(p: Presale): Presale =
    { ...p, dep: 0, fee: 0, claimed: 0, refunded: 0, escrows: 0, feeCollected: false, creatorWithdrawn: false, unsoldDone: false,
            end: 0, immTs: 0, vestStart: 0, vestEnd: 0,
            regs: p.regs.foldl([], (l, r) => l.append({ ...r, dep: 0, fee: 0, claimed: 0, refunded: 0, escrows: 0 })) }
  pure def C29(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.s.presales.keys().forall(p => and {
      hasP(x.t, p), terms(presaleOf(x.t, p)) == terms(x.s.presales.get(p)),
      (x.op.kind != "deposit" or not(x.ok)) implies
        { ...terms(presaleOf(x.t, p)), end: presaleOf(x.t, p).end, immTs: presaleOf(x.t, p).immTs, vestStart: presaleOf(x.t, p).vestStart, vestEnd: presaleOf(x.t, p).vestEnd }
        == { ...terms(x.s.presales.get(p)), end: x.s.presales.get(p).end, immTs: x.s.presales.get(p).immTs, vestStart: x.s.presales.get(p).vestStart, vestEnd: x.s.presales.get(p).vestEnd }
    }),
    // the schedule moves only when the sale is filled, and only forward
    x.s.presales.keys().forall(p => hasP(x.t, p) implies {
      val a = x.s.presales.get(p)
      val b = x.t.presales.get(p)
      or { (b.end, b.immTs, b.vestStart, b.vestEnd) == (a.end, a.immTs, a.vestStart, a.vestEnd),
           and { b.mode != PRORATA, b.disEarly == 0, b.dep >= b.maxCap, b.end <= a.end, max2(b.immTs, b.end) <= max2(a.immTs, a.end),
                 max2(b.vestStart, b.end) <= max2(a.vestStart, a.end), max2(b.vestEnd, b.end) <= max2(a.vestEnd, a.end) } }
    }),
    h.born.keys().forall(p => hasP(x.t, p) implies and {
      terms(x.t.presales.get(p)) == terms(h.born.get(p)),
      x.t.presales.get(p).end <= h.born.get(p).end
    }),
    x.s.escrows.keys().forall(k => hasE(x.t, k) implies
      (x.t.escrows.get(k).cap == x.s.escrows.get(k).cap and x.t.escrows.get(k).created == x.s.escrows.get(k).created))
  }
  // C30 settlement is always possible and leaves only dust
  pure def settling(op: Op): bool = op.kind.in(Set("claim", "withdrawRemaining", "creatorWithdraw", "collectFee", "unsold", "closeEscrow", "refresh"))
  pure def C30(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    (settling(x.op) and e.ok) implies (x.ok and x.t == e.s),
    x.t.presales.keys().forall(p => {
      val pr = x.t.presales.get(p)
      val n = everyOf(x.t, h, p).keys().size()
      val prog = progOf(x.t, p)
      // all escrows gone: what is left belongs to the creator, or is dust
      (prog.in(Set(COMPLETED, FAILED)) and escrowsOf(x.t, p).size() == 0) implies and {
        bal(x.t.quoteVault, p) - at(h.donQ, p) - (if (prog == FAILED) 0 else (if (pr.creatorWithdrawn) 0 else proceeds(pr)) + (if (pr.feeCollected) 0 else collectable(pr)))
          <= (if (pr.mode == PRORATA and prog == COMPLETED) 2 * pr.regs.length() + 2 * n else 0),
        bal(x.t.baseVault, p) - at(h.donB, p)
          - (if (prog == FAILED) (if (pr.creatorWithdrawn) 0 else pr.supply) else if (pr.unsoldDone) 0 else unsoldOf(pr)) <= 2 * n
      }
    })
  }
  // C31 administrative accounts
  pure def adminOp(op: Op): bool = op.kind.in(Set("createRoot", "closeRoot", "createMeta", "closeMeta", "initFixedArgs", "closeFixedArgs"))
  pure def C31(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    x.t.meta == e.s.meta, x.t.roots == e.s.roots, x.t.fargs == e.s.fargs,
    adminOp(x.op) implies and { x.ok == e.ok, x.rent == e.rent,
      x.t.presales == x.s.presales, x.t.escrows == x.s.escrows, x.t.balQ == x.s.balQ, x.t.balB == x.s.balB,
      x.t.quoteVault == x.s.quoteVault, x.t.baseVault == x.s.baseVault }
  }
  // C32 escrow identity
  pure def C32(x: Tr, e: Res, g: Ghost, h: Ghost): bool = and {
    creates(x.op) implies {
      val k = opKey(x.op)
      and {
        x.ok implies and { not(hasE(x.s, k)), hasE(x.t, k),
          escrowOf(x.t, k) == { ...noEscrow, cap: escrowOf(x.t, k).cap, created: x.s.now, refreshed: x.s.now },
          presaleOf(x.t, x.op.p).escrows == presaleOf(x.s, x.op.p).escrows + 1,
          regOf(presaleOf(x.t, x.op.p), k._3).escrows == regOf(presaleOf(x.s, x.op.p), k._3).escrows + 1,
          k._3 < presaleOf(x.s, x.op.p).regs.length() },
        (hasE(x.s, k)) implies (not(x.ok) and escrowOf(x.t, k) == escrowOf(x.s, k)),
        x.t.escrows == e.s.escrows, x.t.presales == e.s.presales, x.t.balQ == x.s.balQ, x.t.balB == x.s.balB
      }
    },
    x.t.presales.keys().forall(p => x.t.presales.get(p).escrows == escrowsOf(x.t, p).size())
  }
  // C33 exact arithmetic at the extremes
  pure def extreme(x: Tr): bool = or {
    x.op.amt > HUGE, x.op.cap > HUGE, x.op.num > HUGE_PRICE, supplyOf(x.op.args) > HUGE, x.op.args.maxCap > HUGE,
    x.s.presales.keys().exists(p => x.s.presales.get(p).supply > HUGE or x.s.presales.get(p).maxCap > HUGE)
  }
  pure def C33(x: Tr, e: Res, g: Ghost, h: Ghost): bool =
    (extreme(x) and not(x.op.kind.in(Set("tree", "donate", "tick", "epoch")))) implies x.ok == e.ok and x.t == e.s
  // C34 transfer hooks
  pure def movesTokens(op: Op): bool = op.kind.in(Set("deposit", "withdraw", "claim", "withdrawRemaining", "creatorWithdraw", "collectFee", "unsold", "initPresale"))
  pure def hookedMint(s: State): bool = (s.base.t22 and s.base.hook) or (s.quote.t22 and s.quote.hook)
  pure def C34(x: Tr, e: Res, g: Ghost, h: Ghost): bool =
    (movesTokens(x.op) and (x.op.hook != "auto" or hookedMint(x.s))) implies and {
      x.ok == e.ok, x.t.balB == e.s.balB, x.t.balQ == e.s.balQ, x.t.quoteVault == e.s.quoteVault, x.t.baseVault == e.s.baseVault
    }

  pure def violated(x: Tr, g: Ghost, h: Ghost): Set[str] = {
    val e = apply(x.s, x.op)
    Set(("C01", C01(x, e, g, h)), ("C02", C02(x, e, g, h)), ("C03", C03(x, e, g, h)), ("C04", C04(x, e, g, h)),
        ("C05", C05(x, e, g, h)), ("C06", C06(x, e, g, h)), ("C07", C07(x, e, g, h)), ("C08", C08(x, e, g, h)),
        ("C09", C09(x, e, g, h)), ("C10", C10(x, e, g, h)), ("C11", C11(x, e, g, h)), ("C12", C12(x, e, g, h)),
        ("C13", C13(x, e, g, h)), ("C14", C14(x, e, g, h)), ("C15", C15(x, e, g, h)), ("C16", C16(x, e, g, h)),
        ("C17", C17(x, e, g, h)), ("C18", C18(x, e, g, h)), ("C19", C19(x, e, g, h)), ("C20", C20(x, e, g, h)),
        ("C21", C21(x, e, g, h)), ("C22", C22(x, e, g, h)), ("C23", C23(x, e, g, h)), ("C24", C24(x, e, g, h)),
        ("C25", C25(x, e, g, h)), ("C26", C26(x, e, g, h)), ("C27", C27(x, e, g, h)), ("C28", C28(x, e, g, h)),
        ("C29", C29(x, e, g, h)), ("C30", C30(x, e, g, h)), ("C31", C31(x, e, g, h)), ("C32", C32(x, e, g, h)),
        ("C33", C33(x, e, g, h)), ("C34", C34(x, e, g, h)))
      .filter(v => not(v._2)).map(v => v._1)
  }
}
