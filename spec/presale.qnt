// Transition function of the presale program: apply(state, instruction).
// A rejected instruction leaves the state unchanged.
module presale {
  import params.* from "./params"
  import types.* from "./types"
  import math.* from "./math"
  import merkle.* from "./merkle"

  pure def reject(s: State): Res = { ok: false, s: s, ev: noEvent, rent: "" }
  pure def accept(s: State, ev: Event): Res = { ok: true, s: s, ev: ev, rent: "" }
  pure def acceptRent(s: State, ev: Event, rcv: str): Res = { ok: true, s: s, ev: ev, rent: rcv }

  pure def hasP(s: State, p: str): bool = p.in(s.presales.keys())
  pure def hasE(s: State, k: EKey): bool = k.in(s.escrows.keys())
  pure def ekey(op: Op): EKey = (op.p, op.own, op.reg)
  pure def bal(m: str -> int, w: str): int = if (w.in(m.keys())) m.get(w) else 0
  pure def setP(s: State, k: str, p: Presale): State = { ...s, presales: s.presales.put(k, p) }
  pure def setE(s: State, k: EKey, e: Escrow): State = { ...s, escrows: s.escrows.put(k, e) }
  pure val noReg: Reg = { supply: 0, minCap: 0, maxCap: 0, feeBps: 0, dep: 0, fee: 0, claimed: 0, refunded: 0, escrows: 0 }
  pure def regOf(p: Presale, i: int): Reg = if (i >= 0 and i < p.regs.length()) p.regs[i] else noReg
  pure def mapReg(p: Presale, i: int, r: Reg): Presale =
    if (i >= 0 and i < p.regs.length()) { ...p, regs: p.regs.replaceAt(i, r) } else p

  // ---- transfer hooks: accounts the caller supplies for them ----
  // "auto": what the mint needs; "none": nothing; "zero": an empty slice of the right type;
  // "extra": a one-account slice although there is no hook; "wrong": a slice of the other mint's type;
  // "short": a slice longer than the accounts given; "dup": the same slice type twice;
  // "cut"/"cut2": all but the last / all but the first of the accounts needed; "both": what is needed plus a
  // slice of the other mint's type, "other": the same with an empty slice;
  // "zerofirst": an empty slice before what is needed; "surplus": further accounts that no slice mentions
  pure def hookParses(op: Op): bool =
    op.hook.in(Set("auto", "none", "zero", "extra", "cut", "cut2", "zerofirst", "surplus"))
  pure def hookTransfers(m: Mint, op: Op): bool =
    if (m.t22 and m.hook) op.hook.in(Set("auto", "zerofirst", "surplus"))
    else op.hook.in(Set("auto", "none", "zero", "zerofirst", "surplus"))
  pure def hookOk(m: Mint, op: Op): bool = hookParses(op) and hookTransfers(m, op)

  // ---- moving tokens ----
  pure def payQuote(s: State, p: str, rcv: str, a: int): State =
    { ...s, quoteVault: s.quoteVault.put(p, bal(s.quoteVault, p) - a),
            balQ: s.balQ.put(rcv, bal(s.balQ, rcv) + received(s.quote, s.epoch, a)) }
  pure def payBase(s: State, p: str, rcv: str, a: int): State =
    { ...s, baseVault: s.baseVault.put(p, bal(s.baseVault, p) - a),
            balB: s.balB.put(rcv, bal(s.balB, rcv) + received(s.base, s.epoch, a)) }

  // ================= presale creation =================
  pure def mintSupported(m: Mint): bool = not(m.t22) or m.ext.in(Set("", "metadata", "tokenMetadata"))

  pure def noVesting(a: InitArgs): bool = a.immBps == 0 and a.lock == 0 and a.vest == 0 and a.immTs == 0
  pure def vestingValid(a: InitArgs): bool =
    noVesting(a) or and {
      a.lock + a.vest < MAX_LOCK_VEST,
      a.immBps <= BPS,
      if (a.immBps == BPS)
        a.lock == 0 and a.vest == 0 and (a.immTs == 0 or a.immTs == a.end)
      else and {
        a.lock > 0 or a.vest > 0,
        or {
          a.immTs == 0,
          a.immBps == 0 and a.immTs == a.end,
          a.immBps > 0 and a.immTs >= a.end and a.immTs <= a.end + a.lock + a.vest
        }
      }
    }
  pure def capsAndTimesValid(a: InitArgs, now: int): bool = {
    val start = max2(a.start, now)
    and {
      a.maxCap >= a.minCap, a.minCap > 0,
      a.end - start >= MIN_DURATION, a.end - start <= MAX_DURATION,
      start - now <= MAX_UNTIL_START,
      a.wl.in(Set(OPEN, MERKLE, AUTHORITY)), a.mode.in(Set(FIXED, PRORATA, FCFS)),
      a.unsold.in(Set(REFUND, BURN)), a.disEarly.in(Set(0, 1))
    }
  }
  pure def supplyOf(a: InitArgs): int = a.regs.foldl(0, (x, r) => x + r.supply)
  pure def registriesValid(a: InitArgs): bool = and {
    a.regs.length() >= 1, a.regs.length() <= MAX_REGISTRIES,
    a.regs.length() == 1 or a.wl != OPEN,
    supplyOf(a) <= U64MAX,
    a.regs.foldl(true, (ok, r) => ok and and {
      r.maxCap >= r.minCap, r.maxCap > 0, r.maxCap <= a.maxCap, r.supply > 0,
      r.feeBps <= MAX_DEPOSIT_FEE_BPS
    })
  }
  pure def buyable(q: int, a: int): bool = tokensFor(q, a) >= 1 and tokensFor(q, a) <= U64MAX
  pure def priceValid(a: InitArgs, q: int): bool = and {
    q > 0,
    a.regs.foldl(true, (ok, r) => ok and buyable(q, r.minCap) and buyable(q, r.maxCap)
       and (a.wl == OPEN or (r.minCap == ceilDiv(q, SCALE) and r.maxCap == a.maxCap))),
    tokensFor(q, a.maxCap) <= supplyOf(a),
    tokensFor(q, a.maxCap) > tokensFor(q, a.minCap)
  }
  pure def dynamicRegistriesValid(a: InitArgs): bool =
    a.wl == OPEN or a.regs.foldl(true, (ok, r) => ok and r.minCap == 1 and r.maxCap == a.maxCap)
  pure def initArgsValid(a: InitArgs, now: int, q: int): bool = and {
    capsAndTimesValid(a, now), registriesValid(a), vestingValid(a),
    if (a.mode == FIXED) priceValid(a, q) else dynamicRegistriesValid(a)
  }
  pure def newPresale(a: InitArgs, now: int, owner: str, fa: FArgs): Presale = {
    owner: owner, mode: a.mode, wl: a.wl, unsold: a.unsold, maxCap: a.maxCap, minCap: a.minCap,
    start: max2(a.start, now), end: a.end, supply: supplyOf(a), dep: 0, fee: 0, claimed: 0,
    refunded: 0, escrows: 0, created: now, lock: a.lock, vest: a.vest, immBps: a.immBps,
    immTs: a.immTs, vestStart: if (noVesting(a)) 0 else a.end + a.lock,
    vestEnd: if (noVesting(a)) 0 else a.end + a.lock + a.vest,
    feeCollected: false, creatorWithdrawn: false, unsoldDone: false,
    q: if (a.mode == FIXED) fa.q else 0,
    disWithdraw: if (a.mode == FIXED) fa.dw else 0,
    disEarly: if (a.mode == PRORATA) 0 else a.disEarly,
    regs: a.regs.foldl([], (l, r) => l.append({ supply: r.supply, minCap: r.minCap,
      maxCap: r.maxCap, feeBps: r.feeBps, dep: 0, fee: 0, claimed: 0, refunded: 0, escrows: 0 }))
  }
  pure def initPresale(s: State, op: Op): Res = {
    val a = op.args
    val fixedOk = op.acc == op.p and op.p.in(s.fargs.keys())
    val fa: FArgs = if (fixedOk) s.fargs.get(op.p) else { owner: "", q: 0, dw: 0 }
    val supply = supplyOf(a)
    val gross = grossUp(s.base, s.epoch, supply)
    if (and {
      not(hasP(s, op.p)), mintSupported(s.base), mintSupported(s.quote),
      a.mode != FIXED or fixedOk,
      initArgsValid(a, s.now, fa.q),
      gross >= 0, gross <= bal(s.balB, op.who),
      hookOk(s.base, op)
    })
      accept({ ...s, presales: s.presales.put(op.p, newPresale(a, s.now, op.own, fa)),
               baseVault: s.baseVault.put(op.p, supply), quoteVault: s.quoteVault.put(op.p, 0),
               balB: s.balB.put(op.who, bal(s.balB, op.who) - gross) },
             { name: "EvtPresaleVaultCreate", keys: ["B", "Q"],
               nums: [a.lock, a.vest, a.wl, a.mode, a.start, a.end, a.maxCap, a.minCap].concat(
                 a.regs.foldl([], (l, r) => l.concat([r.minCap, r.maxCap, r.supply, r.feeBps]))) })
    else reject(s)
  }

  pure def initFixedArgs(s: State, op: Op): Res =
    if (not(op.p.in(s.fargs.keys())) and op.num > 0 and op.reg.in(Set(0, 1)))
      accept({ ...s, fargs: s.fargs.put(op.p, { owner: op.own, q: op.num, dw: op.reg }) },
             { name: "EvtFixedPricePresaleArgsCreate", keys: [op.p], nums: [op.num] })
    else reject(s)
  pure def closeFixedArgs(s: State, op: Op): Res =
    if (op.p.in(s.fargs.keys()) and s.fargs.get(op.p).owner == op.who)
      acceptRent({ ...s, fargs: s.fargs.keys().exclude(Set(op.p)).mapBy(k => s.fargs.get(k)) },
                 noEvent, op.who)
    else reject(s)

  // ================= whitelisting accounts =================
  pure def createOperator(s: State, op: Op): Res =
    if ((op.who, op.own).in(s.operators)) reject(s)
    else accept({ ...s, operators: s.operators.union(Set((op.who, op.own))) },
                { name: "EvtOperatorCreate", keys: [op.who, "self", op.own], nums: [] })
  pure def revokeOperator(s: State, op: Op): Res =
    if ((op.acc, op.acc2).in(s.operators) and op.who == op.acc)
      acceptRent({ ...s, operators: s.operators.exclude(Set((op.acc, op.acc2))) }, noEvent, op.who)
    else reject(s)
  pure def createRoot(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or (op.p, op.ver).in(s.roots.keys())) reject(s) else {
      val p = s.presales.get(op.p)
      if (op.who == p.owner and p.wl == MERKLE
          and progress(p, s.now).in(Set(NOT_STARTED, ONGOING)))
        accept({ ...s, roots: s.roots.put((op.p, op.ver), op.num) },
               { name: "EvtMerkleRootConfigCreate", keys: [op.who, "self", op.p], nums: [op.ver, op.num] })
      else reject(s)
    }
  pure def closeRoot(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or op.acc != op.p or not((op.p, op.ver).in(s.roots.keys()))) reject(s) else {
      val p = s.presales.get(op.p)
      if (op.who == p.owner and progress(p, s.now) != ONGOING)
        acceptRent({ ...s, roots: s.roots.keys().exclude(Set((op.p, op.ver))).mapBy(k => s.roots.get(k)) },
          { name: "EvtCloseMerkleRootConfig", keys: [op.p, "self", op.who], nums: [] }, op.dest)
      else reject(s)
    }
  pure def createMeta(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or op.p.in(s.meta.keys())) reject(s) else {
      val p = s.presales.get(op.p)
      if (op.who == p.owner and p.wl != OPEN and progress(p, s.now).in(Set(NOT_STARTED, ONGOING)))
        accept({ ...s, meta: s.meta.put(op.p, op.txt) },
               { name: "EvtPermissionedServerMetadataCreate", keys: [op.p, "self", op.txt], nums: [] })
      else reject(s)
    }
  pure def closeMeta(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or op.acc != op.p or not(op.p.in(s.meta.keys()))) reject(s)
    else if (op.who == s.presales.get(op.p).owner)
      acceptRent({ ...s, meta: s.meta.keys().exclude(Set(op.p)).mapBy(k => s.meta.get(k)) },
        { name: "EvtPermissionedServerMetadataClose", keys: [op.p, "self"], nums: [] }, op.dest)
    else reject(s)

  // ================= escrows =================
  pure def newEscrow(s: State, op: Op, cap: int): Res = {
    val p = s.presales.get(op.p)
    val r = regOf(p, op.reg)
    val p2 = mapReg({ ...p, escrows: p.escrows + 1 }, op.reg, { ...r, escrows: r.escrows + 1 })
    accept(setE(setP(s, op.p, p2), ekey(op),
        { dep: 0, fee: 0, claimed: 0, pending: 0, refundDone: false, cap: cap,
          created: s.now, refreshed: s.now }),
      { name: "EvtEscrowCreate", keys: [op.p, op.own], nums: [p.wl, p.escrows + 1] })
  }
  pure def escrowAllowed(s: State, op: Op, wl: int): bool =
    hasP(s, op.p) and {
      val p = s.presales.get(op.p)
      and { p.wl == wl, progress(p, s.now) == ONGOING, not(hasE(s, ekey(op))),
            op.reg >= 0, op.reg < p.regs.length() }
    }
  pure def capAllowed(s: State, op: Op): bool = {
    val r = regOf(s.presales.get(op.p), op.reg)
    op.cap > 0 and op.cap >= r.minCap and op.cap <= r.maxCap
  }
  pure def createEscrow(s: State, op: Op): Res =
    if (op.reg == 0 and escrowAllowed(s, op, OPEN))
      newEscrow(s, op, regOf(s.presales.get(op.p), 0).maxCap)
    else reject(s)
  // op.acc / op.acc2: creator and owner of the operator account passed
  pure def createEscrowByOperator(s: State, op: Op): Res =
    if (escrowAllowed(s, op, AUTHORITY) and and {
          capAllowed(s, op), (op.acc, op.acc2).in(s.operators), op.acc2 == op.who,
          op.acc == s.presales.get(op.p).owner })
      newEscrow(s, op, op.cap)
    else reject(s)
  // op.acc / op.ver: presale and version of the root config passed
  pure def createEscrowByProof(s: State, op: Op): Res =
    if (escrowAllowed(s, op, MERKLE) and and {
          capAllowed(s, op), op.acc == op.p, (op.acc, op.ver).in(s.roots.keys()),
          verifies(s.roots.get((op.acc, op.ver)), (op.own, op.reg, op.cap), op.proof) })
      newEscrow(s, op, op.cap)
    else reject(s)

  // ================= deposits and withdrawals =================
  pure def endEarly(p: Presale, now: int): Presale =
    { ...p, end: now, vestStart: now + p.lock, vestEnd: now + p.lock + p.vest,
            immTs: now + max2(0, p.immTs - p.end) }
  pure def withinRegistryCaps(r: Reg, dep: int): bool =
    dep == 0 or (dep >= r.minCap and dep <= r.maxCap)

  pure def deposit(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val r = regOf(p, op.reg)
      val e = s.escrows.get(ekey(op))
      val a = depositAmount(p, r, e, op.amt)
      val paid = feeIncluded(a, r.feeBps)
      val fee = paid - a
      val gross = grossUp(s.quote, s.epoch, paid)
      if (progress(p, s.now) == ONGOING and a > 0 and and {
        withinRegistryCaps(r, e.dep + a),
        fitsU64(p.dep + a), fitsU64(p.fee + fee), fitsU64(paid),
        gross >= 0, gross <= bal(s.balQ, op.who), hookOk(s.quote, op)
      }) {
        val p1 = mapReg({ ...p, dep: p.dep + a, fee: p.fee + fee }, op.reg,
                        { ...r, dep: r.dep + a, fee: r.fee + fee })
        val p2 = if (p1.mode != PRORATA and p1.disEarly == 0 and p1.dep >= p1.maxCap)
                   endEarly(p1, s.now) else p1
        val e2 = { ...e, dep: e.dep + a, fee: e.fee + fee }
        accept({ ...setE(setP(s, op.p, p2), ekey(op), e2),
                 quoteVault: s.quoteVault.put(op.p, bal(s.quoteVault, op.p) + paid),
                 balQ: s.balQ.put(op.who, bal(s.balQ, op.who) - gross) },
          { name: "EvtDeposit", keys: [op.p, "self", op.who], nums: [a, e2.dep, p2.dep, fee] })
      } else reject(s)
    }

  pure def withdrawAllowed(p: Presale): bool =
    p.mode == PRORATA or (p.mode == FIXED and p.disWithdraw == 0)
  pure def withdrawAmount(p: Presale, e: Escrow, a: int): int =
    if (p.mode == FIXED and a != e.dep) quoteFor(p.q, a) else a
  pure def withdraw(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val r = regOf(p, op.reg)
      val e = s.escrows.get(ekey(op))
      if (and { op.who == op.own, progress(p, s.now) == ONGOING, op.amt > 0, op.amt <= e.dep,
                withdrawAllowed(p) }) {
        val a = withdrawAmount(p, e, op.amt)
        val e2 = { ...e, dep: e.dep - a }
        if (a > 0 and withinRegistryCaps(r, e2.dep) and hookOk(s.quote, op)
            and a <= bal(s.quoteVault, op.p)) {
          val p2 = mapReg({ ...p, dep: p.dep - a }, op.reg, { ...r, dep: r.dep - a })
          accept(payQuote(setE(setP(s, op.p, p2), ekey(op), e2), op.p, op.dest, a),
            { name: "EvtWithdraw", keys: [op.p, "self", op.own],
              nums: [received(s.quote, s.epoch, a), e2.dep, p2.dep] })
        } else reject(s)
      } else reject(s)
    }

  // ================= settlement =================
  pure def refreshed(p: Presale, r: Reg, e: Escrow, now: int): Escrow =
    { ...e, pending: released(p, r, e.dep, now) - e.claimed, refreshed: now }
  pure def refreshEscrow(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val e = s.escrows.get(ekey(op))
      val e2 = if (progress(p, s.now) == COMPLETED) refreshed(p, regOf(p, op.reg), e, s.now) else e
      if (e2.pending < e.pending) reject(s) else
      accept(setE(s, ekey(op), e2),
        { name: "EvtEscrowRefresh", keys: [op.p, "self", op.own], nums: [s.now, e2.pending] })
    }
  pure def claim(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val r = regOf(p, op.reg)
      val e = s.escrows.get(ekey(op))
      if (op.who == op.own and progress(p, s.now) == COMPLETED) {
        val e1 = refreshed(p, r, e, s.now)
        val a = e1.pending
        if (a < e.pending or (a > 0 and not(hookOk(s.base, op))) or a > bal(s.baseVault, op.p)) reject(s)
        else {
          val e2 = { ...e1, claimed: e1.claimed + a, pending: 0 }
          val p2 = mapReg({ ...p, claimed: p.claimed + a }, op.reg, { ...r, claimed: r.claimed + a })
          accept(payBase(setE(setP(s, op.p, p2), ekey(op), e2), op.p, op.dest, a),
            { name: "EvtClaim", keys: [op.p, "self", op.own],
              nums: [received(s.base, s.epoch, a), e2.claimed, p2.claimed] })
        }
      } else reject(s)
    }
  pure def withdrawRemaining(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val r = regOf(p, op.reg)
      val e = s.escrows.get(ekey(op))
      val a = refundOf(p, r, e, progress(p, s.now))
      if (and { op.who == op.own, not(e.refundDone), a >= 0, hookParses(op),
                a == 0 or hookTransfers(s.quote, op), a <= bal(s.quoteVault, op.p) }) {
        val p2 = mapReg({ ...p, refunded: p.refunded + a }, op.reg, { ...r, refunded: r.refunded + a })
        accept(payQuote(setE(setP(s, op.p, p2), ekey(op), { ...e, refundDone: true }), op.p, op.dest, a),
          { name: "EvtWithdrawRemainingQuote", keys: [op.p, "self", op.own],
            nums: [received(s.quote, s.epoch, a), p2.refunded] })
      } else reject(s)
    }
  pure def creatorWithdraw(s: State, op: Op): Res =
    if (not(hasP(s, op.p))) reject(s) else {
      val p = s.presales.get(op.p)
      val prog = progress(p, s.now)
      val s1 = setP(s, op.p, { ...p, creatorWithdrawn: true })
      if (op.who != p.owner or p.creatorWithdrawn) reject(s)
      else if (prog == COMPLETED and op.txt == "Q" and hookOk(s.quote, op) and proceeds(p) <= bal(s.quoteVault, op.p))
        accept(payQuote(s1, op.p, op.dest, proceeds(p)),
          { name: "EvtCreatorWithdraw", keys: [op.p, op.who],
            nums: [received(s.quote, s.epoch, proceeds(p)), COMPLETED] })
      else if (prog == FAILED and op.txt == "B" and hookOk(s.base, op) and p.supply <= bal(s.baseVault, op.p))
        accept(payBase(s1, op.p, op.dest, p.supply),
          { name: "EvtCreatorWithdraw", keys: [op.p, op.who],
            nums: [received(s.base, s.epoch, p.supply), FAILED] })
      else reject(s)
    }
  pure def collectFee(s: State, op: Op): Res =
    if (not(hasP(s, op.p))) reject(s) else {
      val p = s.presales.get(op.p)
      val a = collectable(p)
      if (and { op.who == p.owner, progress(p, s.now) == COMPLETED, not(p.feeCollected),
                a == 0 or hookOk(s.quote, op), a <= bal(s.quoteVault, op.p) })
        accept(payQuote(setP(s, op.p, { ...p, feeCollected: true }), op.p, op.dest, a),
          { name: "EvtCreatorCollectFee", keys: [op.p, op.who], nums: [received(s.quote, s.epoch, a)] })
      else reject(s)
    }
  pure def unsoldAction(s: State, op: Op): Res =
    if (not(hasP(s, op.p))) reject(s) else {
      val p = s.presales.get(op.p)
      val a = unsoldOf(p)
      val s1 = setP(s, op.p, { ...p, unsoldDone: true })
      val ev: Event = { name: "EvtPerformUnsoldBaseTokenAction", keys: [op.p], nums: [a, p.unsold] }
      if (not(and { op.dest == p.owner, progress(p, s.now) == COMPLETED, not(p.unsoldDone), a > 0, a <= bal(s.baseVault, op.p) }))
        reject(s)
      else if (p.unsold == BURN)
        accept({ ...s1, baseVault: s.baseVault.put(op.p, bal(s.baseVault, op.p) - a),
                        supplyB: s.supplyB - a }, ev)
      else if (hookOk(s.base, op)) accept(payBase(s1, op.p, p.owner, a), ev)
      else reject(s)
    }
  pure def closable(p: Presale, r: Reg, e: Escrow, prog: int): bool =
    if (prog == ONGOING) e.dep == 0 and e.fee == 0
    else if (prog == FAILED) e.refundDone or (e.dep == 0 and e.fee == 0)
    else prog == COMPLETED and (refundOf(p, r, e, prog) <= 0 or e.refundDone)
         and e.claimed == entitlement(p, r, e.dep)
  pure def closeEscrow(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or not(hasE(s, ekey(op)))) reject(s) else {
      val p = s.presales.get(op.p)
      val r = regOf(p, op.reg)
      if (op.who == op.own and closable(p, r, s.escrows.get(ekey(op)), progress(p, s.now))) {
        val p2 = mapReg({ ...p, escrows: p.escrows - 1 }, op.reg, { ...r, escrows: r.escrows - 1 })
        acceptRent({ ...setP(s, op.p, p2),
                     escrows: s.escrows.keys().exclude(Set(ekey(op))).mapBy(k => s.escrows.get(k)) },
          { name: "EvtEscrowClose", keys: [op.p, "self", op.own, op.dest], nums: [] }, op.dest)
      } else reject(s)
    }

  // ================= off-chain whitelist builder =================
  // the merkle-tree crate: leaves of one owner collapse to the last; root and one proof per leaf
  // A list too long to write down is given by its length (amt) and the number of different owners (cap): entry i is of owner i mod cap. Of it is
  // reported how many entries were kept, and how many of these are the right ones with a proof that leads to the canonical root.
  pure def buildTree(s: State, op: Op): Res =
    if (op.amt > 0) {
      val n = if (op.amt < op.cap) op.amt else op.cap
      accept(s, { name: "tree", keys: [], nums: [op.ver, n, n] })
    }
    else if (op.leaves.length() == 0) reject(s) else {
      val ls = dedup(op.leaves)
      val lv = levels(ls)
      accept(s, { name: "tree", keys: ls.foldl([], (l, x) => l.append(x._1)),
        nums: range(0, ls.length()).foldl([op.ver, ls.length(), topOf(lv)], (l, i) =>
          l.concat([ls[i]._2, ls[i]._3]).concat(pathOf(lv, i))) })
    }

  // ================= environment =================
  // anybody may send tokens to a vault
  pure def donate(s: State, op: Op): Res =
    if (not(hasP(s, op.p)) or op.amt <= 0) reject(s)
    else if (op.txt == "Q")
      if (s.quote.hook or op.amt > bal(s.balQ, op.who)) reject(s) else
      accept({ ...s, balQ: s.balQ.put(op.who, bal(s.balQ, op.who) - op.amt),
        quoteVault: s.quoteVault.put(op.p, bal(s.quoteVault, op.p) + received(s.quote, s.epoch, op.amt)) }, noEvent)
    else
      if (s.base.hook or op.amt > bal(s.balB, op.who)) reject(s) else
      accept({ ...s, balB: s.balB.put(op.who, bal(s.balB, op.who) - op.amt),
        baseVault: s.baseVault.put(op.p, bal(s.baseVault, op.p) + received(s.base, s.epoch, op.amt)) }, noEvent)

  pure def apply(s: State, op: Op): Res =
    if (op.kind == "tick") accept({ ...s, now: s.now + op.amt }, noEvent)
    else if (op.kind == "epoch") accept({ ...s, epoch: s.epoch + 1 }, noEvent)
    else if (op.kind == "donate") donate(s, op)
    else if (op.kind == "tree") buildTree(s, op)
    // an instruction with a substituted account, or without the required signature, never passes
    else if (op.slot != "") reject(s)
    else if (op.kind == "deposit") deposit(s, op)
    else if (op.kind == "withdraw") withdraw(s, op)
    else if (op.kind == "claim") claim(s, op)
    else if (op.kind == "refresh") refreshEscrow(s, op)
    else if (op.kind == "withdrawRemaining") withdrawRemaining(s, op)
    else if (op.kind == "closeEscrow") closeEscrow(s, op)
    else if (op.kind == "creatorWithdraw") creatorWithdraw(s, op)
    else if (op.kind == "collectFee") collectFee(s, op)
    else if (op.kind == "unsold") unsoldAction(s, op)
    else if (op.kind == "createEscrow") createEscrow(s, op)
    else if (op.kind == "createEscrowByOperator") createEscrowByOperator(s, op)
    else if (op.kind == "createEscrowByProof") createEscrowByProof(s, op)
    else if (op.kind == "createOperator") createOperator(s, op)
    else if (op.kind == "revokeOperator") revokeOperator(s, op)
    else if (op.kind == "createRoot") createRoot(s, op)
    else if (op.kind == "closeRoot") closeRoot(s, op)
    else if (op.kind == "createMeta") createMeta(s, op)
    else if (op.kind == "closeMeta") closeMeta(s, op)
    else if (op.kind == "initFixedArgs") initFixedArgs(s, op)
    else if (op.kind == "closeFixedArgs") closeFixedArgs(s, op)
    else if (op.kind == "initPresale") initPresale(s, op)
    else reject(s)
}
