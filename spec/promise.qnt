// What was promised, kept apart from what the program stored.  A recorded behaviour is judged a second time with the stored
// terms of every sale, price, whitelist root and personal cap replaced by the promised ones: a program that stores a wrong
// vesting end breaks the promise of the vesting, even if its claims follow what it stored.  Likewise the totals of a sale and its
// registries are replaced by the sums over the escrows, closed ones included: a share of a wrong total is a wrong share.
module promise {
  import types.* from "./types"
  import presale.* from "./presale"
  import props.* from "./props"

  type Promise = { terms: str -> Presale, caps: EKey -> int, prices: str -> FArgs, roots: (str, int) -> int }
  pure val promise0: Promise = { terms: Map(), caps: Map(), prices: Map(), roots: Map() }

  pure def kept(o: Presale, w: Presale): Presale =
    { ...o, owner: w.owner, mode: w.mode, wl: w.wl, unsold: w.unsold, maxCap: w.maxCap, minCap: w.minCap, start: w.start, end: w.end,
      supply: w.supply, created: w.created, lock: w.lock, vest: w.vest, immBps: w.immBps, immTs: w.immTs, vestStart: w.vestStart, vestEnd: w.vestEnd,
      q: w.q, disWithdraw: w.disWithdraw, disEarly: w.disEarly,
      regs: range(0, w.regs.length()).foldl([], (l, i) => {
        val r = if (i < o.regs.length()) o.regs[i] else noReg
        val u = w.regs[i]
        l.append({ ...r, supply: u.supply, minCap: u.minCap, maxCap: u.maxCap, feeBps: u.feeBps })
      }) }

  // the state with the promised terms in place of the stored ones
  pure def asPromised(s: State, m: Promise): State =
    { ...s,
      presales: s.presales.keys().mapBy(p => if (p.in(m.terms.keys())) kept(s.presales.get(p), m.terms.get(p)) else s.presales.get(p)),
      escrows: s.escrows.keys().mapBy(k => if (k.in(m.caps.keys())) { ...s.escrows.get(k), cap: m.caps.get(k) } else s.escrows.get(k)),
      fargs: s.fargs.keys().mapBy(p => if (p.in(m.prices.keys())) m.prices.get(p) else s.fargs.get(p)),
      roots: s.roots.keys().mapBy(k => if (k.in(m.roots.keys())) m.roots.get(k) else s.roots.get(k)) }

  // the state with the totals summed up over the escrows
  pure def paid(s: State, g: Ghost, p: str, i: int): { dep: int, fee: int } = {
    val open = s.escrows.keys().filter(k => k._1 == p and (i < 0 or k._3 == i))
    val shut = g.closed.keys().filter(k => k._1 == p and (i < 0 or k._3 == i))
    { dep: open.fold(0, (x, k) => x + s.escrows.get(k).dep) + shut.fold(0, (x, k) => x + g.closed.get(k).dep),
      fee: open.fold(0, (x, k) => x + s.escrows.get(k).fee) + shut.fold(0, (x, k) => x + g.closed.get(k).fee) }
  }
  pure def summedUp(s: State, g: Ghost): State =
    { ...s, presales: s.presales.keys().mapBy(p => {
        val pr = s.presales.get(p)
        val all_ = paid(s, g, p, -1)
        { ...pr, dep: all_.dep, fee: all_.fee,
          regs: range(0, pr.regs.length()).foldl([], (l, i) => {
            val part = paid(s, g, p, i)
            l.append({ ...pr.regs[i], dep: part.dep, fee: part.fee })
          }) }
      }) }

  // promises after the instruction `op`, accepted or not, when `e` is what should come of it
  pure def promised(m: Promise, op: Op, ok: bool, e: Res): Promise = {
    val k = opKey(op)
    val rk = (op.p, op.ver)
    val moved = m.terms.keys().mapBy(p =>
      if (p.in(e.s.presales.keys())) {
        val w = e.s.presales.get(p)
        { ...m.terms.get(p), end: w.end, immTs: w.immTs, vestStart: w.vestStart, vestEnd: w.vestEnd }
      } else m.terms.get(p))
    val m1 = { ...m, terms: moved }
    if (not(ok) or not(e.ok)) m1
    else if (op.kind == "initPresale" and op.p.in(e.s.presales.keys())) { ...m1, terms: m1.terms.put(op.p, e.s.presales.get(op.p)) }
    else if (op.kind.in(Set("createEscrow", "createEscrowByOperator", "createEscrowByProof")) and k.in(e.s.escrows.keys()))
      { ...m1, caps: m1.caps.put(k, e.s.escrows.get(k).cap) }
    else if (op.kind == "initFixedArgs" and op.p.in(e.s.fargs.keys())) { ...m1, prices: m1.prices.put(op.p, e.s.fargs.get(op.p)) }
    else if (op.kind == "createRoot" and rk.in(e.s.roots.keys())) { ...m1, roots: m1.roots.put(rk, e.s.roots.get(rk)) }
    else m1
  }
}
