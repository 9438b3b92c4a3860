// State of the system as a user can observe it: presale accounts, escrows, whitelisting accounts,
// token balances, clock.
module types {
  // presale modes
  pure val FIXED: int = 0
  pure val PRORATA: int = 1
  pure val FCFS: int = 2
  // whitelist modes
  pure val OPEN: int = 0
  pure val MERKLE: int = 1
  pure val AUTHORITY: int = 2
  // unsold token action
  pure val REFUND: int = 0
  pure val BURN: int = 1
  // progress
  pure val NOT_STARTED: int = 0
  pure val ONGOING: int = 1
  pure val COMPLETED: int = 2
  pure val FAILED: int = 3

  type Reg = { supply: int, minCap: int, maxCap: int, feeBps: int,
               dep: int, fee: int, claimed: int, refunded: int, escrows: int }

  type Presale = { owner: str, mode: int, wl: int, unsold: int,
                   maxCap: int, minCap: int, start: int, end: int, supply: int,
                   dep: int, fee: int, claimed: int, refunded: int, escrows: int, created: int,
                   lock: int, vest: int, immBps: int, immTs: int, vestStart: int, vestEnd: int,
                   feeCollected: bool, creatorWithdrawn: bool, unsoldDone: bool,
                   q: int, disWithdraw: int, disEarly: int,
                   regs: List[Reg] }

  type Escrow = { dep: int, fee: int, claimed: int, pending: int, refundDone: bool,
                  cap: int, created: int, refreshed: int }

  type FArgs = { owner: str, q: int, dw: int }

  // one transfer-fee setting and a mint: `fee0` applies before epoch `switch`, `fee1` from then on
  type Fee = { bps: int, max: int }
  type Mint = { t22: bool, hasFee: bool, fee0: Fee, fee1: Fee, switch: int, hook: bool, ext: str,
                memo: bool }   // wallets of this mint demand a memo on incoming transfers

  // escrow key: presale, owner, registry index
  type EKey = (str, str, int)

  type State = {
    now: int, epoch: int,
    base: Mint, quote: Mint,
    presales: str -> Presale,
    baseVault: str -> int, quoteVault: str -> int,
    escrows: EKey -> Escrow,
    operators: Set[(str, str)],          // (creator, operator owner)
    roots: (str, int) -> int,            // (presale, version) -> root
    fargs: str -> FArgs,
    meta: str -> str,                    // presale -> server url
    balB: str -> int, balQ: str -> int,  // wallets' token accounts
    supplyB: int                         // base mint supply (burning shrinks it)
  }

  type RegArgs = { minCap: int, maxCap: int, supply: int, feeBps: int }
  type InitArgs = { maxCap: int, minCap: int, start: int, end: int, wl: int, mode: int,
                    unsold: int, disEarly: int, immBps: int, lock: int, vest: int, immTs: int,
                    regs: List[RegArgs] }
  // (owner, registry index, cap)
  type Leaf = (str, int, int)

  // One instruction with its arguments and the accounts passed to it.
  //  who    the wallet that signs (as owner / creator / payer / operator owner)
  //  own    escrow owner, or the owner/creator named by an initialisation
  //  dest   wallet whose token account (or lamports, for rent) receives the proceeds
  //  acc    key of the auxiliary account passed (operator's creator; merkle config's presale; ...)
  //  acc2   second component (operator's owner)
  //  hook   how transfer-hook accounts are supplied
  //  slot/sub  account substitution: which account slot is replaced, and by what ("" = none)
  type Op = { kind: str, p: str, who: str, own: str, reg: int, amt: int, dest: str,
              acc: str, acc2: str, ver: int, cap: int, num: int, txt: str,
              proof: List[int], leaves: List[Leaf], args: InitArgs,
              hook: str, slot: str, sub: str }

  type Event = { name: str, keys: List[str], nums: List[int] }
  pure val noEvent: Event = { name: "", keys: [], nums: [] }

  // result of an instruction: accepted?, next state, event emitted, receiver of closed account's rent
  type Res = { ok: bool, s: State, ev: Event, rent: str }

  pure val noArgs: InitArgs = { maxCap: 0, minCap: 0, start: 0, end: 0, wl: 0, mode: 0, unsold: 0,
                     disEarly: 0, immBps: 0, lock: 0, vest: 0, immTs: 0, regs: [] }
  pure val noOp: Op = { kind: "init", p: "", who: "", own: "", reg: 0, amt: 0, dest: "", acc: "",
                    acc2: "", ver: 0, cap: 0, num: 0, txt: "", proof: [], leaves: [], args: noArgs,
                    hook: "auto", slot: "", sub: "" }
}
