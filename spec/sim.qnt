// Random behaviours of the system, as a state machine.
module sim {
  import types.* from "./types"
  import presale.* from "./presale"
  import gen.* from "./gen"

  var s: State
  var op: Op
  var ok: bool
  var ev: Event
  var rent: str
  var prof: int
  var n: int

  action initWith(pf: int): bool = {
    nondet z = 0.to(2^640 - 1).oneOf()
    all { s' = world(pf, z), op' = noOp, ok' = true, ev' = noEvent, rent' = "", prof' = pf, n' = 0 }
  }
  action step = {
    nondet z = 0.to(2^640 - 1).oneOf()
    nondet y = 0.to(2^640 - 1).oneOf()
    val o = chooseOp(s, prof, n, z, y)
    val r = apply(s, o)
    all { s' = r.s, op' = o, ok' = r.ok, ev' = r.ev, rent' = r.rent, prof' = prof, n' = n + 1 }
  }
  action init = initWith(0)
  action init1 = initWith(1)
  action init2 = initWith(2)
  action init3 = initWith(3)
  action init4 = initWith(4)
  action init5 = initWith(5)
  action init6 = initWith(6)
  action init7 = initWith(7)
  action init8 = initWith(8)
  action init9 = initWith(9)
  action init10 = initWith(10)
  action init11 = initWith(11)
  action init12 = initWith(12)
  action init13 = initWith(13)
}
