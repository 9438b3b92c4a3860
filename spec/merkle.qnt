// Whitelist trees with a perfect (injective) hash.  A node is an integer tag + 4 * payload:
//   0 leaf of an inner digest   1 inner node of an unordered pair   2 bare inner digest   3 other bytes
module merkle {
  import types.* from "./types"

  pure val WALLET_IX: str -> int = Map("c1" -> 0, "c2" -> 1, "u1" -> 2, "u2" -> 3, "u3" -> 4, "o1" -> 5, "o2" -> 6, "x" -> 7, "w0" -> 8, "w1" -> 9, "w2" -> 10, "w3" -> 11, "w4" -> 12, "w5" -> 13, "w6" -> 14, "w7" -> 15, "w8" -> 16, "w9" -> 17, "w10" -> 18, "w11" -> 19, "w12" -> 20, "w13" -> 21, "w14" -> 22, "w15" -> 23, "w16" -> 24, "w17" -> 25, "w18" -> 26, "w19" -> 27, "w20" -> 28, "w21" -> 29, "w22" -> 30, "w23" -> 31, "w24" -> 32, "w25" -> 33, "w26" -> 34, "w27" -> 35, "w28" -> 36, "w29" -> 37, "w30" -> 38, "w31" -> 39, "w32" -> 40, "w33" -> 41, "w34" -> 42, "w35" -> 43, "w36" -> 44, "w37" -> 45, "w38" -> 46, "w39" -> 47, "w40" -> 48, "w41" -> 49, "w42" -> 50, "w43" -> 51, "w44" -> 52, "w45" -> 53, "w46" -> 54, "w47" -> 55, "w48" -> 56, "w49" -> 57, "w50" -> 58, "w51" -> 59, "w52" -> 60, "w53" -> 61, "w54" -> 62, "w55" -> 63, "w56" -> 64, "w57" -> 65, "w58" -> 66, "w59" -> 67, "w60" -> 68, "w61" -> 69, "w62" -> 70, "w63" -> 71, "w64" -> 72, "w65" -> 73, "w66" -> 74, "w67" -> 75, "w68" -> 76, "w69" -> 77, "w70" -> 78, "w71" -> 79, "w72" -> 80, "w73" -> 81, "w74" -> 82, "w75" -> 83, "w76" -> 84, "w77" -> 85, "w78" -> 86, "w79" -> 87, "w80" -> 88, "w81" -> 89, "w82" -> 90, "w83" -> 91, "w84" -> 92, "w85" -> 93, "w86" -> 94, "w87" -> 95, "w88" -> 96, "w89" -> 97, "w90" -> 98, "w91" -> 99, "w92" -> 100, "w93" -> 101, "w94" -> 102, "w95" -> 103, "w96" -> 104, "w97" -> 105, "w98" -> 106, "w99" -> 107, "w100" -> 108, "w101" -> 109, "w102" -> 110, "w103" -> 111, "w104" -> 112, "w105" -> 113, "w106" -> 114, "w107" -> 115, "w108" -> 116, "w109" -> 117, "w110" -> 118, "w111" -> 119, "w112" -> 120, "w113" -> 121, "w114" -> 122, "w115" -> 123, "w116" -> 124, "w117" -> 125, "w118" -> 126)
  pure def walletIx(w: str): int = if (w.in(WALLET_IX.keys())) WALLET_IX.get(w) else 127

  // number of 32-bit words of a non-negative integer (up to 1023)
  pure def words(b: int): int = [512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (n, k) => if (b >= 2^(32 * (n + k - 1))) n + k else n)
  // an injective pairing whose size is the sum of the sizes
  pure def pairing(a: int, b: int): int = { val n = words(b) (a * 2^(32 * n) + b) * 1024 + n }

  pure def inner(l: Leaf): int = 2 + 4 * ((l._3 * 256 + l._2) * 128 + walletIx(l._1))
  pure def leafHash(l: Leaf): int = 0 + 4 * inner(l)
  pure def nodeHash(a: int, b: int): int = 1 + 4 * (if (a <= b) pairing(a, b) else pairing(b, a))

  pure def levelUp(l: List[int]): List[int] =
    range(0, (l.length() + 1) / 2).foldl([], (acc, i) =>
      acc.append(nodeHash(l[2 * i], if (2 * i + 1 < l.length()) l[2 * i + 1] else l[2 * i])))

  // one entry per owner: the last one given, at the position of the first
  pure def dedup(ls: List[Leaf]): List[Leaf] =
    ls.foldl([], (acc, l) =>
      if (acc.select(m => m._1 == l._1).length() > 0)
        acc.foldl([], (a2, m) => a2.append(if (m._1 == l._1) l else m))
      else acc.append(l))

  // all levels, leaves first, root last (up to 128 leaves)
  pure def levels(ls: List[Leaf]): List[List[int]] =
    range(0, 7).foldl([ls.foldl([], (a, l) => a.append(leafHash(l)))], (acc, i) => {
      val last = acc[acc.length() - 1]
      if (last.length() > 1) acc.append(levelUp(last)) else acc
    })
  pure def topOf(lv: List[List[int]]): int = lv[lv.length() - 1][0]
  pure def sib(l: List[int], i: int): int =
    if (i % 2 == 1) l[i - 1] else if (i + 1 < l.length()) l[i + 1] else l[i]
  pure def pathOf(lv: List[List[int]], i: int): List[int] =
    range(0, lv.length() - 1).foldl([], (acc, k) => acc.append(sib(lv[k], i / (2^k))))
  pure def rootOf(ls: List[Leaf]): int = topOf(levels(ls))
  pure def proofOf(ls: List[Leaf], i: int): List[int] = pathOf(levels(ls), i)
  pure def verifies(root: int, l: Leaf, proof: List[int]): bool =
    proof.foldl(leafHash(l), (h, x) => nodeHash(h, x)) == root
}
