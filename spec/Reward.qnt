// The scheduled reward of a block, its penalty for size, and the emission of
// coins over a history of blocks.  All amounts are exact (atomic units).
module Reward {
  pure val Supply = 10000000000000000000
  pure val Tail = 1000000000000
  pure val GenesisSize = 80
  pure val GenesisCoins = 38146972656250
  pure val BlocksPerYear = 365 * 24 * 60 * 60 / 240

  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def min2(a: int, b: int): int = if (a < b) a else b

  pure def baseReward(coins: int): int = {
    val r = if (coins <= Supply) (Supply - coins) / 2^18 else 0
    if (coins + Tail >= Supply or r < Tail) (coins / 100) * 2 / BlocksPerYear else r
  }

  // Up to this size a block gets its full reward whatever the median.
  pure def zone(version: int): int = if (version == 1) 100000 else 1000000

  pure def scaled(amount: int, median: int, sz: int): int =
    if (sz <= median) amount else amount * ((2 * median - sz) * sz) / (median * median)

  // What a block may claim; meaningful only for sizes up to twice the median.
  pure def tooBig(version: int, median: int, sz: int): bool = sz > 2 * max2(median, zone(version))
  pure def reward(version: int, median: int, sz: int, coins: int, fee: int): int = {
    val m = max2(median, zone(version))
    scaled(baseReward(coins), m, sz) + scaled(fee, m, sz)
  }

  pure def insertSorted(l: List[int], x: int): List[int] =
    l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def medianOf(l: List[int]): int = {
    val s = l.foldl(List(), insertSorted)
    val n = s.length()
    if (n == 0) 0
    else if (n % 2 == 1) s[n / 2]
    else (s[n / 2 - 1] + s[n / 2]) / 2
  }
}

// Independent questions to the reward function.
module RewardCases {
  import Reward.*

  type Q = { version: int, median: int, sz: int, coins: int, fee: int }
  var q: Q
  var big: bool
  var claim: int
  var emission: int

  pure val marks = [0, 1, 38146972656250, 10^15, 5 * 10^18, 7378560000000000000,
    Supply - Tail * 2^18 - 1, Supply - Tail * 2^18, Supply - Tail * 2^18 + 1, Supply - Tail * 2^18 - 2^18, Supply - (Tail - 1) * 2^18,
    Supply - Tail - 1, Supply - Tail, Supply - Tail + 1, Supply - 1, Supply, Supply + 1, Supply + Tail, Supply + 10^17]

  action ask(d: Q): bool = all {
    q' = d,
    big' = tooBig(d.version, d.median, d.sz),
    claim' = if (tooBig(d.version, d.median, d.sz)) 0 else reward(d.version, d.median, d.sz, d.coins, d.fee),
    emission' = if (tooBig(d.version, d.median, d.sz)) 0 else reward(d.version, d.median, d.sz, d.coins, d.fee) - d.fee,
  }

  action any_: bool = {
    nondet version = 1.to(5).oneOf()
    nondet mk = 0.to(5).oneOf()
    nondet mr = 1.to(3000000).oneOf()
    val median = if (mk == 0) 0 else if (mk == 1) zone(version) - 1 else if (mk == 2) zone(version) + 1 else if (mk == 3) 100000 else mr
    val m = max2(median, zone(version))
    nondet sk = 0.to(12).oneOf()
    nondet sr = 1.to(6000000).oneOf()
    nondet d = (-2).to(2).oneOf()
    val sz =
      if (sk <= 2) m + d
      else if (sk <= 5) 2 * m + d
      else if (sk <= 8) m + sr % m
      else if (sk == 9) m + m / 2 + d
      else sr
    nondet ck = 0.to(30).oneOf()
    nondet cr = 0.to(10^19).oneOf()
    nondet cs = 0.to(4 * 10^17).oneOf()
    val coins = if (ck < 19) marks[ck] else if (ck < 25) cr else Supply - cs
    nondet fk = 0.to(5).oneOf()
    nondet fr = 0.to(10^19).oneOf()
    nondet fs = 0.to(10^12).oneOf()
    val fee = if (fk == 0) 0 else if (fk == 1) 1 else if (fk == 2) fs else if (fk == 3) 10^8 else if (fk == 4) fr / 10^6 else fr / 100
    ask({ version: version, median: median, sz: sz, coins: coins, fee: fee })
  }
  action init = any_
  action step = any_

  val bounded = and {
    claim >= 0,
    emission <= baseReward(q.coins),
    claim <= baseReward(q.coins) + q.fee,
    not(big) and q.sz <= max2(q.median, zone(q.version)) implies claim == baseReward(q.coins) + q.fee,
  }
}

// A chain: the recorded sizes of its last blocks, the coins generated and the
// transactions confirmed so far; blocks are offered with some claim.
module Emission {
  import Reward.*

  var version: int
  var sizes: List[int]         // recorded sizes of the last blocks, newest last, at most 100
  var median: int
  var coins: int
  var txs: int
  var offer: { sz: int, fee: int, pads: int, claim: int, kind: str, verdict: str }

  // Size patterns of the ancestors, by distance from the top.
  pure def pattern(p: int, big: int, i: int): int =
    if (p == 0) 300
    else if (p == 1) big
    else if (p == 2) { if (i < 50) big else 300 }            // median between the two
    else if (p == 3) { if (i < 51) big else 300 }            // median big
    else if (p == 4) { if (i < 49) big else 300 }            // median small
    else if (p == 5) { if (i < 99) (if (i % 2 == 0) big else 300) else big * 2 }
    else if (p == 6) { if (i == 99) big * 2 else if (i < 50) big else 300 }   // the oldest counts
    else if (p == 7) { if (i < 49) big * 2 else if (i == 49) big + 20001 else if (i < 99) big else 300 }
    else big + 1000 * (i % 30)

  var p: int
  var big: int
  var maxBlock: int

  action init = {
    nondet vv = 1.to(5).oneOf()
    nondet pp = 0.to(8).oneOf()
    nondet bb = 0.to(3).oneOf()
    nondet ck = 0.to(6).oneOf()
    nondet cr = 0.to(10^19).oneOf()
    // sometimes a chain shorter than the window, down to only the genesis block
    nondet len = [100, 100, 100, 100, 1, 2, 3, 50, 99].indices().oneOf()
    val n = [100, 100, 100, 100, 1, 2, 3, 50, 99][len]
    val v = if (n < 100) 1 else vv
    val window = range(0, n).foldl(List(), (l, i) => l.append(if (i == 0 and n < 100) GenesisSize else pattern(pp, [zone(v) + 1, zone(v) + 20000, zone(v) + 4444, zone(v) - 1][bb], n - 1 - i)))
    val b = [zone(v) + 1, zone(v) + 20000, zone(v) + 4444, zone(v) - 1][bb]
    all {
      version' = v,
      p' = pp,
      big' = b,
      maxBlock' = 1000000 + (if (n < 100) n else [1000, 60100, 216100, 400000, 700100][v - 1]) * 102400 / 131400,
      sizes' = window,
      median' = medianOf(window),
      coins' = if (n == 1) GenesisCoins else [7378560000000000000, 10^18, Supply - Tail * 2^18 - 2^19, Supply - Tail * 2^18 + 5, Supply - Tail, Supply + 12345678, cr][ck],
      txs' = 0,
      offer' = { sz: 0, fee: 0, pads: 0, claim: 0, kind: "init", verdict: "init" },
    }
  }

  action step = {
    val m = max2(median, zone(version))
    nondet sk = 0.to(11).oneOf()
    nondet sr = 0.to(20000).oneOf()
    val want = [5000 + sr, m - 1, m, m + 1, m + 1 + sr, m + 30000 + sr, m + m / 2, 2 * m - 1, 2 * m + 1, 2 * m + 2, maxBlock, 6000 + sr][sk]
    // never more than the block may have at all
    val sz = if (want > maxBlock) min2(maxBlock, m + 1 + sr % max2(maxBlock - m, 1)) else want
    nondet fk = 0.to(4).oneOf()
    val fee = [0, 0, 100000000000, 100000000007, 10^15][fk]
    nondet extraPad = 0.to(1).oneOf()
    // the transactions without fee that bring the block to its size
    val pads = sz / 200000 + 1 + extraPad
    val due = reward(version, median, sz, coins, fee)
    nondet claimKind = Set("due", "due", "due2", "less", "more", "base", "full", "nofee", "twice").oneOf()
    val claim =
      if (claimKind == "less") due - 1
      else if (claimKind == "more") due + 1
      else if (claimKind == "base") baseReward(coins)
      else if (claimKind == "full") baseReward(coins) + fee
      else if (claimKind == "nofee") due - fee
      else if (claimKind == "twice") 2 * due
      else due
    val grown = (if (sizes.length() == 100) sizes.tail() else sizes).append(sz)
    val ok = not(tooBig(version, median, sz)) and sz <= maxBlock and claim == due and due > 0
    all {
      claim > 0,
      claim < 2^64,
      coins + claim - fee >= 0,
      offer' = { sz: sz, fee: fee, pads: pads, claim: claim, kind: claimKind, verdict: if (ok) "accepted" else "refused" },
      coins' = if (ok) coins + claim - fee else coins,
      txs' = if (ok) txs + pads + (if (fee > 0) 1 else 0) else txs,
      sizes' = if (ok) grown else sizes,
      median' = if (ok) medianOf(grown) else median,
      version' = version, p' = p, big' = big, maxBlock' = maxBlock,
    }
  }

  val sane = and {
    sizes.length() <= 100,
    sizes.select(x => x < median).length() <= 50 and sizes.select(x => x > median).length() <= 50,
    offer.verdict == "accepted" implies offer.claim >= 1,
    offer.verdict == "accepted" implies offer.sz <= 2 * max2(zone(version), sizes.foldl(0, max2)),
  }
}
