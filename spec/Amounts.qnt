// Exact arithmetic of amounts: the 64 and 128 bit helpers everything else is
// computed with, the decomposition of an amount into the outputs a wallet
// creates for it, and the moment at which an output may be spent.
module Amounts {
  pure val W = 2^64
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def insertSorted(l: List[int], x: int): List[int] =
    l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl(List(), insertSorted)
  pure def medianOf(l: List[int]): int = {
    val s = sorted(l)
    val n = s.length()
    if (n == 0) 0
    else if (n % 2 == 1) s[n / 2]
    else (s[n / 2 - 1] + s[n / 2]) / 2
  }
  pure def sumOf(l: List[int]): int = l.foldl(0, (s, x) => s + x)

  // Decimal digits that are not zero, each with its power of ten, ascending.
  pure def digits(amount: int): List[int] =
    range(0, 20).foldl(List(), (l, k) => {
      val d = (amount / 10^k) % 10
      if (d == 0) l else l.append(d * 10^k)
    })
  // The digits that together stay within the threshold are dust: one output.
  pure def dustDigits(ds: List[int], threshold: int): int =
    ds.foldl({ n: 0, sum: 0 }, (r, x) =>
      if (r.sum + x <= threshold) { n: r.n + 1, sum: r.sum + x } else { n: r.n, sum: threshold + 1 }).n
  pure def decompose(amount: int, threshold: int): { big: List[int], small: int } = {
    val ds = digits(amount)
    val n = dustDigits(ds, threshold)
    { big: ds.slice(n, ds.length()), small: sumOf(ds.slice(0, n)) }
  }

  // Up to this number an unlock time is a height, from it on a time.
  pure val MaxBlockNumber = 500000000
  pure val DeltaBlocks = 1
  pure val DeltaSeconds = 240
  pure def unlocked(unlock: int, height: int, now: int): bool =
    if (unlock < MaxBlockNumber) height + DeltaBlocks >= unlock else now + DeltaSeconds >= unlock
}

// Questions to the arithmetic helpers.
module ArithCases {
  import Amounts.*

  type Q = { op: str, a: int, b: int, c: int, l: List[int] }
  type R = { x: int, y: int, l: List[int], ok: bool }
  var q: Q
  var r: R
  pure val none: R = { x: 0, y: 0, l: [], ok: true }

  pure def answer(k: Q): R =
    if (k.op == "mul") { val p = k.a * k.b { ...none, x: p % W, y: p / W } }
    else if (k.op == "div") { val p = (k.a * W + k.b) / k.c { ...none, x: p % W, y: p / W } }
    else if (k.op == "median") { ...none, x: medianOf(k.l) }
    else if (k.op == "clamp") { ...none, x: max2(k.a, min2(k.b, k.c)) }
    else if (k.op == "min" or k.op == "minu") { ...none, x: min2(k.a, k.b) }
    else if (k.op == "max" or k.op == "maxu") { ...none, x: max2(k.a, k.b) }
    else if (k.op == "unique") { ...none, ok: k.l.length() == k.l.indices().map(i => k.l[i]).size() }
    else if (k.op == "sorted") { ...none, ok: k.l.indices().forall(i => i == 0 or k.l[i - 1] <= k.l[i]) }
    else { ...none, l: k.l.foldl([], (s, x) => [x].concat(s)) }

  action any_: bool = {
    nondet op = Set("mul", "mul", "mul", "div", "div", "div", "median", "median", "clamp", "min", "max", "minu", "maxu", "unique", "sorted", "reverse").oneOf()
    nondet ka = 0.to(5).oneOf()
    nondet kb = 0.to(5).oneOf()
    nondet kc = 0.to(3).oneOf()
    nondet ea = 0.to(63).oneOf()
    nondet eb = 0.to(63).oneOf()
    nondet ec = 0.to(31).oneOf()
    nondet da = (-2).to(2).oneOf()
    nondet db = (-2).to(2).oneOf()
    nondet wa = 0.to(2^64 - 1).oneOf()
    nondet wb = 0.to(2^64 - 1).oneOf()
    nondet wc = 1.to(2^32 - 1).oneOf()
    // whole words, powers of two and their neighbours, half words, extremes
    val a = ((if (ka == 0) 2^ea + da else if (ka == 1) W - 1 + min2(da, 0) else if (ka == 2) wa % 2^32 else if (ka == 3) (wa / 2^32) * 2^32 else if (ka == 4) (2^32 - 1) * 2^32 + max2(da, 0) else wa) + W) % W
    val b = ((if (kb == 0) 2^eb + db else if (kb == 1) W - 1 + min2(db, 0) else if (kb == 2) wb % 2^32 else if (kb == 3) (wb / 2^32) * 2^32 else if (kb == 4) a else wb) + W) % W
    val c = if (kc == 0) max2(1, 2^ec + min2(da, 0)) else if (kc == 1) 2^32 - 1 - max2(da, 0) else wc
    nondet l0 = 0.to(9).oneOf()
    nondet ls = 0.to(4).oneOf()
    nondet x0 = 0.to(2^64 - 1).oneOf()
    nondet x1 = 0.to(2^64 - 1).oneOf()
    nondet x2 = 0.to(2^32 - 1).oneOf()
    nondet x3 = 0.to(2^32 - 1).oneOf()
    nondet x4 = 0.to(9).oneOf()
    nondet x5 = 0.to(9).oneOf()
    nondet x6 = 0.to(9).oneOf()
    nondet x7 = 0.to(9).oneOf()
    nondet x8 = 0.to(9).oneOf()
    // of increasing sizes, equal values in between, or small ones only
    val big = [x0, x2, x4, x1, x5, x0, x3, x6, x7]
    val small = [x4, x5, x6, x7, x8, x4, x5, x2 % 3, x3 % 3]
    val huge = [x0, x1, W - 1 - x2, x1, x0, W - 1 - x4, x5, 2^63, 2^63 - x6]
    val long = if (ls == 4) huge else if (ls == 0) big else if (ls == 1) small else if (ls == 2) sorted(small) else sorted(big)
    val cut = long.slice(0, l0)
    // unsigned 32 bit values for the checks of indexes
    val l = if (op == "unique" or op == "sorted") cut.foldl([], (s, x) => s.append(x % 2^32)) else cut
    val signed = (op == "clamp" or op == "min" or op == "max")
    val sa = if (signed) a - 2^63 else a
    val sb = if (signed) b - 2^63 else b
    val sc = if (op == "clamp") max2(sa, wc - 2^31) else c
    val k: Q = { op: op, a: sa, b: sb, c: sc, l: l }
    all { q' = k, r' = answer(k) }
  }
  action init = any_
  action step = any_

  val exact = and {
    q.op == "mul" implies r.y * W + r.x == q.a * q.b,
    q.op == "div" implies and {
      (r.y * W + r.x) * q.c <= q.a * W + q.b,
      q.a * W + q.b - (r.y * W + r.x) * q.c < q.c,
    },
    q.op == "clamp" implies r.x >= q.a and r.x <= q.c,
    q.op == "median" implies q.l.select(x => x < r.x).length() * 2 <= q.l.length() and q.l.select(x => x > r.x).length() * 2 <= q.l.length(),
  }
}

// Questions to the decomposition.
module DecomposeCases {
  import Amounts.*

  var amount: int
  var threshold: int
  var big: List[int]
  var small: int

  action any_: bool = {
    nondet ka = 0.to(6).oneOf()
    nondet e = 0.to(19).oneOf()
    nondet d = 1.to(9).oneOf()
    nondet e2 = 0.to(18).oneOf()
    nondet w = 0.to(2^64 - 1).oneOf()
    val raw =
      if (ka == 0) w
      else if (ka == 1) w % 10^e
      else if (ka == 2) d * 10^e2
      else if (ka == 3) 10^e + w % 10^e2
      else if (ka == 4) (w / 10^e2) * 10^e2      // zeros at the end
      else if (ka == 5) 10^e - 1                 // only nines
      else (w / 10^e) * 10^e + (w % 10^(e / 2 + 1)) // zeros in the middle
    val a = raw % W
    nondet kt = 0.to(8).oneOf()
    nondet dt = (-1).to(1).oneOf()
    nondet te = 0.to(19).oneOf()
    nondet t0 = 0.to(2^64 - 1).oneOf()
    val pre = a % 10^te
    val t =
      if (kt == 0) 0
      else if (kt == 1) 10^te
      else if (kt == 2) max2(0, a + dt) % W
      else if (kt <= 5) max2(0, pre + dt)        // just what the first digits come to
      else if (kt == 6) max2(0, 10^te - 1)
      else if (kt == 7) t0
      else 10000000000
    val r = decompose(a, t % W)
    all { amount' = a, threshold' = t % W, big' = r.big, small' = r.small }
  }
  action init = any_
  action step = any_

  val sane = and {
    sumOf(big) + small == amount,
    small <= threshold,
    big.length() <= 20,
    big.indices().forall(i => i == 0 or big[i - 1] < big[i]),
    // nothing more would have been dust
    big.length() > 0 implies small + big[0] > threshold,
  }
}

// Questions about the spending of outputs with an unlock time.
module UnlockCases {
  import Amounts.*

  var unlock: int
  var height: int
  var now: int
  var open: bool

  action any_: bool = {
    nondet n = 946684800.to(946684800 + 10000000).oneOf()
    nondet kh = 0.to(5).oneOf()
    nondet hr = 0.to(2^32 - 1).oneOf()
    val h = if (kh == 0) 0 else if (kh == 1) MaxBlockNumber - 1 else if (kh == 2) MaxBlockNumber else if (kh == 3) 2^32 - 1 else if (kh == 4) hr % 1000000 else hr
    nondet ku = 0.to(9).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet ur = 0.to(2^64 - 1).oneOf()
    val u =
      if (ku <= 2) max2(0, h + DeltaBlocks + d)
      else if (ku <= 5) n + DeltaSeconds + d
      else if (ku == 6) MaxBlockNumber + d
      else if (ku == 7) 2^32 + d
      else if (ku == 8) W - 1 + min2(d, 0)
      else [0, 1, 2, ur % MaxBlockNumber, ur][d + 2]
    all { unlock' = u, height' = h, now' = n, open' = unlocked(u, h, n) }
  }
  action init = any_
  action step = any_

  val monotone = and {
    open implies unlocked(unlock, height + 1, now),
    open implies unlocked(unlock, height, now + 1),
    unlock == 0 implies open,
  }
}
