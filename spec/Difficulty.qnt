// The difficulty of the next block, from the timestamps and the cumulative
// difficulties of its most recent ancestors, with exact arithmetic.
module Difficulty {
  pure val T = 240
  // The least difficulty of the versions 2 to 5; the test network has none.
  pure def minimum(net: str): int = if (net == "main") 100000 else 0

  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def clamp(lo: int, x: int, hi: int): int = max2(lo, min2(x, hi))
  // Division rounding towards zero.
  pure def tdiv(a: int, b: int): int = if (a >= 0) a / b else -((-a) / b)
  pure def last(l: List[int]): int = l[l.length() - 1]

  pure def insertSorted(l: List[int], x: int): List[int] =
    if (l.length() == 0 or last(l) <= x) l.append(x)
    else l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl(List(), insertSorted)
  pure def medianOf(l: List[int]): int = {
    val s = sorted(l)
    val n = s.length()
    if (n % 2 == 1) s[n / 2] else (s[n / 2 - 1] + s[n / 2]) / 2
  }

  pure def version(h: int): int =
    if (h > 700000) 5 else if (h > 266000) 4 else if (h > 216000) 3 else if (h > 60000) 2 else 1
  // How many ancestors the algorithm of a version asks for.
  pure def window(v: int): int = if (v == 1) 375 else if (v == 2) 17 else if (v == 5) 121 else 61
  // How many ancestors the timestamp of a block is compared with.
  pure def tsWindow(v: int): int = if (v >= 4) 11 else 60

  pure def lastN(l: List[int], n: int): List[int] = if (l.length() <= n) l else l.slice(l.length() - n, l.length())
  pure def firstN(l: List[int], n: int): List[int] = if (l.length() <= n) l else l.slice(0, n)

  // Version 1: a day of blocks without the latest 15, cut by 60 on both sides of the sorted timestamps.
  pure def v1(ts: List[int], cum: List[int]): int = {
    val s = sorted(firstN(ts, 360))
    val c = firstN(cum, 360)
    val n = s.length()
    val b = if (n <= 240) 0 else (n - 240 + 1) / 2
    val e = if (n <= 240) n else b + 240
    if (n <= 1) 1
    else {
      val span = max2(1, s[e - 1] - s[b])
      val work = c[e - 1] - c[b]
      (work * T + span - 1) / span
    }
  }

  pure def v2(net: str, ts: List[int], cum: List[int]): int = {
    val s = sorted(ts)
    if (s.length() <= 1) 1
    else max2(minimum(net), (last(cum) - cum[0]) * T / max2(1, last(s) - s[0]))
  }

  // Version 3 is computed with floating point numbers: the sum of weighted
  // solve times is exact here, the result is known up to a small interval.
  pure def v3weighted(ts: List[int]): int =
    range(1, max2(1, ts.length())).foldl(0, (a, i) => a + i * clamp(-6 * T, ts[i] - ts[i - 1], 7 * T))
  pure val Scale = 10^60
  pure def v3interval(net: str, ts: List[int], cum: List[int]): (int, int) = {
    val n = ts.length() - 1
    val k = n * (n + 1) / 2
    val w = v3weighted(ts)
    // weighted average below 11.5 seconds (rounded: below 12) counts as 12
    val num = if (2 * w < 23 * k) 12 * k else w
    val inv = range(1, max2(1, n + 1)).foldl(0, (a, i) => a + Scale / (cum[i] - cum[i - 1]))
    // n / inv * 0.998 * T / (num / k)
    val x = n * Scale * 998 * T * k * 10^12 / (inv * 1000 * num)
    if (n < 3) (1, 1)
    else (max2(minimum(net), (x - x / 10^9 - 10) / 10^12), max2(minimum(net), (x + x / 10^9 + 10) / 10^12))
  }
  // Where rounding of the floating point sum may decide the branch.
  pure def v3ambiguous(ts: List[int]): bool = {
    val n = ts.length() - 1
    2 * v3weighted(ts) == 23 * (n * (n + 1) / 2)
  }

  // Version 4: top is the index of the last block.
  pure def v4(net: str, top: int, ts: List[int], cum: List[int]): int = {
    val n = 60
    val lwma2 = top < 300000
    // (previous maximum, weighted sum, sum of the last three)
    val r = range(1, n + 1).foldl((ts[0], 0, 0), (a, i) => {
      val m = if (ts[i] > a._1) ts[i] else a._1 + 1
      val st = if (lwma2) clamp(-6 * T, ts[i] - ts[i - 1], 6 * T) else min2(6 * T, m - a._1)
      (m, a._2 + st * i, a._3 + (if (i > n - 3) st else 0))
    })
    val l = if (r._2 == 0) 1 else r._2
    val d0 = (cum[n] - cum[0]) * T * (n + 1)
    val d1 = if (l > 0) d0 / (2 * l) else -(d0 / (2 * (-l)))
    val prev = cum[n] - cum[n - 1]
    val d2 = clamp(prev * 67 / 100, tdiv(d1 * 99, 100), prev * 150 / 100)
    val d3 = if (r._3 < 192) prev * 110 / 100 else d2
    max2(minimum(net), d3)
  }

  pure def rounded(d: int): int =
    val i = [10^9, 10^8, 10^7, 10^6, 10^5, 10^4, 10^3, 10^2, 10].foldl(1, (a, x) => if (a == 1 and d > x * 100) x else a)
    if (i == 1) d else (d + i / 2) / i * i

  // Version 5: starts anew at block 700001.
  pure def v5average(ts0: List[int], cum0: List[int], n: int): int = {
    val cum = lastN(cum0, n + 1)
    (cum[n] - cum[0]) / n
  }
  pure def v5blocks(top: int): int = min2(120, top - 700000)
  pure def v5(net: str, top: int, ts0: List[int], cum0: List[int]): int =
    if (top == 700000) cum0[0] / 700000 / 1000
    else {
      val n = v5blocks(top)
      val ts = lastN(ts0, n + 1)
      val r = range(1, n + 1).foldl((ts[0] - T, 0), (a, i) => {
        val t = if (ts[i] > a._1) ts[i] else a._1 + 1
        (t, a._2 + i * min2(6 * T, t - a._1))
      })
      val l = max2(r._2, n * n * T / 20)
      val avg = v5average(ts0, cum0, n)
      val d = if (avg > 2000000 * n * n * T) (avg / (200 * l)) * (n * (n + 1) * T * 99)
              else avg * n * (n + 1) * T * 99 / (200 * l)
      max2(minimum(net), rounded(d))
    }
  // The 64 bit product of the original algorithm overflows in this range of
  // average difficulties; it is left out.
  pure def v5overflows(top: int, ts: List[int], cum: List[int]): bool =
    if (top <= 700000) false
    else {
      val n = v5blocks(top)
      val avg = v5average(ts, cum, n)
      avg <= 2000000 * n * n * T and avg * n * (n + 1) * T * 99 >= 2^63
    }

  // The interval the difficulty of the block after top lies in.
  pure def due(net: str, top: int, ts: List[int], cum: List[int]): (int, int) = {
    val v = version(top + 1)
    if (v == 3) v3interval(net, ts, cum)
    else {
      val d = if (v == 1) v1(ts, cum) else if (v == 2) v2(net, ts, cum) else if (v == 4) v4(net, top, ts, cum) else v5(net, top, ts, cum)
      (d, d)
    }
  }
  pure def decided(top: int, ts: List[int], cum: List[int]): bool = {
    val v = version(top + 1)
    if (v == 3) not(v3ambiguous(ts)) else if (v == 5) not(v5overflows(top, ts, cum)) else true
  }

  // ---- inputs
  pure def noise(seed: int, i: int, m: int): int = ((i + 7) * (seed % 1000003 + 11) * 7919 + i * i * 104729) % m
  // The difficulty of the i-th block of a window.
  pure def work(p: int, unit: int, seed: int, i: int): int =
    if (p == 0) unit
    else if (p == 1) unit + noise(seed, i, unit)
    else if (p == 2) (if (i % 2 == 0) unit else unit * 3)
    else if (p == 3) unit + i * (unit / 10 + 1)
    else if (p == 4) (if (noise(seed, i, 10) == 0) unit * 20 else unit)
    else max2(1, unit - i * (unit / 500))
  // The time between the i-th block of a window and the one before.
  pure def gap(p: int, seed: int, i: int): int =
    if (p == 0) 240
    else if (p == 1) noise(seed, i, 480)
    else if (p == 2) noise(seed, i, 4000) - 1200
    else if (p == 3) (if (i % 2 == 0) 3000 else -2700)
    else if (p == 4) 0
    else if (p == 5) (if (i % 7 == 0) 1680 else noise(seed, i, 3))
    else if (p == 6) 1
    else if (p == 7) 240 + i
    else if (p == 8) noise(seed, i, 21) + 1
    else noise(seed, i, 300) - 40
  pure def stamps(p: int, seed: int, start: int, n: int): List[int] =
    range(0, n).foldl((List(), start), (a, i) => (a._1.append(max2(1, a._2 + gap(p, seed, i))), max2(1, a._2 + gap(p, seed, i))))._1
  pure def works(p: int, unit: int, seed: int, start: int, n: int): List[int] =
    range(0, n).foldl((List(), start), (a, i) => (a._1.append(a._2 + work(p, unit, seed, i)), a._2 + work(p, unit, seed, i)))._1
}

// Windows of all kinds, asked one by one.
module DifficultyCases {
  import Difficulty.*
  var net: str
  var top: int
  var ts: List[int]
  var cum: List[int]
  var low: int
  var high: int
  var ask: bool

  action any_: bool = {
    nondet netv = Set("main", "main", "test").oneOf()
    nondet kk = 0.to(13).oneOf()
    nondet tr = 0.to(30000).oneOf()
    nondet back = 0.to(130).oneOf()
    val topv = [60000 - 1 - tr, 60000 - 1, 60000, 60001 + tr, 215999, 216000, 216001 + tr, 266000, 266001 + tr, 299999, 300000, 300001 + tr, 700000, 700001 + back][kk]
    nondet fewer = 0.to(420).oneOf()
    nondet useFew = 0.to(3).oneOf()
    // only version 1 and 2 were ever asked with short windows
    val full = window(version(topv + 1))
    val n = if (version(topv + 1) == 1 and useFew > 0) min2(full, fewer) else if (version(topv + 1) <= 3 and useFew == 0) fewer % (full + 1) else full
    nondet tp = 0.to(9).oneOf()
    nondet wp = 0.to(5).oneOf()
    nondet seed = 0.to(1000000000).oneOf()
    nondet uk = 0.to(9).oneOf()
    nondet ur = 1.to(1000000000).oneOf()
    val unit = [1, 2, 500, 100000, 1000000, 12345678, ur, ur * 10, 1000000000, 10000000000][uk]
    nondet shift = 0.to(2).oneOf()
    val t = stamps(tp, seed, 1500000000 + seed % 100000, n)
    // the last timestamps at the extremes
    val tt = if (shift == 0 or n < 3) t else if (shift == 1) t.replaceAt(n - 1, t[n - 1] + 100000) else t.replaceAt(n - 2, t[n - 2] + 5000)
    val c = works(wp, unit, seed, unit * topv, n)
    val d = if (n < 1 or not(decided(topv, tt, c))) (1, 1) else due(netv, topv, tt, c)
    all {
      net' = netv, top' = topv, ts' = tt, cum' = c, low' = d._1, high' = d._2,
      ask' = n >= 1 and decided(topv, tt, c),
    }
  }
  action init = any_
  action step = any_
  val sane = and {
    low <= high,
    // but for the restart of version 5 and short windows
    ask and version(top + 1) >= 2 and top != 700000 and ts.length() >= 4 implies low >= minimum(net),
    high - low <= 1 + high / 10^8,
  }
}

// A chain that grows: each block adds the difficulty its ancestors determine.
module DifficultyChain {
  import Difficulty.*
  var net: str
  var top: int
  var ts: List[int]      // of the most recent ancestors, without the genesis block
  var cum: List[int]
  var low: int           // the difficulty of the top block lies in [low, high]
  var high: int
  var exact: bool        // low = high so far: the chain's own numbers are known

  pure val keep = 375
  action init = {
    nondet netv = Set("main", "test").oneOf()
    nondet kk = 0.to(16).oneOf()
    val base = [0, 1, 2, 3, 58, 240, 241, 359, 374, 59990, 60100, 215990, 265995, 299995, 699985, 700050, 700115][kk]
    nondet tp = 0.to(9).oneOf()
    nondet wp = 0.to(5).oneOf()
    nondet seed = 0.to(1000000000).oneOf()
    nondet uk = 0.to(4).oneOf()
    // small enough difficulties would restart version 5 at zero
    val unit = if (base > 690000) max2(100000, [3, 100000, 1234567, 10000000, 800000000][uk]) else [3, 100000, 1234567, 10000000, 800000000][uk]
    all {
      net' = netv, top' = base,
      ts' = stamps(tp, seed, 1500000000, min2(base, keep)),
      cum' = works(wp, unit, seed, unit * max2(0, base - keep), min2(base, keep)),
      low' = 0, high' = 0, exact' = true,
    }
  }
  action step = {
    val v = version(top + 1)
    val wt = lastN(ts, window(v))
    val wc = lastN(cum, window(v))
    nondet gk = 0.to(7).oneOf()
    nondet gr = 0.to(2000).oneOf()
    val want = (if (ts.length() == 0) 1500000000 else last(ts)) + [240, 1, 0, gr, gr, -gr, 1700, -5][gk]
    // no earlier than the median of the ancestors allows
    val low_ = if (ts.length() >= tsWindow(v)) medianOf(lastN(ts, tsWindow(v))) else 1
    val t = max2(want, low_)
    val d = if (ts.length() == 0) (1, 1) else due(net, top, wt, wc)
    all {
      // the difficulties of version 3 are known only up to rounding: the
      // machine takes the lower one and the replay follows the real number
      decided(top, wt, wc) or ts.length() == 0,
      // far from the limits of 64 bits
      d._2 < 2^45, d._1 > 0,
      net' = net, top' = top + 1,
      ts' = lastN(ts.append(t), keep),
      cum' = lastN(cum.append((if (cum.length() == 0) 0 else last(cum)) + d._1), keep),
      low' = d._1, high' = d._2,
      exact' = (exact and d._1 == d._2),
    }
  }
  val sane = and {
    cum.length() == ts.length(),
    cum.indices().forall(i => i == 0 or cum[i] > cum[i - 1]),
  }
}
