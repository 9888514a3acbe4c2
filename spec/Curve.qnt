// The twisted Edwards curve -x^2 + y^2 = 1 + d x^2 y^2 over the field of
// 2^255 - 19 elements, with plain integers: encodings, the group, scalars
// modulo the order of the base point, and the map from hashes to points.
module Curve {
  pure val p = 2^255 - 19
  pure val L = 2^252 + 27742317777372353535851937790883648493
  pure val A = 486662

  // mathematical remainder, also of negative numbers
  pure def fmod(a: int, m: int): int = { val r = a % m if (r < 0) r + m else r }
  pure def f(a: int): int = fmod(a, p)
  pure val Bits = range(0, 256)
  pure def pow(b: int, e: int): int =
    Bits.foldl({ r: 1, b: b, e: e }, (s, _) =>
      if (s.e == 0) s else { r: if (s.e % 2 == 1) s.r * s.b % p else s.r, b: s.b * s.b % p, e: s.e / 2 }).r
  pure def inv(a: int): int = pow(a, p - 2)
  pure val d = f(-121665 * inv(121666))
  pure val sqrtM1 = pow(2, (p - 1) / 4)
  pure def isSquare(a: int): bool = a == 0 or pow(a, (p - 1) / 2) == 1
  // a square root of a square; which of the two does not matter
  pure def sqrt(a: int): int = { val c = pow(a, (p + 3) / 8) if (f(c * c) == a) c else f(c * sqrtM1) }

  // Points are kept in extended coordinates.
  type Pt = { x: int, y: int, z: int, t: int }
  pure def affine(x: int, y: int): Pt = { x: x, y: y, z: 1, t: f(x * y) }
  pure val O = affine(0, 1)
  pure def add(P: Pt, Q: Pt): Pt = {
    val a = (P.y - P.x) * (Q.y - Q.x)
    val b = (P.y + P.x) * (Q.y + Q.x)
    val c = P.t * Q.t % p * 2 * d
    val dd = 2 * P.z * Q.z
    val e = f(b - a)
    val ff = f(dd - c)
    val g = f(dd + c)
    val h = f(b + a)
    { x: f(e * ff), y: f(g * h), z: f(ff * g), t: f(e * h) }
  }
  pure def neg(P: Pt): Pt = { x: f(-P.x), y: P.y, z: P.z, t: f(-P.t) }
  pure def mul(n: int, P: Pt): Pt =
    Bits.foldl({ r: O, q: P, n: n }, (s, _) =>
      if (s.n == 0) s else { r: if (s.n % 2 == 1) add(s.r, s.q) else s.r, q: add(s.q, s.q), n: s.n / 2 }).r
  // An encoding is y with the parity of x as the highest bit.
  pure def enc(P: Pt): int = {
    val zi = inv(P.z)
    val x = P.x * zi % p
    P.y * zi % p + (x % 2) * 2^255
  }
  // The points an encoding stands for: one or none.
  pure def dec(e: int): { ok: bool, pt: Pt } = {
    val y = e % 2^255
    val sign = e / 2^255
    val yy = y * y % p
    val xx = f((yy - 1) * inv(f(d * yy + 1)))
    val r = sqrt(xx)
    if (y >= p or not(isSquare(xx)) or (xx == 0 and sign == 1)) { ok: false, pt: O }
    else { ok: true, pt: affine(if (r % 2 == sign) r else f(-r), y) }
  }
  pure val gy = f(4 * inv(5))
  pure val G = dec(gy).pt
  pure val T8 = dec(2707385501144840649318225287225658788936804267575313519463743609750303402022).pt
  pure def low(j: int): Pt = mul(j, T8)
  pure def onCurve(P: Pt): bool = {
    val zi = inv(P.z)
    val x = P.x * zi % p
    val y = P.y * zi % p
    f(y * y - x * x) == f(1 + f(x * x) * f(d * y % p * y)) and P.t * zi % p == f(x * y)
  }

  // The point a hash stands for, before it is multiplied by eight.
  pure def ofHash(u: int): Pt = {
    val v = f(2 * u * u)
    val w = v + 1
    val q = f(w * inv(f(w * w - A * A * v)))
    val square = isSquare(q)
    val z = if (square) f(-A * v) else f(-A)
    val xx = if (square) f(A * (A + 2) * f(v * q)) else f(A * (A + 2) * q)
    val r = sqrt(xx)
    val want = if (square) 0 else 1
    affine(if (r % 2 == want) r else f(-r), f((z - w) * inv(f(z + w))))
  }
}

module CurveCases {
  import Curve.*

  type Q = { op: str, a: int, b: int, c: int, s: int, t: int }
  var q: Q
  var ok: bool
  var r: int

  pure def scalar(k: int, e: int, dd: int, w: int): int =
    if (k == 0) [0, 1, 2, 8, L - 1][dd + 2]
    else if (k == 1) fmod(2^e + dd, L)
    else if (k == 2) fmod(L - 2^e % L + dd, L)
    else w % L
  // any 256 bit number
  pure def number(k: int, e: int, dd: int, w: int): int =
    if (k == 0) fmod(L * (e % 16) + dd, 2^256)
    else if (k == 1) fmod(2^e + dd, 2^256)
    else if (k == 2) 2^256 - 1 - e
    else if (k == 3) w % L
    else if (k == 4) (w / 2^e) * 2^e
    else if (k == 5) w % 2^e
    else w
  pure def point(k: int, j: int, s: int): int =
    if (k == 0) enc(low(j))
    else if (k == 1) enc(mul(s, G))
    else enc(add(mul(s, G), low(j)))
  // any encoding
  pure def encoding(k: int, j: int, dd: int, w: int, s: int): int =
    if (k == 0) point(0, j, s)
    else if (k == 1) point(1, j, s)
    else if (k == 2) fmod([0, 1, p, p - 1, 2^255, 2^255 + 1, 2^255 + p, 2^255 + p - 1][j] + dd, 2^256)
    else if (k == 3) { val e = point(2, j, s) if (e >= 2^255) e - 2^255 else e + 2^255 }
    else if (k == 4) fmod(point(2, j, s) + dd, 2^256)
    else if (k == 5) p + w % 19 + (w / 2^255) * 2^255
    else w

  pure def answer(k: Q): { ok: bool, r: int } =
    if (k.op == "dec") { val x = dec(k.a) { ok: x.ok, r: if (x.ok) k.a else 0 } }
    else if (k.op == "add") { ok: true, r: enc(add(dec(k.a).pt, dec(k.b).pt)) }
    else if (k.op == "sub") { ok: true, r: enc(add(dec(k.a).pt, neg(dec(k.b).pt))) }
    else if (k.op == "dbl") { ok: true, r: enc(add(dec(k.a).pt, dec(k.a).pt)) }
    else if (k.op == "mul8") { ok: true, r: enc(mul(8, dec(k.a).pt)) }
    else if (k.op == "base") { ok: true, r: enc(mul(k.s, G)) }
    else if (k.op == "mul") { ok: true, r: enc(mul(k.s, dec(k.a).pt)) }
    else if (k.op == "two") { ok: true, r: enc(add(mul(k.s, dec(k.a).pt), mul(k.t, G))) }
    else if (k.op == "pre") { ok: true, r: enc(add(mul(k.s, dec(k.a).pt), mul(k.t, dec(k.b).pt))) }
    else if (k.op == "sub8") { ok: enc(mul(L, dec(k.a).pt)) == 1, r: 0 }
    else if (k.op == "hash") { ok: true, r: enc(ofHash(f(k.a))) }
    else if (k.op == "hash8") { ok: true, r: enc(mul(8, ofHash(f(k.a)))) }
    else if (k.op == "reduce") { ok: true, r: (k.a + k.b * 2^256) % L }
    else if (k.op == "reduce32") { ok: true, r: k.a % L }
    else if (k.op == "check") { ok: k.a < L, r: 0 }
    else if (k.op == "nonzero") { ok: k.a != 0, r: 0 }
    else if (k.op == "scadd") { ok: true, r: (k.a + k.b) % L }
    else if (k.op == "scsub") { ok: true, r: fmod(k.a - k.b, L) }
    else if (k.op == "muladd") { ok: true, r: (k.a * k.b + k.c) % L }
    else { ok: true, r: fmod(k.c - k.a * k.b, L) }

  pure val pointOps = Set("add", "sub", "dbl", "mul8", "mul", "two", "pre", "sub8")

  action any_: bool = {
    nondet op = Set("dec", "dec", "add", "sub", "dbl", "mul8", "base", "mul", "two", "pre", "sub8", "hash", "hash8", "reduce", "reduce32",
                    "check", "nonzero", "scadd", "scsub", "muladd", "mulsub").oneOf()
    nondet ka = 0.to(6).oneOf()
    nondet kb = 0.to(6).oneOf()
    nondet kc = 0.to(6).oneOf()
    nondet ea = 0.to(255).oneOf()
    nondet eb = 0.to(255).oneOf()
    nondet j = 0.to(7).oneOf()
    nondet i = 0.to(7).oneOf()
    nondet dd = (-2).to(2).oneOf()
    nondet de = (-2).to(2).oneOf()
    nondet wa = 0.to(2^256 - 1).oneOf()
    nondet wb = 0.to(2^256 - 1).oneOf()
    nondet wc = 0.to(2^256 - 1).oneOf()
    nondet ws = 0.to(2^256 - 1).oneOf()
    val sa = scalar(ka, ea, dd, wa)
    val sb = scalar(kb, eb, de, wb)
    val k: Q =
      if (op == "dec") { op: op, a: encoding(ka, j, dd, wa, wb % L), b: 0, c: 0, s: 0, t: 0 }
      else if (pointOps.contains(op)) { op: op, a: point(kc % 3, j, wc % L), b: if (kc < 3 and i % 4 == 0) point(kc % 3, j, wc % L) else point(i % 3, i, ws % L), c: 0, s: sa, t: sb }
      else if (op == "base") { op: op, a: 0, b: 0, c: 0, s: sa, t: 0 }
      else if (op == "scadd" or op == "scsub") { op: op, a: sa, b: sb, c: 0, s: 0, t: 0 }
      else { op: op, a: number(ka, ea, dd, wa), b: number(kb, eb, de, wb), c: number(kc, eb, dd, wc), s: 0, t: 0 }
    val x = answer(k)
    all { q' = k, ok' = x.ok, r' = x.r }
  }
  action init = any_
  action step = any_

  val sane = and {
    0 <= r and r < 2^256,
    pointOps.contains(q.op) and q.op != "sub8" implies onCurve(dec(r).pt) and dec(r).ok,
    Set("hash", "hash8").contains(q.op) implies onCurve(dec(r).pt) and dec(r).ok,
    q.op == "hash8" implies enc(mul(L, dec(r).pt)) == 1,
    Set("reduce", "reduce32", "scadd", "scsub", "muladd", "mulsub").contains(q.op) implies r < L,
  }
}

// Keys of a wallet: a secret key is a scalar below the order, its public key
// that multiple of the base point, and the secret view key the hash of the
// secret spend key as a scalar.  The hash is any number to the specification.
module KeyCases {
  import Curve.*

  type Q = { op: str, a: int }
  var q: Q
  var ok: bool
  var r: int
  var address: bool       // what is asked can be half of an address somebody can spend from

  action any_: bool = {
    nondet op = Set("public", "public", "check", "view", "new").oneOf()
    nondet k = 0.to(8).oneOf()
    nondet e = 0.to(255).oneOf()
    nondet dd = (-3).to(3).oneOf()
    nondet w = 0.to(2^256 - 1).oneOf()
    nondet j = 0.to(7).oneOf()
    val n = fmod(if (k == 0) L + dd
      else if (k == 1) 2^e + dd
      else if (k == 2) 2^252 + w % 2^e
      else if (k == 3) L * (e % 16) + dd
      else if (k == 4) 2^256 - 1 - e
      else if (k == 5) dd
      else if (k == 6) w
      else w % L, 2^256)
    val pt = enc(add(mul(n % L, G), low(j)))
    val c = if (k <= 2) pt else if (k == 3) fmod(pt + dd, 2^256) else if (k == 4) p + w % 19 + (w / 2^255) * 2^255
            else if (k == 5) fmod([0, 1, p, p - 1, 2^255, 2^255 + 1, 2^255 + p, 2^255 + p - 1][j] + dd, 2^256) else if (k == 6) w else (pt + 2^255) % 2^256
    val a = if (op == "check") c else n
    all {
      q' = { op: op, a: a },
      ok' = if (op == "check") dec(a).ok else if (op == "public") a < L else true,
      r' = if (op == "public" and a < L) enc(mul(a, G)) else if (op == "view") a % L else 0,
      address' = if (op == "check") dec(a).ok and enc(mul(L, dec(a).pt)) == 1 else false,
    }
  }
  action init = any_
  action step = any_
  val sane = and {
    q.op == "public" and ok implies dec(r).ok and enc(mul(L, dec(r).pt)) == 1,
    q.op == "view" implies r < L,
    address implies ok,
  }
}
