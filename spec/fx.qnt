// Fixed-point real arithmetic with 40 decimal digits on unbounded integers.
//
// A real number x is represented by the integer x * 10^40 (truncated).  Quint
// integers are unbounded, so every operation below is exact up to one unit in
// the 40th decimal place; the conformance harness compares the values computed
// here with IEEE doubles (16 digits).
module fx {
  type Fx = int

  pure val S: int = 10^40

  pure def i(n: int): Fx = n * S
  // n / d as a fixed-point number
  pure def q(n: int, d: int): Fx = n * S / d
  pure def mul(a: Fx, b: Fx): Fx = a * b / S
  pure def div(a: Fx, b: Fx): Fx = a * S / b
  pure def sq(a: Fx): Fx = mul(a, a)
  pure def mul3(a: Fx, b: Fx, c: Fx): Fx = mul(mul(a, b), c)
  pure def ab(a: Fx): Fx = if (a < 0) -a else a
  pure def mx(a: Fx, b: Fx): Fx = if (a < b) b else a
  pure def mn(a: Fx, b: Fx): Fx = if (a < b) a else b
  pure def sum(l: List[Fx]): Fx = l.foldl(0, (s, x) => s + x)

  pure val PI: Fx = 31415926535897932384626433832795028841971

  // Taylor series; |x| up to a few radians gives an error below 10^-38
  pure def sin(x: Fx): Fx = {
    pure val x2 = sq(x)
    range(1, 40).foldl((x, x), (acc, k) => {
      pure val t = -mul(acc._2, x2) / ((2 * k) * (2 * k + 1))
      (acc._1 + t, t)
    })._1
  }
  pure def cos(x: Fx): Fx = {
    pure val x2 = sq(x)
    range(1, 40).foldl((S, S), (acc, k) => {
      pure val t = -mul(acc._2, x2) / ((2 * k - 1) * (2 * k))
      (acc._1 + t, t)
    })._1
  }
  pure def exp(x: Fx): Fx = {
    // argument reduction by 2^8, then squaring back
    pure val y = x / 256
    pure val e = range(1, 40).foldl((S, S), (acc, k) => {
      pure val t = mul(acc._2, y) / k
      (acc._1 + t, t)
    })._1
    range(0, 8).foldl(e, (a, k) => sq(a))
  }
  // Newton iteration; a >= 0
  pure def sqrt(a: Fx): Fx =
    if (a <= 0) 0
    else range(0, 160).foldl(if (a > S) a else S,
      (x, k) => {
        pure val nx = (x + div(a, x)) / 2
        if (nx < x) nx else x
      })
  // arctan for any argument, via half-angle reductions and Taylor
  pure def atan(x: Fx): Fx = {
    pure def h(z: Fx): Fx = div(z, S + sqrt(S + sq(z)))
    pure val y = h(h(h(x)))
    pure val y2 = sq(y)
    8 * range(1, 60).foldl((y, y), (acc, k) => {
      pure val t = -mul(acc._2, y2)
      (acc._1 + t / (2 * k + 1), t)
    })._1
  }
  pure def atan2(y: Fx, x: Fx): Fx =
    if (x > 0) atan(div(y, x))
    else if (x < 0) (if (y >= 0) atan(div(y, x)) + PI else atan(div(y, x)) - PI)
    else (if (y > 0) PI / 2 else if (y < 0) -PI / 2 else 0)
  pure def asin(x: Fx): Fx = atan2(x, sqrt(mx(S - sq(x), 0)))
  pure def acos(x: Fx): Fx = atan2(sqrt(mx(S - sq(x), 0)), x)
  // |a - b| <= 10^-e
  pure def near(a: Fx, b: Fx, e: int): bool = ab(a - b) * 10^e <= S
}
