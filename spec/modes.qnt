// Tracking m modes through a sequence of sets of eigenvalues.
//
// Every step presents the next set (in arbitrary order); the modes claim one
// after the other an eigenvalue nearest to their current one among those not
// yet claimed.  Coordinates are integers (multiples of 10^-3), distances are
// exact.  allowed is the set of all assignments the rule permits (more than
// one when eigenvalues are equidistant); the behaviour continues with one.
module modes {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Pt = { re: int, im: int }

  var m: int
  var cur: List[Pt]              // mode order
  var inp: List[Pt]              // the set just presented, input order
  var claim: List[int]           // mode -> index in inp
  var allowed: Set[List[int]]

  pure def d2(a: Pt, b: Pt): int = (a.re - b.re)^2 + (a.im - b.im)^2
  pure def member(l: List[int], k: int): bool = l.indices().exists(j => l[j] == k)
  pure def nearest(p: Pt, row: List[Pt], used: List[int]): Set[int] = {
    pure val free = row.indices().filter(k => not(member(used, k)))
    free.filter(k => free.forall(l => d2(p, row[k]) <= d2(p, row[l])))
  }
  pure def assignments(c: List[Pt], row: List[Pt]): Set[List[int]] =
    range(0, c.length()).foldl(Set([]), (acc, j) =>
      acc.map(u => nearest(c[j], row, u).map(k => u.append(k))).flatten())

  pure def num(r: int, k: int, h: int): int = dig(r, k) * 2 * h / 999 - h
  pure def fresh(r: int, k: int): Pt = { re: 10 * num(r, k, 1000), im: if (pick(r, k + 1, 2) == 0) 0 else 10 * num(r, k + 2, 1000) }
  // j-th new eigenvalue for mode j
  pure def succ(p: Pt, r: int, k: int, shape: int): Pt =
    if (shape == 0) { re: p.re + num(r, k, 300), im: if (p.im == 0) 0 else p.im + num(r, k + 1, 300) }
    else if (shape == 1) { re: p.re + num(r, k, 4000), im: p.im + num(r, k + 1, 4000) }
    else if (shape == 2) { re: num(r, k, 50), im: num(r, k + 1, 50) }
    else fresh(r, k)
  // neighbours coalesce to a complex pair
  pure def pairs(l: List[Pt]): List[Pt] =
    range(0, l.length()).foldl(List(), (acc, j) =>
      if (j % 2 == 1) acc.append({ re: acc[j - 1].re, im: -acc[j - 1].im })
      else acc.append(if (j + 1 < l.length()) { re: l[j].re, im: 200 + ab(l[j].im) } else l[j]))
  pure def permute(l: List[Pt], r: int, k: int): List[Pt] =
    range(0, l.length()).foldl({ src: l, dst: List() }, (acc, j) => {
      pure val n = acc.src.length()
      pure val x = pick(r, k + j, n)
      { src: range(0, n).foldl(List(), (a, y) => if (y == x) a else a.append(acc.src[y])),
        dst: acc.dst.append(acc.src[x]) }
    }).dst

  action init = {
    nondet r = oneOf(0.to(RMAX))
    nondet mm = Set(2, 3, 4, 4, 4, 6, 12).oneOf()
    val row = range(0, mm).foldl(List(), (l, j) => l.append(fresh(r, 3 * j)))
    all {
      m' = mm, cur' = row, inp' = row,
      claim' = range(0, mm).foldl(List(), (l, j) => l.append(j)),
      allowed' = Set()
    }
  }
  action init4 = {
    nondet r = oneOf(0.to(RMAX))
    val row = range(0, 4).foldl(List(), (l, j) => l.append(fresh(r, 3 * j)))
    all { m' = 4, cur' = row, inp' = row, claim' = [0, 1, 2, 3], allowed' = Set() }
  }
  action step = {
    nondet r = oneOf(0.to(RMAX))
    nondet shape = Set(0, 1, 2, 3).oneOf()
    nondet pr = Set(0, 1, 2).oneOf()
    val raw = range(0, m).foldl(List(), (l, j) => l.append(succ(cur[j], r, 3 * j, shape)))
    // the set of the previous step again, in its order or another one, as it
    // is, with one eigenvalue moved a bit or two of them coinciding
    nondet still = oneOf(0.to(7))
    val moved = range(0, m).foldl(List(), (l, j) => l.append(
      if (still == 1 and j == pick(r, 80, m)) { ...inp[j], re: inp[j].re + 1 + pick(r, 81, 40) }
      else if (still == 2 and j == pick(r, 80, m)) inp[pick(r, 82, m)]
      else inp[j]))
    val row = if (still < 3) (if (pick(r, 83, 3) == 0) permute(moved, r, 60) else moved)
              else permute(if (pr == 0) pairs(raw) else raw, r, 60)
    val as = assignments(cur, row)
    nondet c = as.oneOf()
    all {
      m' = m, inp' = row, allowed' = as, claim' = c,
      cur' = range(0, m).foldl(List(), (l, j) => l.append(row[c[j]]))
    }
  }
  // every eigenvalue is claimed exactly once
  val permutation = range(0, m).foldl(true, (ok, k) => ok and member(claim, k)) and claim.length() == m
  // the first claimer gets a nearest eigenvalue
  val greedy = allowed == Set() or allowed.contains(claim)
}
