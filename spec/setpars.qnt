// Parameterizations of bicycles: their entries, what their bodies are, and
// how one follows from another.
module setpars {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import leanpar.* from "./leanpar"

  pure val M07: str = "Meijaard2007"
  pure val MFB: str = "Meijaard2007WithFeedback"
  pure val M12: str = "Moore2012"
  pure val M19: str = "Moore2019"
  pure val MRL: str = "MooreRiderLean2012"
  pure val NAMES: List[str] = [M07, MFB, M12, M19, MRL]
  pure val GAINS: List[str] = ["kTphi_phi", "kTphi_del", "kTphi_phid", "kTphi_deld",
    "kTdel_phi", "kTdel_del", "kTdel_phid", "kTdel_deld"]
  pure val K19: List[str] = ["alphaD", "alphaH", "alphaP", "c", "g", "kDaa", "kDbb", "kDyy",
    "kFaa", "kFyy", "kHaa", "kHbb", "kHyy", "kPaa", "kPbb", "kPyy", "kRaa", "kRyy", "lP", "lam",
    "mD", "mF", "mH", "mP", "mR", "rF", "rR", "v", "w", "wP", "xD", "xH", "xP", "zD", "zH", "zP"]
  pure val K07: List[str] = BENCH_KEYS
  pure val K12: List[str] = ["d1", "d2", "d3", "g", "ic11", "ic22", "ic31", "ic33", "id11", "id22",
    "ie11", "ie22", "ie31", "ie33", "if11", "if22", "l1", "l2", "l3", "l4", "mc", "md", "me", "mf",
    "rf", "rr", "v"]
  pure def required(kind: str): List[str] =
    if (kind == M07) K07 else if (kind == MFB) K07.concat(GAINS)
    else if (kind == M12) K12 else if (kind == M19) K19 else LEAN_KEYS

  // --- what the bodies are ---------------------------------------------------
  // planar body from principal radii of gyration; aa is the axis at angle al
  // from x about y
  pure def principal(m: Fx, x: Fx, z: Fx, kaa: Fx, kbb: Fx, kyy: Fx, al: Fx): Body = {
    pure val ca = cos(al)
    pure val sa = sin(al)
    pure val A = mul(m, sq(kaa))
    pure val B = mul(m, sq(kbb))
    // A u u^T + B n n^T with u = (ca, -sa), n = (sa, ca)
    { m: m, x: x, y: 0, z: z, xx: mul(A, sq(ca)) + mul(B, sq(sa)),
      zz: mul(A, sq(sa)) + mul(B, sq(ca)), xz: mul3(B - A, sa, ca), yy: mul(m, sq(kyy)) }
  }
  // names of the entries that describe a body
  pure val FRAMES: str -> List[str] = Map(
    "B" -> ["mB", "xB", "zB", "IBxx", "IByy", "IBzz", "IBxz"],
    "H" -> ["mH", "xH", "zH", "IHxx", "IHyy", "IHzz", "IHxz"],
    "G" -> ["mG", "xG", "zG", "IGxx", "IGyy", "IGzz", "IGxz"],
    "S" -> ["mS", "xS", "zS", "ISxx", "ISyy", "ISzz", "ISxz"])
  pure val WHEELS: str -> List[str] = Map(
    "R" -> ["mR", "rR", "IRxx", "IRyy"], "F" -> ["mF", "rF", "IFxx", "IFyy"],
    // a flywheel inside the front wheel
    "D" -> ["mD", "rF", "IDxx", "IDyy"])
  pure val FRAMES19: str -> List[str] = Map(
    "D" -> ["mD", "xD", "zD", "kDaa", "kDbb", "kDyy", "alphaD"],
    "P" -> ["mP", "xP", "zP", "kPaa", "kPbb", "kPyy", "alphaP"],
    "H" -> ["mH", "xH", "zH", "kHaa", "kHbb", "kHyy", "alphaH"])
  pure val WHEELS19: str -> List[str] = Map(
    "R" -> ["mR", "rR", "kRaa", "kRyy"], "F" -> ["mF", "rF", "kFaa", "kFyy"])
  pure def bodyOf(kind: str, p: Par, b: str): Body = {
    pure val wheel = b == "R" or b == "F" or (b == "D" and kind != M19)
    pure val n = if (kind == M19) (if (wheel) WHEELS19.get(b) else FRAMES19.get(b))
                 else (if (wheel) WHEELS.get(b) else FRAMES.get(b))
    pure def f(j: int): Fx = p.get(n[j])
    pure val hub = if (b == "R") 0 else p.get("w")
    if (kind == M19) {
      if (wheel) principal(f(0), hub, -f(1), f(2), f(2), f(3), 0)
      else principal(f(0), f(1), f(2), f(3), f(4), f(5), f(6))
    }
    else if (wheel) { m: f(0), x: hub, y: 0, z: -f(1), xx: f(2), yy: f(3), zz: f(2), xz: 0 }
    else { m: f(0), x: f(1), y: 0, z: f(2), xx: f(3), yy: f(4), zz: f(5), xz: f(6) }
  }
  pure def labels(kind: str): List[str] =
    if (kind == M19) ["D", "F", "H", "P", "R"]
    else if (kind == M07 or kind == MFB) ["B", "F", "H", "R"] else []

  // --- conversions -------------------------------------------------------------
  pure def allowed(a: str, b: str): bool =
    a == b or (a == M07 and (b == M12 or b == MFB)) or (a == MFB and b == M12)
      or (a == M19 and (b == M07 or b == MFB))
  pure def withGains(p: Par): Par = GAINS.foldl(p, (o, k) => o.put(k, 0))
  pure def toBenchmark(p: Par): Par = {
    pure val B = combine(bodyOf(M19, p, "D"), bodyOf(M19, p, "P"))
    pure val H = bodyOf(M19, p, "H")
    pure val R = bodyOf(M19, p, "R")
    pure val F = bodyOf(M19, p, "F")
    Map("w" -> p.get("w"), "c" -> p.get("c"), "lam" -> p.get("lam"), "g" -> p.get("g"),
      "v" -> p.get("v"), "rR" -> p.get("rR"), "rF" -> p.get("rF"),
      "mB" -> B.m, "xB" -> B.x, "zB" -> B.z, "IBxx" -> B.xx, "IByy" -> B.yy, "IBzz" -> B.zz,
      "IBxz" -> B.xz, "mH" -> H.m, "xH" -> H.x, "zH" -> H.z, "IHxx" -> H.xx, "IHyy" -> H.yy,
      "IHzz" -> H.zz, "IHxz" -> H.xz, "mR" -> R.m, "IRxx" -> R.xx, "IRyy" -> R.yy,
      "mF" -> F.m, "IFxx" -> F.xx, "IFyy" -> F.yy)
  }
  // components along the perpendicular to (1) and along (3) the steer axis
  pure def toMoore(p: Par): Par = {
    pure val lam = p.get("lam")
    pure val e1 = (cos(lam), -sin(lam))
    pure val e3 = (sin(lam), cos(lam))
    pure def dot(a: (Fx, Fx), e: (Fx, Fx)): Fx = mul(a._1, e._1) + mul(a._2, e._2)
    pure val R = (0, -p.get("rR"))
    pure val F = (p.get("w"), -p.get("rF"))
    pure val G = (p.get("w") + p.get("c"), 0)
    pure val B = bodyOf(M07, p, "B")
    pure val H = bodyOf(M07, p, "H")
    Map("d1" -> dot((G._1 - R._1, G._2 - R._2), e1), "d2" -> dot((F._1 - R._1, F._2 - R._2), e3),
      "d3" -> dot((F._1 - G._1, F._2 - G._2), e1),
      "l1" -> dot((B.x - R._1, B.z - R._2), e1), "l2" -> dot((B.x - R._1, B.z - R._2), e3),
      "l3" -> dot((H.x - F._1, H.z - F._2), e1), "l4" -> dot((H.x - F._1, H.z - F._2), e3),
      "mc" -> B.m, "md" -> p.get("mR"), "me" -> H.m, "mf" -> p.get("mF"),
      "ic11" -> along(B, e1, e1), "ic31" -> along(B, e1, e3), "ic33" -> along(B, e3, e3),
      "ic22" -> B.yy, "ie11" -> along(H, e1, e1), "ie31" -> along(H, e1, e3),
      "ie33" -> along(H, e3, e3), "ie22" -> H.yy,
      "id11" -> p.get("IRxx"), "id22" -> p.get("IRyy"), "if11" -> p.get("IFxx"),
      "if22" -> p.get("IFyy"), "rf" -> p.get("rF"), "rr" -> p.get("rR"), "g" -> p.get("g"),
      "v" -> p.get("v"))
  }
  // --- generation ---------------------------------------------------------------
  pure def gen19(r: int, k: int): Par = {
    pure def u(j, lo, hi) = rng(r, k + j, lo, hi)
    pure def z(j, lo, hi) = rngz(r, k + j, lo, hi, 0, 100)
    // equal radii now and then
    pure val kDaa = u(3, q(1, 10), q(1, 1))
    pure val kHaa = u(4, q(1, 20), q(1, 2))
    Map("alphaD" -> z(0, -PI, PI), "alphaH" -> z(1, -PI, PI), "alphaP" -> z(2, -PI, PI),
      "kDaa" -> kDaa, "kDbb" -> rngz(r, k + 5, q(1, 10), q(1, 1), kDaa, 100), "kDyy" -> u(6, q(1, 10), q(1, 1)),
      "kHaa" -> kHaa, "kHbb" -> rngz(r, k + 7, q(1, 20), q(1, 2), kHaa, 100), "kHyy" -> u(8, q(1, 20), q(1, 2)),
      "kPaa" -> u(9, q(1, 10), q(1, 1)), "kPbb" -> u(10, q(1, 10), q(1, 1)), "kPyy" -> u(11, q(1, 10), q(1, 1)),
      "kFaa" -> u(12, q(1, 20), q(3, 10)), "kFyy" -> u(13, q(1, 20), q(3, 10)),
      "kRaa" -> u(14, q(1, 20), q(3, 10)), "kRyy" -> u(15, q(1, 20), q(3, 10)),
      "c" -> z(16, q(-1, 10), q(1, 5)), "g" -> u(17, q(1, 1), q(20, 1)), "lP" -> u(18, q(1, 1), q(2, 1)),
      "wP" -> u(19, q(1, 5), q(6, 10)), "lam" -> z(20, q(-1, 5), q(3, 4)), "v" -> z(21, q(-3, 1), q(12, 1)),
      "w" -> u(22, q(7, 10), q(18, 10)), "rF" -> u(23, q(1, 10), q(9, 20)), "rR" -> u(24, q(1, 10), q(9, 20)),
      "mD" -> u(25, q(3, 1), q(40, 1)), "mP" -> u(26, q(10, 1), q(120, 1)), "mH" -> u(27, q(1, 2), q(12, 1)),
      "mF" -> u(28, q(1, 2), q(8, 1)), "mR" -> u(29, q(1, 2), q(8, 1)),
      "xD" -> z(30, q(-1, 5), q(8, 10)), "zD" -> u(31, q(-1, 1), q(-3, 10)),
      "xP" -> z(32, q(-1, 5), q(8, 10)), "zP" -> u(33, q(-16, 10), q(-7, 10)),
      "xH" -> z(34, q(3, 10), q(12, 10)), "zH" -> u(35, q(-11, 10), q(-2, 10)))
  }
}
