// The ideal recording of a pendulum: a lightly (or strongly) damped oscillation
// sampled at a constant rate.  The specification gives samples and the damped period.
module recording {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  var w0: Fx           // undamped natural frequency [rad/s]
  var zeta: Fx         // damping ratio
  var amp: Fx
  var off: Fx
  var phase: Fx
  var rate: Fx         // samples per second
  var n: int           // number of samples
  var t0: Fx           // time of the first sample when times are recorded
  var period: Fx       // damped period
  var probe: List[(int, Fx)]   // some samples
  var how: int         // 0 rate, 1 times, 2 trimmed, 3 trimmed with times
  var stored: Set[str]         // fields of the stored recording besides the data
  var kept: Set[str]           // fields of the loaded recording
  var note: str                // remark stored with it
  var warp: Fx         // how unevenly the recorded times are spaced
  var kind: int        // type the rate / times are passed with

  pure def damped(w: Fx, z: Fx): Fx = mul(w, sqrt(S - sq(z)))
  // time of sample k of nn: the spacing shrinks or grows along the recording
  pure def time(rt: Fx, wp: Fx, nn: int, k: int): Fx = {
    pure val t = div(i(k), rt)
    pure val s = div(i(k), i(nn - 1))
    t + mul(wp, mul(t, S - s))
  }
  // value at a time; angles reduced by whole turns
  pure def sample(w: Fx, z: Fx, a: Fx, o: Fx, ph: Fx, t: Fx): Fx = {
    pure val x = mul(damped(w, z), t) + ph
    pure val turns = x / (2 * PI)
    pure val y = x - turns * 2 * PI
    o + mul3(a, exp(-mul3(z, w, t)), sin(y - PI)) * -1
  }

  pure val FIELDS: Set[str] = Set("time", "sampleRate", "duration", "ActualRate")
  pure def order(f: str): int = if (f == "time") 0 else if (f == "sampleRate") 1
    else if (f == "duration") 2 else 3
  // with times the sample rate may vary: only the times count
  pure def loaded(f: Set[str]): Set[str] =
    if (f.contains("time")) f.exclude(Set("sampleRate", "duration")) else f

  action choose = {
    nondet r = oneOf(0.to(RMAX))
    // the period follows from the samples per oscillation (at least fifty)
    val rt = elem(List(i(50), i(100), i(200), i(500), i(1000), q(773, 10), q(1335, 10), q(8, 10)), r, 0)
    val per0 = mx(div(i(50), rt), q(15, 100)) + mul(q(dig(r, 1) + 1, 1000), elem(List(q(3, 10), i(1), i(3)), r, 2))
    // one in four oscillations is strongly damped
    val z = if (pick(r, 32, 4) == 0) rng(r, 3, q(3, 100), q(15, 100)) else rng(r, 3, q(3, 10000), q(25, 1000))
    val w = div(2 * PI, per0)
    val cycles = rng(r, 4, q(6, 1), q(25, 1))
    val T = div(2 * PI, damped(w, z))
    // between a few volts and a few hundredths of a volt
    val a = elem(List(q(3, 100), q(1, 10), q(4, 10), i(1), q(25, 10), i(12)), r, 5)
    val o = elem(List(0, q(25, 10), i(-3), q(7, 10), i(40)), r, 6)
    val ph = rng(r, 7, 0, 2 * PI)
    val nn = (mul3(cycles, T, rt) + S - 1) / S
    val h = pick(r, 20, 4)
    val wp = if (h == 0 or h == 2) 0 else elem(List(0, 0, q(1, 100), q(-1, 100), q(3, 100), q(-3, 100)), r, 31)
    all {
      w0' = w, zeta' = z, amp' = a, off' = o, phase' = ph, rate' = rt, n' = nn,
      t0' = elem(List(0, 0, i(1), q(-5, 2), i(10), i(3600)), r, 8),
      period' = T,
      probe' = range(0, 5).foldl(List(), (l, j) => {
        val k = pick(r, 10 + j, nn)
        l.append((k, sample(w, z, a, o, ph, time(rt, wp, nn, k))))
      }),
      stored' = FIELDS.filter(f => pick(r, 22 + order(f), 2) == 0),
      kept' = loaded(FIELDS.filter(f => pick(r, 22 + order(f), 2) == 0)),
      note' = elem(["", "", "windy", " two words ", "first line|and another"], r, 30),
      how' = h, warp' = wp,
      kind' = pick(r, 21, 3)
    }
  }
  action init = choose
  action step = choose

  // the damped period is longer than the undamped one and its square obeys
  // the definition
  val longer = period > div(2 * PI, w0)
  val defn = near(mul(sq(period), mul(sq(w0), S - sq(zeta))), 4 * sq(PI), 20)
  val sampled = mul(period, rate) > i(49) and n >= 250
  val bounded = probe.indices().forall(j => ab(probe[j]._2 - off) <= amp + 10)
}
