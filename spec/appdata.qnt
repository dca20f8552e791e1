// Generated from the data files and the start page of the app.
module appdata {
  pure val DBENCHMARK: str -> int = Map("IBxx" -> 92000000000000000000000000000000000000000, "IBxz" -> 24000000000000000000000000000000000000000, "IByy" -> 110000000000000000000000000000000000000000, "IBzz" -> 28000000000000000000000000000000000000000, "IFxx" -> 1405000000000000000000000000000000000000, "IFyy" -> 2800000000000000000000000000000000000000, "IHxx" -> 589000000000000000000000000000000000000, "IHxz" -> -76000000000000000000000000000000000000, "IHyy" -> 600000000000000000000000000000000000000, "IHzz" -> 71000000000000000000000000000000000000, "IRxx" -> 603000000000000000000000000000000000000, "IRyy" -> 1200000000000000000000000000000000000000, "c" -> 800000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3141592653589793238460000000000000000000, "mB" -> 850000000000000000000000000000000000000000, "mF" -> 30000000000000000000000000000000000000000, "mH" -> 40000000000000000000000000000000000000000, "mR" -> 20000000000000000000000000000000000000000, "rF" -> 3500000000000000000000000000000000000000, "rR" -> 3000000000000000000000000000000000000000, "w" -> 10200000000000000000000000000000000000000, "xB" -> 3000000000000000000000000000000000000000, "xH" -> 9000000000000000000000000000000000000000, "zB" -> -9000000000000000000000000000000000000000, "zH" -> -7000000000000000000000000000000000000000)
  pure val DBROWSER: str -> int = Map("IBxx" -> 5296000000000000000000000000000000000000, "IBxz" -> -1163000000000000000000000000000000000000, "IByy" -> 13164000000000000000000000000000000000000, "IBzz" -> 7568000000000000000000000000000000000000, "IFxx" -> 884000000000000000000000000000000000000, "IFyy" -> 1492000000000000000000000000000000000000, "IHxx" -> 2534000000000000000000000000000000000000, "IHxz" -> -720000000000000000000000000000000000000, "IHyy" -> 2458000000000000000000000000000000000000, "IHzz" -> 956000000000000000000000000000000000000, "IRxx" -> 904000000000000000000000000000000000000, "IRyy" -> 1524000000000000000000000000000000000000, "c" -> 686000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3996803987070000000000000000000000000000, "mB" -> 99000000000000000000000000000000000000000, "mF" -> 20000000000000000000000000000000000000000, "mH" -> 32000000000000000000000000000000000000000, "mR" -> 31000000000000000000000000000000000000000, "rF" -> 3440000000000000000000000000000000000000, "rR" -> 3410000000000000000000000000000000000000, "w" -> 11210000000000000000000000000000000000000, "xB" -> 2740000000000000000000000000000000000000, "xH" -> 8670000000000000000000000000000000000000, "zB" -> -5380000000000000000000000000000000000000, "zH" -> -7480000000000000000000000000000000000000)
  pure val DBROWSERINS: str -> int = Map("IBxx" -> 10451000000000000000000000000000000000000, "IBxz" -> -1123000000000000000000000000000000000000, "IByy" -> 24030000000000000000000000000000000000000, "IBzz" -> 18501000000000000000000000000000000000000, "IFxx" -> 884000000000000000000000000000000000000, "IFyy" -> 1492000000000000000000000000000000000000, "IHxx" -> 2534000000000000000000000000000000000000, "IHxz" -> -720000000000000000000000000000000000000, "IHyy" -> 2458000000000000000000000000000000000000, "IHzz" -> 956000000000000000000000000000000000000, "IRxx" -> 904000000000000000000000000000000000000, "IRyy" -> 1524000000000000000000000000000000000000, "c" -> 680000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3996803987070000000000000000000000000000, "mB" -> 147000000000000000000000000000000000000000, "mF" -> 20000000000000000000000000000000000000000, "mH" -> 32000000000000000000000000000000000000000, "mR" -> 31000000000000000000000000000000000000000, "rF" -> 3430000000000000000000000000000000000000, "rR" -> 3410000000000000000000000000000000000000, "w" -> 11210000000000000000000000000000000000000, "xB" -> 2170000000000000000000000000000000000000, "xH" -> 8670000000000000000000000000000000000000, "zB" -> -6220000000000000000000000000000000000000, "zH" -> -7470000000000000000000000000000000000000)
  pure val DCRESCENDO: str -> int = Map("IBxx" -> 4997000000000000000000000000000000000000, "IBxz" -> -148000000000000000000000000000000000000, "IByy" -> 11174000000000000000000000000000000000000, "IBzz" -> 7393000000000000000000000000000000000000, "IFxx" -> 954000000000000000000000000000000000000, "IFyy" -> 1656000000000000000000000000000000000000, "IHxx" -> 3840000000000000000000000000000000000000, "IHxz" -> -778000000000000000000000000000000000000, "IHyy" -> 3631000000000000000000000000000000000000, "IHzz" -> 1664000000000000000000000000000000000000, "IRxx" -> 966000000000000000000000000000000000000, "IRyy" -> 1438000000000000000000000000000000000000, "c" -> 830000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3665191429190000000000000000000000000000, "mB" -> 91000000000000000000000000000000000000000, "mF" -> 35000000000000000000000000000000000000000, "mH" -> 46000000000000000000000000000000000000000, "mR" -> 40000000000000000000000000000000000000000, "rF" -> 3430000000000000000000000000000000000000, "rR" -> 3400000000000000000000000000000000000000, "w" -> 11010000000000000000000000000000000000000, "xB" -> 3120000000000000000000000000000000000000, "xH" -> 9070000000000000000000000000000000000000, "zB" -> -5260000000000000000000000000000000000000, "zH" -> -8030000000000000000000000000000000000000)
  pure val DFISHER: str -> int = Map("IBxx" -> 2825000000000000000000000000000000000000, "IBxz" -> 559000000000000000000000000000000000000, "IByy" -> 4697000000000000000000000000000000000000, "IBzz" -> 2677000000000000000000000000000000000000, "IFxx" -> 631000000000000000000000000000000000000, "IFyy" -> 1062000000000000000000000000000000000000, "IHxx" -> 1147000000000000000000000000000000000000, "IHxz" -> -182000000000000000000000000000000000000, "IHyy" -> 1000000000000000000000000000000000000000, "IHzz" -> 226000000000000000000000000000000000000, "IRxx" -> 630000000000000000000000000000000000000, "IRyy" -> 1008000000000000000000000000000000000000, "c" -> 720000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3298672286270000000000000000000000000000, "mB" -> 45000000000000000000000000000000000000000, "mF" -> 15000000000000000000000000000000000000000, "mH" -> 25000000000000000000000000000000000000000, "mR" -> 19000000000000000000000000000000000000000, "rF" -> 3300000000000000000000000000000000000000, "rR" -> 3390000000000000000000000000000000000000, "w" -> 10700000000000000000000000000000000000000, "xB" -> 3670000000000000000000000000000000000000, "xH" -> 9600000000000000000000000000000000000000, "zB" -> -4990000000000000000000000000000000000000, "zH" -> -7190000000000000000000000000000000000000)
  pure val DPISTA: str -> int = Map("IBxx" -> 2900000000000000000000000000000000000000, "IBxz" -> 502000000000000000000000000000000000000, "IByy" -> 4758000000000000000000000000000000000000, "IBzz" -> 2494000000000000000000000000000000000000, "IFxx" -> 553000000000000000000000000000000000000, "IFyy" -> 1062000000000000000000000000000000000000, "IHxx" -> 980000000000000000000000000000000000000, "IHxz" -> -44000000000000000000000000000000000000, "IHyy" -> 692000000000000000000000000000000000000, "IHzz" -> 396000000000000000000000000000000000000, "IRxx" -> 552000000000000000000000000000000000000, "IRyy" -> 764000000000000000000000000000000000000, "c" -> 620000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 2757620218150000000000000000000000000000, "mB" -> 45000000000000000000000000000000000000000, "mF" -> 16000000000000000000000000000000000000000, "mH" -> 23000000000000000000000000000000000000000, "mR" -> 14000000000000000000000000000000000000000, "rF" -> 3340000000000000000000000000000000000000, "rR" -> 3320000000000000000000000000000000000000, "w" -> 9890000000000000000000000000000000000000, "xB" -> 3830000000000000000000000000000000000000, "xH" -> 9060000000000000000000000000000000000000, "zB" -> -4770000000000000000000000000000000000000, "zH" -> -7330000000000000000000000000000000000000)
  pure val DRIGID: str -> int = Map("IBxx" -> 26375000000000000000000000000000000000000, "IBxz" -> 6536000000000000000000000000000000000000, "IByy" -> 42768000000000000000000000000000000000000, "IBzz" -> 19428000000000000000000000000000000000000, "IFxx" -> 524000000000000000000000000000000000000, "IFyy" -> 984000000000000000000000000000000000000, "IGxx" -> 497000000000000000000000000000000000000, "IGxz" -> 49000000000000000000000000000000000000, "IGyy" -> 174000000000000000000000000000000000000, "IGzz" -> 622000000000000000000000000000000000000, "IHxx" -> 3439000000000000000000000000000000000000, "IHxz" -> -919000000000000000000000000000000000000, "IHyy" -> 3399000000000000000000000000000000000000, "IHzz" -> 1031000000000000000000000000000000000000, "IRxx" -> 701000000000000000000000000000000000000, "IRyy" -> 1293000000000000000000000000000000000000, "ISxx" -> 827000000000000000000000000000000000000, "ISxz" -> -351000000000000000000000000000000000000, "ISyy" -> 930000000000000000000000000000000000000, "ISzz" -> 229000000000000000000000000000000000000, "c" -> 600000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3174890784990000000000000000000000000000, "mB" -> 229000000000000000000000000000000000000000, "mF" -> 16000000000000000000000000000000000000000, "mG" -> 36000000000000000000000000000000000000000, "mH" -> 54000000000000000000000000000000000000000, "mR" -> 49000000000000000000000000000000000000000, "mS" -> 21000000000000000000000000000000000000000, "rF" -> 3360000000000000000000000000000000000000, "rR" -> 3330000000000000000000000000000000000000, "w" -> 10640000000000000000000000000000000000000, "xB" -> 3350000000000000000000000000000000000000, "xG" -> 7730000000000000000000000000000000000000, "xH" -> 8180000000000000000000000000000000000000, "xS" -> 8920000000000000000000000000000000000000, "zB" -> -7360000000000000000000000000000000000000, "zG" -> -11410000000000000000000000000000000000000, "zH" -> -9860000000000000000000000000000000000000, "zS" -> -7330000000000000000000000000000000000000)
  pure val DSILVER: str -> int = Map("IBxx" -> 8155000000000000000000000000000000000000, "IBxz" -> 327000000000000000000000000000000000000, "IByy" -> 12000000000000000000000000000000000000000, "IBzz" -> 10825000000000000000000000000000000000000, "IFxx" -> 810000000000000000000000000000000000000, "IFyy" -> 1620000000000000000000000000000000000000, "IFzz" -> 810000000000000000000000000000000000000, "IHxx" -> 860000000000000000000000000000000000000, "IHxz" -> -311000000000000000000000000000000000000, "IHyy" -> 1000000000000000000000000000000000000000, "IHzz" -> 169000000000000000000000000000000000000, "IRxx" -> 780000000000000000000000000000000000000, "IRyy" -> 1560000000000000000000000000000000000000, "IRzz" -> 780000000000000000000000000000000000000, "c" -> 1900000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3665191430000000000000000000000000000000, "mB" -> 121000000000000000000000000000000000000000, "mF" -> 20500000000000000000000000000000000000000, "mH" -> 25000000000000000000000000000000000000000, "mR" -> 26000000000000000000000000000000000000000, "rF" -> 3490000000000000000000000000000000000000, "rR" -> 3500000000000000000000000000000000000000, "w" -> 10100000000000000000000000000000000000000, "xB" -> 3200000000000000000000000000000000000000, "xH" -> 9070000000000000000000000000000000000000, "yB" -> 0, "yH" -> 0, "zB" -> -6270000000000000000000000000000000000000, "zH" -> -8000000000000000000000000000000000000000)
  pure val DYELLOW: str -> int = Map("IBxx" -> 2240000000000000000000000000000000000000, "IBxz" -> 182000000000000000000000000000000000000, "IByy" -> 3879000000000000000000000000000000000000, "IBzz" -> 2160000000000000000000000000000000000000, "IFxx" -> 852000000000000000000000000000000000000, "IFyy" -> 1466000000000000000000000000000000000000, "IHxx" -> 1452000000000000000000000000000000000000, "IHxz" -> -194000000000000000000000000000000000000, "IHyy" -> 1200000000000000000000000000000000000000, "IHzz" -> 292000000000000000000000000000000000000, "IRxx" -> 877000000000000000000000000000000000000, "IRyy" -> 1487000000000000000000000000000000000000, "c" -> 473000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3019419605950000000000000000000000000000, "mB" -> 33000000000000000000000000000000000000000, "mF" -> 19000000000000000000000000000000000000000, "mH" -> 25000000000000000000000000000000000000000, "mR" -> 26000000000000000000000000000000000000000, "rF" -> 3420000000000000000000000000000000000000, "rR" -> 3410000000000000000000000000000000000000, "w" -> 10890000000000000000000000000000000000000, "xB" -> 4220000000000000000000000000000000000000, "xH" -> 9480000000000000000000000000000000000000, "zB" -> -6030000000000000000000000000000000000000, "zH" -> -7880000000000000000000000000000000000000)
  pure val DYELLOWREV: str -> int = Map("IBxx" -> 2254000000000000000000000000000000000000, "IBxz" -> 179000000000000000000000000000000000000, "IByy" -> 3879000000000000000000000000000000000000, "IBzz" -> 2147000000000000000000000000000000000000, "IFxx" -> 852000000000000000000000000000000000000, "IFyy" -> 1466000000000000000000000000000000000000, "IHxx" -> 1475000000000000000000000000000000000000, "IHxz" -> -172000000000000000000000000000000000000, "IHyy" -> 1195000000000000000000000000000000000000, "IHzz" -> 294000000000000000000000000000000000000, "IRxx" -> 877000000000000000000000000000000000000, "IRyy" -> 1487000000000000000000000000000000000000, "c" -> 1800000000000000000000000000000000000000, "g" -> 98100000000000000000000000000000000000000, "lam" -> 3385938748870000000000000000000000000000, "mB" -> 33000000000000000000000000000000000000000, "mF" -> 19000000000000000000000000000000000000000, "mH" -> 25000000000000000000000000000000000000000, "mR" -> 26000000000000000000000000000000000000000, "rF" -> 3420000000000000000000000000000000000000, "rR" -> 3410000000000000000000000000000000000000, "w" -> 9850000000000000000000000000000000000000, "xB" -> 4120000000000000000000000000000000000000, "xH" -> 9190000000000000000000000000000000000000, "zB" -> -6180000000000000000000000000000000000000, "zH" -> -8160000000000000000000000000000000000000)
  pure val STORED: str -> (str -> int) = Map("Benchmark" -> DBENCHMARK, "Browser" -> DBROWSER, "Browserins" -> DBROWSERINS, "Crescendo" -> DCRESCENDO, "Fisher" -> DFISHER, "Pista" -> DPISTA, "Rigid" -> DRIGID, "Silver" -> DSILVER, "Yellow" -> DYELLOW, "Yellowrev" -> DYELLOWREV)
  pure val BIKES: List[str] = ["Benchmark", "Browser", "Browserins", "Crescendo", "Fisher", "Pista", "Rigid", "Silver", "Yellow", "Yellowrev"]
  pure val BIKE0: str = "Benchmark"
  pure val SHOWN0: List[str] = ["centers"]
  pure val LO0: int = 0
  pure val HI0: int = 10
}
