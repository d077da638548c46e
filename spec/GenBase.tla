------------------------------- MODULE GenBase -------------------------------
(* Common part of the scenario generators: configuration, deterministic      *)
(* pseudo-random choice from the seed, emission of scenarios.                *)
EXTENDS Lin, Json, IOUtils
GenCfg == JsonDeserialize(IOEnv.GENCFG)
Seed == GenCfg.seed
Thorough == GenCfg.tier = "thorough"
Pick2(a, b) == IF Thorough THEN b ELSE a
(* hash of a sequence of naturals below a prime that keeps products in 32 bits *)
HP == 32749
Mix(h, x) == ((((h * 181 + x) % HP) * 173 + 7) % HP)
Hash(s) == LET f(h, x) == Mix(h, x % HP) IN
           (FoldLeft(f, (Seed % HP) + 11, s \o <<3, 5>>) * 10007 + 4211) % HP
RndN(s, n) == ((Hash(s \o <<1>>) \div 7) + 31 * (Hash(s \o <<2>>) \div 5)) % n       \* 0..n-1
RndI(s, lo, hi) == lo + RndN(s, hi - lo + 1)
RndOf(s, seq) == seq[RndN(s, Len(seq)) + 1]
(* small Gaussian rational as <<re, im, den>> of plain integers *)
RndG(s) == <<RndI(s \o <<101>>, -12, 12), RndI(s \o <<102>>, -12, 12), 8>>
RECURSIVE NzG(_)
NzG(s) == LET g == RndG(s) IN IF g[1] = 0 /\ g[2] = 0 THEN NzG(s \o <<17>>) ELSE g
(* nonzero, sometimes not representable: the harness uses and records the     *)
(* nearest floating-point number, which then has all its digits               *)
(* and sometimes nearly real or nearly imaginary                              *)
NearReal(g) == <<(IF g[1] = 0 THEN 3 ELSE g[1]) * 32768, g[2], 262144>>
NearImag(g) == <<g[1], (IF g[2] = 0 THEN -5 ELSE g[2]) * 32768, 262144>>
OffG(s) == LET g == NzG(s) r == RndN(s \o <<104>>, 20) IN
   IF r < 4 THEN <<g[1], g[2], 7>> ELSE IF r = 4 THEN NearReal(g) ELSE IF r = 5 THEN NearImag(g) ELSE g
(* a fourth entry is a power of two: <<re, im, den, e>>                       *)
RECURSIVE TwoPow(_)
TwoPow(e) == IF e = 0 THEN C1 ELSE IF e < 0 THEN CDiv(C1, TwoPow(-e)) ELSE IF e > 20 THEN CMul(CInt(1048576), TwoPow(e - 20)) ELSE CInt(2 ^ e)
GNum(g) == IF Len(g) = 4 THEN CMul(CFrac(g[1], g[2], g[3]), TwoPow(g[4])) ELSE CFrac(g[1], g[2], g[3])
GVec(v) == [i \in 1..Len(v) |-> GNum(v[i])]
Emit(x) == PrintT("SCN " \o ToJson(x))
=============================================================================
