------------------------------- MODULE NumLaws -------------------------------
(* The evaluation of Num's scalar operators (Java, unbounded integers) is     *)
(* compared with TLC's own 32-bit integers on small numbers, with modular     *)
(* arithmetic on the limbs of large ones, and with the field axioms.          *)
EXTENDS Num, Integers, Sequences, SequencesExt, TLC
VARIABLES x, y
vars == <<x, y>>
Small == {<<a, b, d>> : a \in {-7, -2, 0, 1, 5}, b \in {-3, 0, 4}, d \in {-6, 1, 2, 9}}
N(q) == CFrac(q[1], q[2], q[3])
Init == x \in Small /\ y \in Small
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* ---- canonical form -------------------------------------------------------- *)
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN Abs(a) ELSE GcdI(b, a % Abs(b))
Canonical(z) == ND(z) > 0 /\ GcdI(GcdI(NR(z), NI(z)), ND(z)) = 1
               /\ \A k \in 1..3 : z[k] = <<0>> \/ (z[k][1] \in {-1, 1} /\ z[k][Len(z[k])] # 0)
Is(z, a, b, d) == Canonical(z) /\ NR(z) * d = a * ND(z) /\ NI(z) * d = b * ND(z)
Fractions == Is(N(x), x[1], x[2], x[3]) /\ CFrac(x[1], x[2], 0) = NaN
(* ---- operations on small numbers -------------------------------------------- *)
Operations == LET p == N(x) q == N(y) a == NR(p) b == NI(p) d == ND(p) u == NR(q) w == NI(q) e == ND(q) IN
   /\ Is(CAdd(p, q), a * e + u * d, b * e + w * d, d * e)
   /\ Is(CSub(p, q), a * e - u * d, b * e - w * d, d * e)
   /\ Is(CMul(p, q), a * u - b * w, a * w + b * u, d * e)
   /\ IF u = 0 /\ w = 0 THEN CDiv(p, q) = NaN ELSE Is(CDiv(p, q), (a * u + b * w) * e, (b * u - a * w) * e, d * (u * u + w * w))
   /\ Is(CConj(p), a, -b, d) /\ Is(CAbs2(p), a * a + b * b, 0, d * d) /\ Is(CRe(p), a, 0, d) /\ Is(CIm(p), b, 0, d)
   /\ CLeq(p, q) <=> (a * e <= u * d)
   /\ \A k \in {0, 3, 7} : Is(CRound(p, k), (a * 2^k) \div d, (b * 2^k) \div d, 2^k)
Absorbing == LET p == N(x) IN
   /\ \A op \in {CAdd(p, NaN), CSub(NaN, p), CMul(p, NaN), CDiv(NaN, p), CDiv(p, NaN), CConj(NaN), CAbs2(NaN), CRe(NaN), CIm(NaN), CRound(NaN, 3)} : op = NaN
   /\ ~CLeq(NaN, p) /\ ~CLeq(p, NaN)
(* ---- large numbers: Gaussian integers modulo primes --------------------------- *)
Primes == {32749, 32719, 31627}
Md(t, p) == ((t[1] * FoldLeft(LAMBDA h, k : (h * 32768 + t[k]) % p, 0, [i \in 1..(Len(t) - 1) |-> Len(t) + 1 - i])) + p) % p
Big(q) == CAdd(CPow(CFrac(q[1] * 1000 + 77, q[2] * 911 - 13, 1), 9), CFrac(q[3], 1, 1))
Modular == LET p == Big(x) q == Big(y) s == CAdd(p, q) m == CMul(p, q) f == CSub(p, q) IN
   /\ p[3] = <<1, 1>> /\ m[3] = <<1, 1>>
   /\ \A r \in Primes :
        /\ Md(s[1], r) = (Md(p[1], r) + Md(q[1], r)) % r /\ Md(s[2], r) = (Md(p[2], r) + Md(q[2], r)) % r
        /\ Md(f[1], r) = (Md(p[1], r) - Md(q[1], r)) % r
        /\ Md(m[1], r) = (Md(p[1], r) * Md(q[1], r) - ((Md(p[2], r) * Md(q[2], r)) % r)) % r
        /\ Md(m[2], r) = (((Md(p[1], r) * Md(q[2], r)) % r) + ((Md(p[2], r) * Md(q[1], r)) % r)) % r
   /\ \A t \in {p, q, s, m, f} : \A k \in 1..3 : \A i \in 2..Len(t[k]) : t[k][i] \in 0..32767
Field == LET p == CDiv(Big(x), CInt(10007)) q == CDiv(Big(y), Big(<<x[3], x[1], 5>>)) r == CFrac(y[1], x[2] + 1, 7) IN
   /\ CAdd(p, q) = CAdd(q, p) /\ CMul(p, q) = CMul(q, p)
   /\ CAdd(CAdd(p, q), r) = CAdd(p, CAdd(q, r)) /\ CMul(CMul(p, q), r) = CMul(p, CMul(q, r))
   /\ CMul(p, CAdd(q, r)) = CAdd(CMul(p, q), CMul(p, r))
   /\ CSub(CAdd(p, q), q) = p /\ CDiv(CMul(p, q), q) = p
   /\ CConj(CMul(p, q)) = CMul(CConj(p), CConj(q)) /\ CAbs2(p) = CMul(p, CConj(p))
   /\ CAdd(CRe(p), CMul(CIu, CIm(p))) = p
   /\ (CLeq(p, q) <=> CLeq(C0, CRe(CSub(q, p)))) /\ (CLeq(p, q) \/ CLeq(q, p))
   /\ LET t == CSub(p, CRound(p, 40)) IN CLeq(C0, t) /\ CLt(t, CFrac(1, 0, 1073741824)) /\ CLeq(C0, CIm(t))
(* ---- transcendental helpers ---------------------------------------------------- *)
Near(a, b, k) == CLeq(CAbs2(CSub(a, b)), Tenm(2 * k))
Helpers == LET p == CAdd(CAbs2(N(x)), CFrac(1, 0, 3)) q == CAdd(CAbs2(N(y)), CFrac(1, 0, 5)) s == Sqrt(p) IN
   /\ Near(Ln(CMul(p, q)), CAdd(Ln(p), Ln(q)), 18)
   /\ Near(CMul(s, s), p, 15)
   /\ Near(Ln(CInt(2)), CAdd(CFrac(693147180, 0, 1000000000), CMul(CFrac(559945309, 0, 1000000000), Tenm(9))), 17)
=============================================================================
