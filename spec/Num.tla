-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact complex-rational arithmetic.  TLC integers have 32 bits, so an    *)
(* integer is a limb tuple <<sign, l0, l1, ...>> in base 2^15 (zero is     *)
(* <<0>>), and a number is <<re, im, den>> = (re + i im)/den in lowest     *)
(* terms with den > 0.  <<>> stands for "not a finite number"; it absorbs  *)
(* every operation and compares FALSE.                                     *)
(*                                                                         *)
(* Meaning below is given by cross multiplication (CHOOSE of the canonical *)
(* representative); TLC evaluates the scalar operators with the BigInteger *)
(* implementation in java/verif/NumOverrides.java, and NumLaws.tla checks  *)
(* that implementation against the field axioms and against TLC integers.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

NaN == <<>>
IsNum(x) == x # NaN

(* value of a limb tuple as a mathematical integer *)
RECURSIVE LimbVal(_, _)
LimbVal(t, i) == IF i > Len(t) THEN 0 ELSE t[i] + 32768 * LimbVal(t, i + 1)
IntVal(t) == t[1] * LimbVal(t, 2)
Limbs == UNION {[1..n -> Int] : n \in 1..2}
(* canonical number with given numerators and denominator (mathematical    *)
(* integers): the unique tuple in lowest terms.                            *)
Gcd3(a, b, d) == CHOOSE g \in 1..d : /\ a % g = 0 /\ b % g = 0 /\ d % g = 0
                    /\ \A k \in (g+1)..d : ~(a % k = 0 /\ b % k = 0 /\ d % k = 0)
ToLimbs(n) == CHOOSE t \in Limbs : IntVal(t) = n
Canon(a, b, d) == IF d = 0 THEN NaN
                  ELSE LET s == IF d < 0 THEN -1 ELSE 1
                           g == Gcd3(s * a, s * b, s * d)
                       IN <<ToLimbs((s * a) \div g), ToLimbs((s * b) \div g), ToLimbs((s * d) \div g)>>
NR(x) == IntVal(x[1])
NI(x) == IntVal(x[2])
ND(x) == IntVal(x[3])

CFrac(a, b, d) == Canon(a, b, d)
CAdd(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE Canon(NR(x)*ND(y) + NR(y)*ND(x), NI(x)*ND(y) + NI(y)*ND(x), ND(x)*ND(y))
CSub(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE Canon(NR(x)*ND(y) - NR(y)*ND(x), NI(x)*ND(y) - NI(y)*ND(x), ND(x)*ND(y))
CMul(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE Canon(NR(x)*NR(y) - NI(x)*NI(y), NR(x)*NI(y) + NI(x)*NR(y), ND(x)*ND(y))
CDiv(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE Canon((NR(x)*NR(y) + NI(x)*NI(y)) * ND(y), (NI(x)*NR(y) - NR(x)*NI(y)) * ND(y),
                         ND(x) * (NR(y)*NR(y) + NI(y)*NI(y)))
CConj(x) == IF x = NaN THEN NaN ELSE Canon(NR(x), -NI(x), ND(x))
CAbs2(x) == IF x = NaN THEN NaN ELSE Canon(NR(x)*NR(x) + NI(x)*NI(x), 0, ND(x)*ND(x))
CRe(x) == IF x = NaN THEN NaN ELSE Canon(NR(x), 0, ND(x))
CIm(x) == IF x = NaN THEN NaN ELSE Canon(NI(x), 0, ND(x))
(* order of the real parts *)
CLeq(x, y) == IF x = NaN \/ y = NaN THEN FALSE ELSE NR(x)*ND(y) <= NR(y)*ND(x)
(* round both parts down to a multiple of 2^-k *)
CRound(x, k) == IF x = NaN THEN NaN
                ELSE Canon((NR(x) * 2^k) \div ND(x), (NI(x) * 2^k) \div ND(x), 2^k)

(* ---------------------------------------------------------------------- *)
(* Derived operators, written in terms of the scalar ones.                 *)
CInt(n) == CFrac(n, 0, 1)
C0 == CFrac(0, 0, 1)
C1 == CFrac(1, 0, 1)
CIu == CFrac(0, 1, 1)
CNeg(x) == CSub(C0, x)
CLt(x, y) == CLeq(x, y) /\ ~CLeq(y, x)
CMax(x, y) == IF CLeq(x, y) THEN y ELSE x
CMin(x, y) == IF CLeq(x, y) THEN x ELSE y
IsReal(x) == x # NaN /\ CIm(x) = C0

Range0(n) == [i \in 1..n |-> i]
CSum(s) == FoldLeft(CAdd, C0, s)
CProd(s) == FoldLeft(CMul, C1, s)
RECURSIVE CPow(_, _)
CPow(x, n) == IF n = 0 THEN C1
              ELSE IF n % 2 = 1 THEN CMul(x, CPow(x, n - 1))
              ELSE LET y == CPow(x, n \div 2) IN CMul(y, y)

Tenm(k) == CDiv(C1, CPow(CInt(10), k))                        \* 10^-k
PI == CAdd(CFrac(314159265, 0, 100000000),
           CAdd(CMul(CFrac(358979323, 0, 100000000), Tenm(9)),
           CAdd(CMul(CFrac(846264338, 0, 100000000), Tenm(18)),
                CMul(CFrac(327950288, 0, 100000000), Tenm(27)))))

(* Largest squared modulus in a sequence (C0 when empty). *)
MaxAbs2(s) == FoldLeft(LAMBDA m, x : CMax(m, CAbs2(x)), C0, s)

(* Natural logarithm of a positive rational to about 2^-70, by halving into *)
(* [1/2, 2] and the atanh series with rounding.                             *)
LnBits == 90
LnSeries(x) == LET y == CRound(CDiv(CSub(x, C1), CAdd(x, C1)), LnBits)
                   y2 == CRound(CMul(y, y), LnBits)
                   step(acc, k) == [s |-> CAdd(acc.s, CRound(CDiv(acc.p, CInt(2*k - 1)), LnBits)),
                                    p |-> CRound(CMul(acc.p, y2), LnBits)]
               IN CMul(CInt(2), FoldLeft(step, [s |-> C0, p |-> y], Range0(46)).s)
Ln2 == LnSeries(CInt(2))
RECURSIVE LnRed(_, _)
LnRed(x, k) == IF CLt(CInt(2), x) THEN LnRed(CDiv(x, CInt(2)), k + 1)
               ELSE IF CLt(x, CFrac(1, 0, 2)) THEN LnRed(CMul(x, CInt(2)), k - 1)
               ELSE CAdd(LnSeries(x), CMul(CInt(k), Ln2))
Ln(x) == LnRed(x, 0)
(* Square root of a nonnegative rational, to relative precision 2^-60, by   *)
(* Newton iteration from a power-of-four scaling.                           *)
RECURSIVE SqrtRed(_, _)
SqrtRed(x, k) == IF CLt(CInt(4), x) THEN SqrtRed(CDiv(x, CInt(4)), k + 1)
                 ELSE IF CLt(x, C1) THEN SqrtRed(CMul(x, CInt(4)), k - 1)
                 ELSE LET it(y, i) == CRound(CDiv(CAdd(y, CDiv(x, y)), CInt(2)), 90)
                          r == FoldLeft(it, CFrac(3, 0, 2), Range0(7))
                      IN IF k >= 0 THEN CMul(r, CPow(CInt(2), k)) ELSE CDiv(r, CPow(CInt(2), -k))
Sqrt(x) == IF x = C0 THEN C0 ELSE SqrtRed(x, 0)
=============================================================================
