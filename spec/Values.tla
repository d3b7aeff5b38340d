------------------------------- MODULE Values -------------------------------
(* Cell values of a hatchet dataframe.  Every value is a 4-tuple            *)
(*   <<kind, num, den, text>>                                               *)
(* kind 0: the rational num/den (den > 0, reduced)   1: NaN  2: inf 3: -inf *)
(* kind 4: a string, `text', with num = its rank in the scenario's sorted   *)
(*         string table (so strings can be ordered)                         *)
(* kind 5: a boolean (num 0/1)   6: None   7: opaque (equality only)        *)
(* All values have the same shape, so any two are comparable in TLC.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NaN == <<1, 0, 0, "">>
Inf == <<2, 0, 0, "">>
NegInf == <<3, 0, 0, "">>
None == <<6, 0, 0, "">>
IntV(n) == <<0, n, 1, "">>
Zero == IntV(0)
Bool(b) == <<5, IF b THEN 1 ELSE 0, 0, "">>

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Rat(n, d) == LET g == GCD(Abs(n), Abs(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN  IF n = 0 THEN Zero ELSE <<0, s * (n \div g), s * (d \div g), "">>

IsNaN(v) == v[1] = 1
IsNum(v) == v[1] = 0
IsInf(v) == v[1] \in {2, 3}
IsReal(v) == v[1] \in 0..3
IsStr(v) == v[1] = 4
IsBool(v) == v[1] = 5
Missing(v) == v[1] \in {1, 6}

\* booleans count as the integers 0 and 1, as in Python
AsNum(v) == IF IsBool(v) THEN IntV(v[2]) ELSE v

(* exact division of the products: multiply in an order that keeps numbers small *)
NAdd(a, b) == LET l == (a[3] \div GCD(a[3], b[3])) * b[3]
              IN  Rat(a[2] * (l \div a[3]) + b[2] * (l \div b[3]), l)
NNeg(a) == <<0, -a[2], a[3], "">>
NMul(a, b) == LET g1 == GCD(Abs(a[2]), b[3])
                  g2 == GCD(Abs(b[2]), a[3])
              IN IF a[2] = 0 \/ b[2] = 0 THEN Zero
                 ELSE Rat((a[2] \div g1) * (b[2] \div g2), (a[3] \div g2) * (b[3] \div g1))
NInv(a) == Rat(a[3], a[2])
NLt(a, b) == LET g == GCD(a[3], b[3])
             IN a[2] * (b[3] \div g) < b[2] * (a[3] \div g)

Sign(v) == CASE v[1] = 2 -> 1 [] v[1] = 3 -> -1
             [] OTHER -> IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0
OfSign(s) == CASE s > 0 -> Inf [] s < 0 -> NegInf [] OTHER -> NaN

(* IEEE arithmetic of pandas columns *)
Neg(v) == CASE IsNum(v) -> NNeg(v) [] v = Inf -> NegInf [] v = NegInf -> Inf [] OTHER -> v
Add(a, b) == CASE IsNaN(a) \/ IsNaN(b) -> NaN
               [] IsNum(a) /\ IsNum(b) -> NAdd(a, b)
               [] IsNum(a) -> b
               [] IsNum(b) -> a
               [] a = b -> a
               [] OTHER -> NaN
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == CASE IsNaN(a) \/ IsNaN(b) -> NaN
               [] IsNum(a) /\ IsNum(b) -> NMul(a, b)
               [] OTHER -> OfSign(Sign(a) * Sign(b))
Div(a, b) == CASE IsNaN(a) \/ IsNaN(b) -> NaN
               [] IsNum(a) /\ IsNum(b) ->
                     IF b[2] = 0 THEN OfSign(Sign(a)) ELSE NMul(a, NInv(b))
               [] IsInf(a) /\ IsInf(b) -> NaN
               [] IsNum(a) -> Zero
               [] OTHER -> OfSign(Sign(a) * (IF Sign(b) < 0 THEN -1 ELSE 1))
BinOp(op, a, b) == CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b)
                     [] op = "mul" -> Mul(a, b) [] op = "div" -> Div(a, b)

(* comparisons; NaN compares false with everything but != *)
RealLt(a, b) == CASE IsNaN(a) \/ IsNaN(b) -> FALSE
                  [] IsNum(a) /\ IsNum(b) -> NLt(a, b)
                  [] a = NegInf -> b # NegInf
                  [] b = Inf -> a # Inf
                  [] OTHER -> FALSE
RealEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a = b
RealCmp(op, a, b) ==
  CASE op = "<"  -> RealLt(a, b)
    [] op = ">"  -> RealLt(b, a)
    [] op = "<=" -> RealLt(a, b) \/ RealEq(a, b)
    [] op = ">=" -> RealLt(b, a) \/ RealEq(a, b)
    [] op = "==" -> RealEq(a, b)
    [] op = "!=" -> ~RealEq(a, b)

(* total order used for sorting index levels and frames: kind, then value *)
ValLt(a, b) == IF a[1] # b[1] THEN a[1] < b[1]
               ELSE IF IsNum(a) THEN NLt(a, b) ELSE a[2] < b[2]
ValLe(a, b) == a = b \/ ValLt(a, b)

RECURSIVE SeqLtR(_, _, _)
SeqLtR(s, t, i) == IF i > Len(s) THEN i <= Len(t)
                   ELSE IF i > Len(t) THEN FALSE
                   ELSE IF s[i] = t[i] THEN SeqLtR(s, t, i + 1)
                   ELSE ValLt(s[i], t[i])
ValSeqLt(s, t) == SeqLtR(s, t, 1)

NotNaN(v) == ~Missing(v)
AddSeq(s) == FoldLeft(Add, Zero, s)
\* Series.sum(min_count=1): skip NaN; NaN when nothing is left
SumMin1(s) == LET t == SelectSeq(s, NotNaN) IN IF t = <<>> THEN NaN ELSE AddSeq([i \in DOMAIN t |-> AsNum(t[i])])
MeanSkip(s) == LET t == SelectSeq(s, NotNaN)
               IN IF t = <<>> THEN NaN ELSE Div(AddSeq(t), IntV(Len(t)))
MaxSkip(s) == LET t == SelectSeq(s, NotNaN)
              IN IF t = <<>> THEN NaN
                 ELSE FoldLeft(LAMBDA a, b: IF RealLt(a, b) THEN b ELSE a, t[1], t)
MinSkip(s) == LET t == SelectSeq(s, NotNaN)
              IN IF t = <<>> THEN NaN
                 ELSE FoldLeft(LAMBDA a, b: IF RealLt(b, a) THEN b ELSE a, t[1], t)
\* Series.sum() with min_count=0
Sum0(s) == LET t == SelectSeq(s, NotNaN) IN AddSeq(t)
\* Series.prod(min_count=1)
ProdMin1(s) == LET t == SelectSeq(s, NotNaN) IN IF t = <<>> THEN NaN ELSE FoldLeft(Mul, IntV(1), t)
AggBy(fn, s) == CASE fn = "sum1" -> SumMin1(s) [] fn = "mean" -> MeanSkip(s)
                  [] fn = "max" -> MaxSkip(s) [] fn = "min" -> MinSkip(s)
                  [] fn = "sum" -> Sum0(s) [] fn = "prod" -> ProdMin1(s)
                  [] fn = "first" -> s[1] [] fn = "last" -> s[Len(s)]
=============================================================================
