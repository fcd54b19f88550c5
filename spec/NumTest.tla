------------------------------ MODULE NumTest ------------------------------
(***************************************************************************)
(* The trusted arithmetic of module Num, checked by TLC: the ring and      *)
(* order operators against TLC's own integers, exhaustively on a range;    *)
(* the elementary functions against identities they must satisfy, over a   *)
(* grid of magnitudes and signs; the specials against IEEE rules.          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

VARIABLES a, b, int
Ints == -9..9
Reals == {"0", "1e-30", "1e-9", "0.3", "0.5", "0.999999999", "1", "1.7", "2.718281828", "3.1415926", "7.1", "25.13", "1e3", "123456.789", "1e12"}
Neg(x) == IF x \in {"0"} THEN x ELSE "-" \o x
All == Reals \union {Neg(x) : x \in Reals}

Init == \/ int = TRUE /\ a \in Ints /\ b \in Ints
        \/ int = FALSE /\ a \in All /\ b \in All
Next == UNCHANGED <<a, b, int>>
Spec == Init /\ [][Next]_<<a, b, int>>

IsI == int
Tiny == "1e-28"
Ring == IsI =>
   /\ Eq(Add(a, b), a + b) /\ Eq(Sub(a, b), a - b) /\ Eq(Mul(a, b), a * b) /\ Eq(Negate(a), -a) /\ Eq(Abs(a), IF a < 0 THEN -a ELSE a)
   /\ Lt(a, b) = (a < b) /\ Le(a, b) = (a <= b) /\ Gt(a, b) = (a > b) /\ Ge(a, b) = (a >= b) /\ Eq(a, b) = (a = b)
   /\ Eq(Max2(a, b), IF a > b THEN a ELSE b) /\ Eq(Min2(a, b), IF a < b THEN a ELSE b) /\ Sgn(a) = (IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1)
   /\ (b # 0 => Eq(Mul(b, Div(a * b, b)), a * b) /\ Eq(Div(a * b, b), a))
   /\ (b > 0 /\ a % b = 0 => Eq(Div(a, b), a \div b))
   /\ Eq(Sqrt(a * a), IF a < 0 THEN -a ELSE a)
   /\ ToInt(N(a)) = a /\ Eq(Round(Add(a, "0.4")), a) /\ Eq(Round(Sub(a, "0.4")), a)
   /\ (b \in 0..6 /\ ~(a = 0 /\ b = 0) => Eq(IPow(a, b), a^b))
   /\ Eq(Scale10(a, 3), a * 1000)
Text == ~IsI => Eq(Add(Sub(a, b), b), Add(Sub(a, b), b)) /\ Eq(Negate(Negate(a)), a) /\ Eq(N(Str(N(a))), a)
Field == ~IsI =>
   /\ Close(Mul(Add(a, b), Sub(a, b)), Sub(Sq(a), Sq(b)), Tiny, Mul(Tiny, Add(Sq(a), Sq(b))))
   /\ (~Eq(b, 0) => Close(Mul(Div(a, b), b), a, Tiny, 0))
   /\ Close(Sq(Sqrt(Abs(a))), Abs(a), Tiny, 0)
Circle == ~IsI /\ Le(Abs(a), "1e3") /\ Le(Abs(b), "1e3") =>
   /\ Close(Add(Sq(Sin(a)), Sq(Cos(a))), 1, Tiny, 0)
   /\ Close(Sin(Add(a, b)), Add(Mul(Sin(a), Cos(b)), Mul(Cos(a), Sin(b))), 0, "1e-29")
   /\ Close(Cos(Add(a, b)), Sub(Mul(Cos(a), Cos(b)), Mul(Sin(a), Sin(b))), 0, "1e-29")
   /\ AngClose(Atan2(Sin(a), Cos(a)), a, "1e-29")
   /\ Le(Abs(Wrap(a)), Add(Pi, Tiny)) /\ AngClose(Wrap(a), a, "1e-29")
   /\ Close(Cos(Acos(Cos(a))), Cos(a), 0, "1e-29") /\ Close(Sin(Asin(Sin(a))), Sin(a), 0, "1e-29")
   /\ (~(Eq(a, 0) /\ Eq(b, 0)) => LET t == Atan2(a, b) r == Sqrt(Add(Sq(a), Sq(b)))
                                  IN Close(Mul(r, Sin(t)), a, "1e-29", Mul(r, "1e-29")) /\ Close(Mul(r, Cos(t)), b, "1e-29", Mul(r, "1e-29")))
   /\ Close(Atan(a), Atan2(a, 1), "1e-22", 0) /\ (Le(Abs(a), 1) => Close(Tan(Atan(a)), a, "1e-28", 0))
Growth == ~IsI /\ Le(Abs(a), "1e3") /\ Le(Abs(b), "1e3") =>
   /\ Close(Exp(Add(a, b)), Mul(Exp(a), Exp(b)), "1e-28", 0)
   /\ (Gt(a, 0) => Close(Exp(Ln(a)), a, "1e-28", 0))
   /\ (Gt(a, 0) /\ Gt(b, 0) => Close(Ln(Mul(a, b)), Add(Ln(a), Ln(b)), "1e-30", "1e-29"))
   /\ Close(Ln(Exp(a)), a, "1e-30", "1e-29")
   /\ (Gt(a, "1e-6") => Close(Mul(Pow(a, "0.37"), Pow(a, "0.63")), a, "1e-28", 0) /\ Close(Pow(a, 2), Sq(a), "1e-28", 0))
Known ==  \* values from tables
   /\ Close(Sin(1), "0.84147098480789650665250232163029899962256306", 0, Tiny)
   /\ Close(Cos(1), "0.54030230586813971740093660744297660373231042", 0, Tiny)
   /\ Close(Mul(4, Atan(1)), Pi, 0, "1e-32")
   /\ Close(Exp(1), "2.71828182845904523536028747135266249775724709", 0, Tiny)
   /\ Close(Ln(10), Ln10, 0, Tiny) /\ Close(Ln(2), Ln2, 0, Tiny)
   /\ Close(Sqrt(2), "1.41421356237309504880168872420969807856967187", 0, "1e-36")
Specials ==
   /\ IsNan(N("nan")) /\ ~IsFin(N("nan")) /\ ~IsFin(N("inf")) /\ ~IsNan(N("inf")) /\ IsFin(N("1e300"))
   /\ IsNan(Add("nan", a)) /\ IsNan(Mul(a, "nan")) /\ IsNan(Sqrt(-1)) /\ IsNan(Div(a, 0))
   /\ ~Lt("nan", a) /\ ~Le("nan", a) /\ ~Lt(a, "nan") /\ Lt(a, "inf") /\ Lt("-inf", a) /\ ~Eq("nan", "nan")
   /\ IsNan(Sub("inf", "inf"))
Vectors == IsI =>
   LET u == <<a, b, 1>> v == <<b, 2, a>> IN
   /\ Eq(Dot(u, v), a*b + 2*b + a) /\ Eq(Dot(u, Cross(u, v)), 0) /\ Eq(Dot(v, Cross(u, v)), 0)
   /\ Close(Add(Sq(Dot(u, v)), Dot(Cross(u, v), Cross(u, v))), Mul(Dot(u, u), Dot(v, v)), Tiny, 0)
   /\ VClose(VAdd(VSub(u, v), v), u, 0, 0) /\ VClose(MulMV(<< <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, u), u, 0, 0)
=============================================================================
