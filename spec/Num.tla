-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arbitrary-precision decimal numbers for TLC.                            *)
(*                                                                         *)
(* TLC has 32-bit integers only, and the properties of this system speak   *)
(* of physical quantities.  A number is a TLC integer, a decimal string    *)
(* ("1.25e-3", as traces carry them) or a value made by the operators      *)
(* below; "nan", "inf" and "-inf" are the IEEE specials.  The FIRST group  *)
(* of operators is overridden by the Java class Num (38 significant        *)
(* digits, round half even); the second group is plain TLA+.               *)
(* Module NumTest checks both groups against TLC integers and identities.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

\* ---- overridden by Num.java -------------------------------------------
N(a)        == CHOOSE x \in {} : FALSE      \* the number a
Add(a, b)   == CHOOSE x \in {} : FALSE
Sub(a, b)   == CHOOSE x \in {} : FALSE
Mul(a, b)   == CHOOSE x \in {} : FALSE
Div(a, b)   == CHOOSE x \in {} : FALSE      \* nan for b = 0
Negate(a)      == CHOOSE x \in {} : FALSE
Sqrt(a)     == CHOOSE x \in {} : FALSE      \* nan for a < 0
Round(a)    == CHOOSE x \in {} : FALSE      \* nearest integer, a number
ToInt(a)    == CHOOSE x \in {} : FALSE      \* nearest integer, a TLC integer
Exp10(a)    == CHOOSE x \in {} : FALSE      \* decimal exponent, a TLC integer
Scale10(a, k) == CHOOSE x \in {} : FALSE    \* a * 10^k
Lt(a, b)    == CHOOSE x \in {} : FALSE      \* comparisons with nan are FALSE
Le(a, b)    == CHOOSE x \in {} : FALSE
Eq(a, b)    == CHOOSE x \in {} : FALSE
IsNan(a)    == CHOOSE x \in {} : FALSE
IsFin(a)    == CHOOSE x \in {} : FALSE
Str(a)      == CHOOSE x \in {} : FALSE
Tup(s)      == s                            \* s with its entries evaluated once

\* ---- elementary functions ----------------------------------------------
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
Abs(a)   == IF Lt(a, 0) THEN Negate(a) ELSE N(a)
Max2(a, b) == IF Lt(a, b) THEN N(b) ELSE N(a)
Min2(a, b) == IF Lt(b, a) THEN N(b) ELSE N(a)
Sgn(a)   == IF Lt(a, 0) THEN -1 ELSE IF Gt(a, 0) THEN 1 ELSE 0
Sq(a)    == LET x == N(a) IN Mul(x, x)
Cube(a)  == LET x == N(a) IN Mul(x, Mul(x, x))
Inv(a)   == Div(1, a)
Sum(s)   == FoldLeft(Add, N(0), Tup(s))
Prod(s)  == FoldLeft(Mul, N(1), Tup(s))

Pi     == N("3.14159265358979323846264338327950288419716939937510582")
TwoPi  == N("6.28318530717958647692528676655900576839433879875021164")
Ln10   == N("2.30258509299404568401799145468436420760110148862877298")
Ln2    == N("0.69314718055994530941723212145817656807550013436025525")

\* integer power, k a TLC integer
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN N(1)
              ELSE IF k < 0 THEN Inv(IPow(a, -k))
              ELSE IF k % 2 = 0 THEN IPow(Sq(a), k \div 2)
              ELSE Mul(a, IPow(a, k - 1))

Wrap(a) == LET x == N(a) IN Sub(x, Mul(TwoPi, Round(Div(x, TwoPi))))   \* into [-Pi, Pi]

Down(n) == [j \in 1..n |-> n + 1 - j]

\* Horner form of the Taylor series:  1 - x2/((k)(k+1)) * (1 - ...)
Cos(a) == LET r  == Wrap(a)
              x2 == Sq(r)
          IN IF IsNan(r) THEN r
             ELSE FoldLeft(LAMBDA acc, j : Sub(1, Div(Mul(x2, acc), (2*j-1)*(2*j))), N(1), Down(20))
Sin(a) == LET r  == Wrap(a)
              x2 == Sq(r)
          IN IF IsNan(r) THEN r
             ELSE Mul(r, FoldLeft(LAMBDA acc, j : Sub(1, Div(Mul(x2, acc), (2*j)*(2*j+1))), N(1), Down(20)))
Tan(a) == LET x == N(a) IN Div(Sin(x), Cos(x))

\* |x| < tan(Pi/32)
AtanSmall(x) == LET x2 == Sq(x)
                IN Mul(x, FoldLeft(LAMBDA acc, j : Sub(Inv(2*j-1), Mul(x2, acc)), N(0), Down(16)))
HalfAtan(x) == Div(x, Add(1, Sqrt(Add(1, Sq(x)))))
Atan(a) == LET x0 == N(a)
               x1 == HalfAtan(x0)
               x2 == HalfAtan(x1)
               x3 == HalfAtan(x2)
           IN Mul(8, AtanSmall(x3))
Atan2(b, a) == LET y == N(b)
                   x == N(a)
               IN IF IsNan(x) \/ IsNan(y) THEN N("nan")
                  ELSE IF Eq(x, 0) /\ Eq(y, 0) THEN N(0)
                  ELSE IF Le(Abs(y), Abs(x))
                       THEN IF Gt(x, 0) THEN Atan(Div(y, x))
                            ELSE IF Lt(y, 0) THEN Sub(Atan(Div(y, x)), Pi) ELSE Add(Atan(Div(y, x)), Pi)
                       ELSE IF Gt(y, 0) THEN Sub(Div(Pi, 2), Atan(Div(x, y)))
                            ELSE Sub(Negate(Div(Pi, 2)), Atan(Div(x, y)))
Acos(a) == LET x == N(a) IN Atan2(Sqrt(Max2(0, Sub(1, Sq(x)))), x)
Asin(a) == LET x == N(a) IN Atan2(x, Sqrt(Max2(0, Sub(1, Sq(x)))))

\* exp: x = k ln2 + r
Exp(a) == LET x == N(a)
          IN IF IsNan(x) THEN x
             ELSE IF Gt(x, 20000) THEN N("inf")
             ELSE IF Lt(x, -20000) THEN N(0)
             ELSE LET k == ToInt(Div(x, Ln2))
                      r == Sub(x, Mul(k, Ln2))
                      s == FoldLeft(LAMBDA acc, j : Add(1, Div(Mul(r, acc), j)), N(1), Down(26))
                  IN Mul(s, IPow(2, k))

\* ln: x = m 10^k, m in [1,10), m^(1/16) small enough for the atanh series
Ln(a) == LET x == N(a)
         IN IF ~Gt(x, 0) THEN N("nan")
            ELSE LET k == Exp10(x)
                     m == Sqrt(Sqrt(Sqrt(Sqrt(Scale10(x, -k)))))
                     z == Div(Sub(m, 1), Add(m, 1))
                     z2 == Sq(z)
                     s == FoldLeft(LAMBDA acc, j : Add(Inv(2*j-1), Mul(z2, acc)), N(0), Down(16))
                 IN Add(Mul(32, Mul(z, s)), Mul(k, Ln10))

\* real power of a non-negative base
Pow(a, b) == LET x == N(a) IN IF Eq(x, 0) THEN (IF Eq(b, 0) THEN N(1) ELSE N(0)) ELSE Exp(Mul(b, Ln(x)))

\* ---- vectors (sequences of numbers) --------------------------------------
VAdd(u, v) == Tup([j \in DOMAIN u |-> Add(u[j], v[j])])
VSub(u, v) == Tup([j \in DOMAIN u |-> Sub(u[j], v[j])])
VScale(c, v) == LET q == N(c) IN Tup([j \in DOMAIN v |-> Mul(q, v[j])])
Dot(u, v)  == Sum([j \in DOMAIN u |-> Mul(u[j], v[j])])
VNorm(v)   == Sqrt(Dot(v, v))
Cross(u, v) == << Sub(Mul(u[2], v[3]), Mul(u[3], v[2])),
                  Sub(Mul(u[3], v[1]), Mul(u[1], v[3])),
                  Sub(Mul(u[1], v[2]), Mul(u[2], v[1])) >>
MulMV(m, v) == Tup([i \in DOMAIN m |-> Dot(m[i], v)])

\* ---- tolerant comparison --------------------------------------------------
\* |a-b| <= atol + rtol max(|a|,|b|); nan only equals nan, infinities only themselves
Close(a, b, rtol, atol) ==
   LET x == N(a)
       y == N(b)
   IN IF IsFin(x) /\ IsFin(y)
      THEN Le(Abs(Sub(x, y)), Add(atol, Mul(rtol, Max2(Abs(x), Abs(y)))))
      ELSE x = y
VClose(u, v, rtol, atol) ==     \* componentwise difference relative to the larger norm
   /\ Len(u) = Len(v)
   /\ IF \A j \in DOMAIN u : IsFin(u[j]) /\ IsFin(v[j])
      THEN LET s == Max2(VNorm(u), VNorm(v))
           IN \A j \in DOMAIN u : Le(Abs(Sub(u[j], v[j])), Add(atol, Mul(rtol, s)))
      ELSE \A j \in DOMAIN u : N(u[j]) = N(v[j])
AngClose(a, b, tol) == LET d == Wrap(Sub(a, b)) IN ~IsNan(d) /\ Le(Abs(d), tol)
=============================================================================
