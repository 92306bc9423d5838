-------------------------------- MODULE Gf2 ---------------------------------
(* Polynomials over GF(2), as the sets of their exponents, and the fields   *)
(* GF(2^m).                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

(* Sum *)
a (+) b == (a \ b) \cup (b \ a)

Deg(p) == CHOOSE d \in p : \A e \in p : e <= d

Shift(p, n) == {e + n : e \in p}

(* (In what follows, UNION {F(q) : q \in {v}}, which is F(v), has TLC        *)
(* evaluate v just once.)                                                    *)

RECURSIVE PolyMul(_, _)
PolyMul(a, b) ==
    IF a = {} THEN {}
    ELSE LET d == CHOOSE e \in a : TRUE
         IN  UNION {Shift(b, d) (+) PolyMul(q, b) : q \in {a \ {d}}}

(* Remainder of division *)
RECURSIVE PolyMod(_, _)
PolyMod(a, g) ==
    IF a = {} \/ Deg(a) < Deg(g) THEN a
    ELSE UNION {PolyMod(q, g) : q \in {a (+) Shift(g, Deg(a) - Deg(g))}}

(* x^n mod g *)
RECURSIVE XPow(_, _)
XPow(n, g) ==
    IF n = 0 THEN PolyMod({0}, g)
    ELSE UNION {PolyMod(IF n % 2 = 0 THEN PolyMul(h, h)
                        ELSE Shift(PolyMul(h, h), 1), g)
                : h \in {XPow(n \div 2, g)}}

(* Multiplication by x, where p is of lower degree than g *)
Times_x(p, g) ==
    LET s == Shift(p, 1) IN IF Deg(g) \in s THEN s (+) g ELSE s

(* Numbers: bit e is the coefficient of x^e. *)
RECURSIVE Bits(_)
Bits(n) ==
    IF n = 0 THEN {}
    ELSE Shift(Bits(n \div 2), 1) \cup (IF n % 2 = 1 THEN {0} ELSE {})

RECURSIVE Num(_)
Num(p) ==
    IF p = {} THEN 0
    ELSE LET d == CHOOSE e \in p : TRUE IN 2^d + Num(p \ {d})

(* The least polynomial over GF(2) of which x^i mod g is a root *)
RECURSIVE SumPow(_, _, _)
SumPow(p, i, g) ==
    IF p = {} THEN {}
    ELSE LET e == CHOOSE d \in p : TRUE
         IN  UNION {XPow(i * e, g) (+) SumPow(q, i, g) : q \in {p \ {e}}}

IsRoot(p, i, g) == SumPow(p, i, g) = {}
=============================================================================
