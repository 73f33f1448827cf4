-------------------------------- MODULE Num --------------------------------
(* Numbers of the specification.                                          *)
(*                                                                        *)
(* Model checking uses the definitions below: TLC integers (32 bit) and a *)
(* small "u64" range, so that overflow and saturation are reachable.      *)
(*                                                                        *)
(* Judging traces of the real code uses java/NumOverrides.java instead:   *)
(* every number is a decimal string and the arithmetic is BigInteger, with*)
(* the true 64-bit range. Every operator of this module is overridden.    *)
EXTENDS Integers, Sequences

LOCAL SmallMax == 32767

N(i) == i                        \* TLA+ integer -> number
U64MAX == SmallMax
SEQMAX == SmallMax \div 2        \* the order sequence number must stay below
BPS == 10000                     \* basis points denominator

a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b
a %% b == a % b
a \prec b == a < b
a \preceq b == a <= b

\* number -> TLA+ integer, saturating at cap
ToInt(a, cap) == IF a > cap THEN cap ELSE a

\* little-endian unsigned integer in bytes[from .. from+n-1]
RECURSIVE LEgo(_, _, _)
LEgo(bytes, from, n) ==
  IF n = 0 THEN 0 ELSE bytes[from] + 256 * LEgo(bytes, from + 1, n - 1)
LE(bytes, from, n) == LEgo(bytes, from, n)

\* the sum of f[k] over k in S
RECURSIVE SumOver(_, _)
SumOver(S, f) ==
  IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(S \ {k}, f)
=============================================================================
