------------------------------- MODULE Words -------------------------------
(* Machine words as big-endian sequences of 16-bit limbs (TLC integers are  *)
(* 32 bits wide): <<v>> is a 16-bit, <<hi,lo>> a 32-bit and <<a,b,c,d>> a   *)
(* 64-bit unsigned word.                                                    *)
EXTENDS Integers, Sequences

BASE == 65536

Zero(n) == [k \in 1..n |-> 0]

(* conversion to another width: C++ unsigned conversion (modulo 2^width) *)
Resize(w, n) ==
  IF Len(w) >= n THEN SubSeq(w, Len(w) - n + 1, Len(w))
                 ELSE Zero(n - Len(w)) \o w

(* does the value fit into n limbs? *)
Fits(w, n) == \A k \in 1..Len(w) : k <= Len(w) - n => w[k] = 0

(* unsigned comparison of words of any widths *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) ==
  IF k > Len(a) THEN FALSE
  ELSE IF a[k] # b[k] THEN a[k] < b[k]
  ELSE LexLess(a, b, k + 1)

WLess(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
               IN LexLess(Resize(a, n), Resize(b, n), 1)
WLeq(a, b) == ~ WLess(b, a)
WEq(a, b)  == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
              IN Resize(a, n) = Resize(b, n)

(* a - b modulo 2^width of a (equal widths) *)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, k, borrow) ==
  IF k = 0 THEN << >>
  ELSE LET d == a[k] - b[k] - borrow
       IN IF d < 0 THEN Append(SubFrom(a, b, k - 1, 1), d + BASE)
                   ELSE Append(SubFrom(a, b, k - 1, 0), d)
WSub(a, b) == SubFrom(a, b, Len(a), 0)

(* a + small natural, modulo 2^width *)
RECURSIVE AddTo(_, _, _)
AddTo(a, k, carry) ==
  IF k = 0 THEN << >>
  ELSE LET d == a[k] + carry
       IN IF d >= BASE THEN Append(AddTo(a, k - 1, d \div BASE), d % BASE)
                       ELSE Append(AddTo(a, k - 1, 0), d)
WAdd(a, n) == AddTo(a, Len(a), n)

WOf(n, limbs) == Resize(<<n \div BASE, n % BASE>>, limbs)
=============================================================================
