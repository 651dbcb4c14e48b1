--------------------------------- MODULE Number ---------------------------------
(***************************************************************************)
(* Decimal numbers as written in files and definitions: texts are          *)
(* sequences of one-character strings.  IsNumber decides whether a text is *)
(* a complete number; Canon gives its value as mantissa and power of ten   *)
(* (mantissa not divisible by ten, zero is [0, 0]); Scaled gives the value *)
(* in units of 1/u when it is a multiple of that unit.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Blank == {" ", "\t", "\r", "\n"}

RECURSIVE DropLeading(_), DropTrailing(_), CountDigits(_, _), IntOf(_), Pow10(_), Strip(_, _)
DropLeading(s) == IF s # <<>> /\ Head(s) \in Blank THEN DropLeading(Tail(s)) ELSE s
DropTrailing(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN DropTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == DropTrailing(DropLeading(s))
Compact(s) == SelectSeq(s, LAMBDA c : c \notin Blank)
\* number of digits of s from position i on
CountDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN 1 + CountDigits(s, i + 1) ELSE 0
IntOf(s) == IF s = <<>> THEN 0 ELSE 10 * IntOf(SubSeq(s, 1, Len(s) - 1)) + DigitOf(s[Len(s)])
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

(* parts of the longest number at the start of s (no blanks in front):      *)
(* sign, digits before and after the point, exponent; len 0 if there is none *)
Parse(s) ==
  LET sg == IF s # <<>> /\ s[1] \in {"+", "-"} THEN 1 ELSE 0
      a == CountDigits(s, sg + 1)
      pt == IF sg + a + 1 <= Len(s) /\ s[sg + a + 1] = "." THEN 1 ELSE 0
      b == IF pt = 1 THEN CountDigits(s, sg + a + 2) ELSE 0
      m == sg + a + pt + b                      \* end of the mantissa
      hasE == m + 1 <= Len(s) /\ s[m + 1] \in {"e", "E"}
      es == IF hasE /\ m + 2 <= Len(s) /\ s[m + 2] \in {"+", "-"} THEN 1 ELSE 0
      ed == IF hasE THEN CountDigits(s, m + 2 + es) ELSE 0
      ok == a + b > 0
  IN [ok |-> ok,
      len |-> IF ~ok THEN 0 ELSE IF ed > 0 THEN m + 1 + es + ed ELSE m,
      neg |-> sg = 1 /\ s[1] = "-",
      digits |-> SubSeq(s, sg + 1, sg + a) \o (IF pt = 1 THEN SubSeq(s, sg + a + 2, sg + a + 1 + b) ELSE <<>>),
      exp |-> (IF ed > 0 THEN (IF es = 1 /\ s[m + 2] = "-" THEN -1 ELSE 1) * IntOf(SubSeq(s, m + 2 + es, m + 1 + es + ed)) ELSE 0) - b]

IsNumber(text) == LET s == Trim(text) p == Parse(s) IN p.ok /\ p.len = Len(s)
\* does the text start with a number (what follows it does not matter)?
StartsWithNumber(text) == Parse(DropLeading(text)).ok

Strip(m, e) == IF m = 0 THEN [m |-> 0, e |-> 0] ELSE IF m % 10 = 0 THEN Strip(m \div 10, e + 1) ELSE [m |-> m, e |-> e]
Canon(text) ==
  LET p == Parse(DropLeading(text))
      c == Strip(IntOf(p.digits), p.exp)
  IN [m |-> IF p.neg THEN -c.m ELSE c.m, e |-> c.e]
Scaled(text, u) ==
  LET c == Canon(text)
      a == IF c.m < 0 THEN -c.m ELSE c.m
      v == IF c.e >= 0 THEN a * Pow10(c.e) * u ELSE (a * u) \div Pow10(-c.e)
  IN IF c.m < 0 THEN -v ELSE v
=================================================================================
