-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters, words and number literals: what the two file formats are    *)
(* made of.                                                                *)
(*                                                                         *)
(* A text is a sequence of characters.  A character is a one-letter TLA+   *)
(* string, or, for characters that TLA+ strings cannot hold, its code      *)
(* point in braces: "{0A}" is a line feed, "{212A}" the Kelvin sign.       *)
(* Chars turns an encoded string ("v 1 2 3{0A}") into a text.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Blank == {" ", "{09}"}
Eol   == {"{0A}", "{0D}"}
White == Blank \cup Eol
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Sign  == {"+", "-"}

RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == IF SubSeq(s, i, i) # "{" THEN i
                ELSE CHOOSE j \in i..Len(s) :
                       /\ SubSeq(s, j, j) = "}"
                       /\ \A k \in i..(j-1) : SubSeq(s, k, k) # "}"
       IN  <<SubSeq(s, i, e)>> \o CharsFrom(s, e + 1)
Chars(s) == CharsFrom(s, 1)

(* The encoded string of a text: the inverse of Chars.  By halves, because *)
(* TLC remembers every string it makes.                                    *)
RECURSIVE StrOf(_, _, _)
StrOf(t, i, j) == IF i > j THEN ""
                  ELSE IF i = j THEN t[i]
                  ELSE LET h == (i + j) \div 2 IN StrOf(t, i, h) \o StrOf(t, h + 1, j)
Str(t) == StrOf(t, 1, Len(t))

(* Sequences put together, by halves. *)
RECURSIVE JoinOf(_, _, _)
JoinOf(ss, i, j) == IF i > j THEN <<>>
                    ELSE IF i = j THEN ss[i]
                    ELSE LET h == (i + j) \div 2 IN JoinOf(ss, i, h) \o JoinOf(ss, h + 1, j)
Join(ss) == JoinOf(ss, 1, Len(ss))

(* First position from i on whose character is not in S (Len+1 if none):   *)
(* in steps of 64 over long runs, for the depth of TLC's recursion.        *)
RECURSIVE SkipIn(_, _, _)
SkipIn(t, i, S) ==
  IF i > Len(t) \/ t[i] \notin S THEN i
  ELSE IF i + 63 <= Len(t) /\ t[i + 63] \in S /\ \A k \in i..(i + 63) : t[k] \in S THEN SkipIn(t, i + 64, S)
  ELSE SkipIn(t, i + 1, S)
(* First position from i on whose character is in S (Len+1 if none). *)
RECURSIVE SkipTo(_, _, _)
SkipTo(t, i, S) ==
  IF i > Len(t) \/ t[i] \in S THEN i
  ELSE IF i + 63 <= Len(t) /\ t[i + 63] \notin S /\ \A k \in i..(i + 63) : t[k] \notin S THEN SkipTo(t, i + 64, S)
  ELSE SkipTo(t, i + 1, S)
(* Last position down from i whose character is not in S (0 if none). *)
RECURSIVE BackOver(_, _, _)
BackOver(t, i, S) ==
  IF i < 1 \/ t[i] \notin S THEN i
  ELSE IF i > 64 /\ t[i - 63] \in S /\ \A k \in (i - 63)..i : t[k] \in S THEN BackOver(t, i - 64, S)
  ELSE BackOver(t, i - 1, S)

LowerOf ==
  [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
          "R","S","T","U","V","W","X","Y","Z"} |->
   CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
     [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
     [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l"
     [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
     [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t"
     [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
     [] c = "Y" -> "y" [] c = "Z" -> "z"]
(* ASCII letters only: the Kelvin sign is not a k. *)
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in DOMAIN LowerOf THEN LowerOf[t[i]] ELSE t[i]]

-----------------------------------------------------------------------------
(* Number literals.  w is a whole word.                                    *)

Unsigned(w) == IF Len(w) > 0 /\ w[1] \in Sign THEN Tail(w) ELSE w
Digits(w)   == \A i \in DOMAIN w : w[i] \in Digit

IsWhole(w) == LET u == Unsigned(w) IN Len(u) > 0 /\ Digits(u)

IsExponent(w) == Len(w) >= 2 /\ w[1] \in {"e", "E"} /\ IsWhole(Tail(w))

(* sign? ( digits* . digits* exponent?  |  digits+ exponent ), with a digit *)
(* somewhere before the exponent.                                          *)
IsReal(w) ==
  LET u == Unsigned(w)
      i == SkipIn(u, 1, Digit)                       \* end of the whole part
  IN  IF i <= Len(u) /\ u[i] = "."
      THEN LET j == SkipIn(u, i + 1, Digit)          \* end of the fraction
           IN  /\ i > 1 \/ j > i + 1
               /\ j > Len(u) \/ IsExponent(SubSeq(u, j, Len(u)))
      ELSE i > 1 /\ IsExponent(SubSeq(u, i, Len(u)))

(* The same grammar said without a scanner: some way of cutting the word   *)
(* into sign, whole part, point, fraction and exponent.  NumberGrammar     *)
(* (checked by TLC over all short words) says the two agree.               *)
RealByCutting(w) ==
  \E s \in 0..Len(w), d \in 0..Len(w), p \in 0..1, f \in 0..Len(w) :
    LET a == s + d  b == a + p  c == b + f IN
    /\ s <= 1 /\ c <= Len(w)
    /\ s = 1 => w[1] \in Sign
    /\ \A i \in (s+1)..a : w[i] \in Digit
    /\ p = 1 => w[b] = "."
    /\ p = 0 => f = 0
    /\ \A i \in (b+1)..c : w[i] \in Digit
    /\ d + f > 0
    /\ \/ c = Len(w) /\ p = 1
       \/ c < Len(w) /\ IsExponent(SubSeq(w, c + 1, Len(w)))

DigitVal == [d \in Digit |->
   CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
     [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]

(* Whole numbers that fit 32 bits are integers; u has no leading zero. *)
Stripped(w) == LET u == Unsigned(w)
                   z == SkipIn(u, 1, {"0"})
               IN  SubSeq(u, z, Len(u))
Negative(w) == Len(w) > 0 /\ w[1] = "-"
MaxDigits(neg) == IF neg THEN <<2,1,4,7,4,8,3,6,4,8>> ELSE <<2,1,4,7,4,8,3,6,4,7>>
Fits32(w) ==
  LET u == Stripped(w)
      m == MaxDigits(Negative(w))
  IN  \/ Len(u) < 10
      \/ /\ Len(u) = 10
         /\ \/ \A i \in 1..10 : DigitVal[u[i]] = m[i]
            \/ \E i \in 1..10 : /\ DigitVal[u[i]] < m[i]
                                /\ \A j \in 1..(i-1) : DigitVal[u[j]] = m[j]
(* Computed on the negative side so that -2147483648 does not overflow. *)
IntVal(w) ==
  LET neg == FoldLeft(LAMBDA a, c : a * 10 - DigitVal[c], 0, Stripped(w))
  IN  IF Negative(w) THEN neg ELSE 0 - neg

(* A number token at the start of word w, or the empty sequence. *)
NumberToken(w) ==
  IF IsWhole(w) THEN IF Fits32(w) THEN <<[t |-> "int", i |-> IntVal(w), x |-> Str(w)]>>
                                  ELSE <<[t |-> "real", x |-> Str(w)]>>
  ELSE IF IsReal(w) THEN <<[t |-> "real", x |-> Str(w)]>>
  ELSE <<>>

OnWord(s)  == Lower(Chars(s)) = <<"o", "n">>
OffWord(s) == Lower(Chars(s)) = <<"o", "f", "f">>
IsSwitch(s) == OnWord(s) \/ OffWord(s)
Opt(s)     == IF s = <<>> THEN <<>> ELSE <<Head(s)>>
=============================================================================
