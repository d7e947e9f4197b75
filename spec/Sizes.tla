-------------------------------- MODULE Sizes --------------------------------
(***************************************************************************)
(* How large the files of ObjSize and MtlSize are, and ways to repeat.     *)
(***************************************************************************)
EXTENDS Text, Found, TLC

(* Around every power of two and ten, where limits and widths would show. *)
Near(S) == UNION {{n - 1, n, n + 1} : n \in S}
Small   == 1..34
Hundreds == Near({64, 100, 128, 200, 255, 256, 300, 400})
Thousand == Near({500, 512, 750, 1000, 1024})
More     == Near({1500, 2000, 2048})
SizeSet(c) == CASE c = "small"    -> Small
                [] c = "hundreds" -> Small \cup Hundreds
                [] c = "thousand" -> Hundreds \cup Thousand
                [] c = "more"     -> Thousand \cup More
                [] c = "large"    -> {2049, 4097}
                [] c = "larger"   -> {4096, 8193, 10001}
                [] c = "found"    -> FoundSizes       \* amounts the source mentions
                [] c = "huge"     -> {65535, 65537}   \* for one line or word
(* For ObjMany and MtlMany. *)
ManySizes(c) == CASE c = "ten"   -> {8191, 10001}
                  [] c = "wide"  -> {65537} \cup FoundMany
                  [] c = "wider" -> {32769, 65535, 65536, 100001}
(* Values of numbers, not amounts: any 32-bit whole number. *)
Values == {n \in UNION {{2^k - 1, 2^k, 2^k + 1} : k \in 0..30} : n > 0}
          \cup Near({10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 65535, 99999, 2147483646})

S(n) == ToString(n)
(* P(1), ..., P(n). *)
Each(n, P(_)) == [i \in 1..n |-> P(i)]
Same(n, x)    == [i \in 1..n |-> x]
(* n times x, as one string. *)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN x ELSE LET h == Rep(x, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN x ELSE "")
(* A word of a one-byte characters and n of three bytes: with two values of *)
(* a, every byte position falls within a character.                        *)
Word3(a, n) == Same(a, "n") \o Same(n, "{65E5}")
(* Lines: each prefix followed by such a word. *)
Lines3(prefixes, suffix, a, n) == Join([i \in DOMAIN prefixes |-> <<prefixes[i]>> \o Word3(a, n) \o <<suffix>>])
(* The text of encoded pieces. *)
Whole(pieces) == Join([i \in DOMAIN pieces |-> Chars(pieces[i])])
=============================================================================
