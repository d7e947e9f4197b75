------------------------------- MODULE ObjLex -------------------------------
(***************************************************************************)
(* Model files (.obj): text -> tokens -> statements.                       *)
(*                                                                         *)
(* Tokens are records with a field t:                                      *)
(*   kw (k: keyword)  int (i: value, x: literal)  real (x: literal)        *)
(*   str (s: encoded string)  slash  trail (slashes at the end of a        *)
(*   reference, as in 1/)                                                  *)
(***************************************************************************)
EXTENDS Text

KeyWords == {"mtllib", "usemtl", "maplib", "usemap", "shadow_obj", "trace_obj",
             "bevel", "c_interp", "d_interp", "lod",
             "v", "vt", "vn", "vp", "f", "l", "p", "o", "g", "s"}
(* After these the rest of the line is a name, whatever it looks like. *)
NameKeyWords == {"mtllib", "usemtl", "maplib", "usemap", "shadow_obj", "trace_obj", "o", "g"}

(* A number ends in front of these. *)
NumberEnd == White \cup {"#", "/"}

(* One lexeme from position i of t, which is not white space: the tokens it *)
(* gives (none for a comment, two for a keyword with its name) and the      *)
(* position after it.                                                       *)
Lexeme(t, i) ==
  LET e    == SkipTo(t, i, White)
      word == IF e - i <= 10 THEN Str(Lower(SubSeq(t, i, e - 1))) ELSE ""
      line == SkipTo(t, i, Eol)                      \* end of the line
  IN
  IF word \in KeyWords /\ e <= Len(t)
  THEN LET k == word
           a == SkipIn(t, e, Blank)                  \* start of the argument
           kw == [t |-> "kw", k |-> k]
       IN  IF k \in NameKeyWords /\ a > e /\ a <= Len(t) /\ t[a] \notin Eol \cup {"#"}
           THEN [toks |-> <<kw, [t |-> "str",
                                 s |-> Str(SubSeq(t, a, BackOver(t, line - 1, Blank)))]>>,
                 next |-> line]
           ELSE [toks |-> <<kw>>, next |-> e]
  ELSE IF t[i] = "/"
  THEN LET r == SkipIn(t, i, {"/"})
       IN  IF r > Len(t) \/ t[r] \in White \cup {"#"}
           THEN [toks |-> <<[t |-> "trail"]>>, next |-> r]
           ELSE [toks |-> <<[t |-> "slash"]>>, next |-> i + 1]
  ELSE IF t[i] = "#" THEN [toks |-> <<>>, next |-> line]
  ELSE LET n   == SkipTo(t, i, NumberEnd)
           num == NumberToken(SubSeq(t, i, n - 1))
       IN  IF num # <<>> THEN [toks |-> num, next |-> n]
           ELSE [toks |-> <<[t |-> "str", s |-> Str(SubSeq(t, i, BackOver(t, line - 1, Blank)))]>>,
                 next |-> line]

(* A fold over the positions: those before next are already read. *)
Lex(t) ==
  LET Read(a, i) == IF i < a.next THEN a
                    ELSE IF t[i] \in White THEN a
                    ELSE LET x == Lexeme(t, i) IN [toks |-> a.toks \o x.toks, next |-> x.next]
  IN  FoldLeft(Read, [toks |-> <<>>, next |-> 1], [i \in DOMAIN t |-> i]).toks

-----------------------------------------------------------------------------
(* Statements.  A chunk is a keyword token and the tokens up to the next    *)
(* keyword.  Statement gives its meaning as a record, or Bad if it is not   *)
(* well formed.                                                             *)

Bad == [k |-> "bad"]

IsNum(x)  == x.t \in {"int", "real"}
AllAre(a, T) == \A i \in DOMAIN a : a[i].t \in T
Lits(a)   == [i \in DOMAIN a |-> a[i].x]
Strs(a)   == [i \in DOMAIN a |-> a[i].s]

(* References: v, v/t, v//n, v/t/n, with slashes at the end ignored.  slots  *)
(* is how many slash-separated slots may follow the vertex.                 *)
(* A reference is open after its first number, up to its trailing slashes   *)
(* or the next number that no slash precedes.                              *)
RefStep(a, x, slots) ==
  IF a.bad THEN a
  ELSE IF x.t = "int" THEN
    IF a.last = "slash"
    THEN [a EXCEPT !.last = "int", !.r[Len(a.r)][IF a.slot = 1 THEN "t" ELSE "n"] = <<x.i>>]
    ELSE [a EXCEPT !.last = "int", !.slot = 0, !.r = Append(@, [v |-> x.i, t |-> <<>>, n |-> <<>>])]
  ELSE IF x.t = "slash" /\ a.last \in {"int", "slash"} /\ a.slot < slots
  THEN [a EXCEPT !.last = "slash", !.slot = @ + 1]
  ELSE IF x.t = "trail" /\ a.last \in {"int", "slash"} THEN [a EXCEPT !.last = "none"]
  ELSE [a EXCEPT !.bad = TRUE]
Elements(k, a, slots) ==
  LET e == FoldLeft(LAMBDA s, x : RefStep(s, x, slots),
                    [r |-> <<>>, last |-> "none", slot |-> 0, bad |-> FALSE], a)
  IN  IF e.r = <<>> \/ e.bad THEN Bad ELSE [k |-> k, r |-> e.r]

Nums(k, a, lo, hi) ==
  IF Len(a) \in lo..hi /\ AllAre(a, {"int", "real"}) THEN [k |-> k, a |-> Lits(a)] ELSE Bad
Names(k, a) ==
  IF Len(a) >= 1 /\ AllAre(a, {"str"}) THEN [k |-> k, a |-> Strs(a)] ELSE Bad
OneName(k, a) ==
  IF Len(a) = 1 /\ AllAre(a, {"str"}) THEN [k |-> k, a |-> a[1].s] ELSE Bad
OnOff(k, a) ==
  IF Len(a) = 1 /\ AllAre(a, {"str"})
  THEN IF IsSwitch(a[1].s) THEN [k |-> k, b |-> OnWord(a[1].s)] ELSE Bad
  ELSE Bad

Statement(chunk) ==
  LET k == chunk[1].k
      a == Tail(chunk)
  IN  CASE k = "v"  -> Nums(k, a, 3, 4)
        [] k = "vn" -> Nums(k, a, 3, 3)
        [] k = "vt" -> Nums(k, a, 1, 3)
        [] k = "vp" -> Bad
        [] k = "f"  -> Elements(k, a, 2)
        [] k = "l"  -> Elements(k, a, 1)
        [] k = "p"  -> IF Len(a) >= 1 /\ AllAre(a, {"int"})
                       THEN [k |-> k, r |-> [i \in DOMAIN a |-> a[i].i]] ELSE Bad
        [] k \in {"g", "mtllib", "maplib"} -> Names(k, a)
        [] k \in {"usemtl", "usemap", "shadow_obj", "trace_obj"} -> OneName(k, a)
        [] k = "o"  -> IF Len(a) = 1 /\ a[1].t \in {"str", "int"} THEN [k |-> k] ELSE Bad
        [] k = "s"  -> IF Len(a) # 1 THEN Bad
                       ELSE IF a[1].t = "int" THEN [k |-> k, i |-> a[1].i]
                       ELSE IF a[1].t = "str"
                            THEN [k |-> k, i |-> IF OnWord(a[1].s) THEN 1 ELSE 0]
                       ELSE Bad
        [] k \in {"bevel", "c_interp", "d_interp"} -> OnOff(k, a)
        [] k = "lod" -> IF Len(a) = 1 /\ a[1].t = "int" /\ a[1].i \in 0..100
                        THEN [k |-> k, i |-> a[1].i] ELSE Bad

(* Cuts tokens into chunks; what comes before the first keyword (nothing,  *)
(* in a well-formed text) is a chunk of its own.                           *)
Chunks(toks) ==
  FoldLeft(LAMBDA cs, x : IF cs = <<>> \/ x.t = "kw" THEN Append(cs, <<x>>)
                          ELSE [cs EXCEPT ![Len(cs)] = Append(@, x)], <<>>, toks)
ChunkMeaning(c) == IF c[1].t = "kw" THEN Statement(c) ELSE Bad
Statements(toks) == LET c == Chunks(toks) IN [i \in DOMAIN c |-> ChunkMeaning(c[i])]
=============================================================================
