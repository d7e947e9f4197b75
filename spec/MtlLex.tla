------------------------------- MODULE MtlLex -------------------------------
(***************************************************************************)
(* Material files (.mtl): text -> tokens -> statements.  Tokens are records *)
(* with a field t: kw (k), int (i, x), real (x), str (s).                  *)
(***************************************************************************)
EXTENDS Text

ColourKw == {"ka", "kd", "ks", "ke", "tf"}
ScalarKw == {"ns", "tr", "ni", "sharpness"}
CcMapKw  == {"map_ka", "map_kd", "map_ks"}                 \* colour corrected
PlainMapKw == {"map_ns", "map_d", "disp", "map_disp", "decal"}
MapKw    == CcMapKw \cup PlainMapKw \cup {"bump", "refl"}
StatementKw == {"newmtl", "d", "illum", "map_aat"} \cup ColourKw \cup ScalarKw \cup MapKw
OptionKw == {"-blendu", "-blendv", "-boost", "-bm", "-cc", "-clamp", "-imfchan", "-mm",
             "-o", "-s", "-t", "-texres", "-type"}
InnerKw  == {"spectral", "xyz", "-halo"} \cup OptionKw
KeyWords == StatementKw \cup InnerKw

NumberEnd == White \cup {"#"}

Lexeme(t, i) ==
  LET e    == SkipTo(t, i, White)
      word == IF e - i <= 10 THEN Str(Lower(SubSeq(t, i, e - 1))) ELSE ""
  IN
  IF word \in KeyWords /\ e <= Len(t)
  THEN LET k  == word
           a  == SkipIn(t, e, Blank)
           z  == SkipTo(t, a, White)
           kw == [t |-> "kw", k |-> k]
       IN  IF k = "newmtl" /\ a > e /\ a <= Len(t) /\ t[a] \notin Eol \cup {"#"}
           THEN [toks |-> <<kw, [t |-> "str", s |-> Str(SubSeq(t, a, z - 1))]>>, next |-> z]
           ELSE [toks |-> <<kw>>, next |-> e]
  ELSE IF t[i] = "#" THEN [toks |-> <<>>, next |-> SkipTo(t, i, Eol)]
  ELSE LET n   == SkipTo(t, i, NumberEnd)
           num == NumberToken(SubSeq(t, i, n - 1))
       IN  IF num # <<>> THEN [toks |-> num, next |-> n]
           ELSE [toks |-> <<[t |-> "str", s |-> Str(SubSeq(t, i, e - 1))]>>, next |-> e]

(* A fold over the positions: those before next are already read. *)
Lex(t) ==
  LET Read(a, i) == IF i < a.next THEN a
                    ELSE IF t[i] \in White THEN a
                    ELSE LET x == Lexeme(t, i) IN [toks |-> a.toks \o x.toks, next |-> x.next]
  IN  FoldLeft(Read, [toks |-> <<>>, next |-> 1], [i \in DOMAIN t |-> i]).toks

-----------------------------------------------------------------------------
Bad == [k |-> "bad"]

IsNum(x)  == x.t \in {"int", "real"}
NumsAt(a, i, n) == i + n - 1 <= Len(a) /\ \A j \in i..(i+n-1) : IsNum(a[j])
IsKw(x, k) == x.t = "kw" /\ x.k = k
Lits(a)   == [i \in DOMAIN a |-> a[i].x]

Colour(k, a) ==
  IF Len(a) = 3 /\ NumsAt(a, 1, 3)
  THEN [k |-> k, c |-> <<"rgb">> \o Lits(a)]
  ELSE IF Len(a) \in 2..3 /\ IsKw(a[1], "spectral") /\ a[2].t = "str"
          /\ NumsAt(a, 3, Len(a) - 2)
  THEN [k |-> k, c |-> <<"spectral", a[2].s>> \o (IF Len(a) = 3 THEN <<a[3].x>> ELSE <<"1">>)]
  ELSE IF Len(a) \in 2..4 /\ IsKw(a[1], "xyz") /\ NumsAt(a, 2, Len(a) - 1)
  THEN [k |-> k, c |-> <<"xyz", a[2].x,
                         IF Len(a) >= 3 THEN a[3].x ELSE a[2].x,
                         IF Len(a) = 4 THEN a[4].x ELSE a[2].x>>]
  ELSE Bad

(* How many numbers, at most 3, follow from position i on. *)
Run3(a, i) == IF NumsAt(a, i, 3) THEN 3 ELSE IF NumsAt(a, i, 2) THEN 2
              ELSE IF NumsAt(a, i, 1) THEN 1 ELSE 0
BadOption == [o |-> "bad"]
(* The options and file names of a texture map statement. *)
RECURSIVE Options(_)
Options(a) ==
  IF a = <<>> THEN <<>>
  ELSE IF a[1].t = "str" THEN <<[o |-> "file", s |-> a[1].s]>> \o Options(Tail(a))
  ELSE IF a[1].t # "kw" THEN <<BadOption>>
  ELSE LET k == a[1].k
           Rest(n) == Options(SubSeq(a, n + 2, Len(a)))
       IN  IF k \in {"-blendu", "-blendv", "-cc", "-clamp"}
           THEN IF IF Len(a) >= 2 /\ a[2].t = "str" THEN IsSwitch(a[2].s) ELSE FALSE
                THEN <<[o |-> k, b |-> OnWord(a[2].s)]>> \o Rest(1) ELSE <<BadOption>>
           ELSE IF k \in {"-imfchan", "-type"}
           THEN IF Len(a) >= 2 /\ a[2].t = "str"
                THEN <<[o |-> k, s |-> a[2].s]>> \o Rest(1) ELSE <<BadOption>>
           ELSE IF k = "-texres"
           THEN IF Len(a) >= 2 /\ a[2].t = "int"
                THEN <<[o |-> k, i |-> a[2].i]>> \o Rest(1) ELSE <<BadOption>>
           ELSE IF k = "-bm"
           THEN IF NumsAt(a, 2, 1) THEN <<[o |-> k, x |-> a[2].x]>> \o Rest(1) ELSE <<BadOption>>
           ELSE IF k = "-mm"
           THEN IF NumsAt(a, 2, 2) THEN <<[o |-> k, x |-> <<a[2].x, a[3].x>>]>> \o Rest(2)
                ELSE <<BadOption>>
           ELSE IF k \in {"-o", "-s", "-t"}
           THEN LET n == Run3(a, 2)
                IN  IF n = 0 THEN <<BadOption>>
                    ELSE <<[o |-> k, x |-> Lits(SubSeq(a, 2, n + 1))]>> \o Rest(n)
           ELSE <<BadOption>>                 \* -boost, spectral, xyz, -halo
TextureMap(k, a) ==
  LET o == Options(a)
  IN  IF \/ o = <<>>
         \/ \E i \in DOMAIN o : o[i].o = "bad"
         \/ Cardinality({i \in DOMAIN o : o[i].o = "file"}) > 1
      THEN Bad ELSE [k |-> k, o |-> o]

Statement(chunk) ==
  LET k == chunk[1].k
      a == Tail(chunk)
  IN  CASE k = "newmtl" -> IF Len(a) = 1 /\ a[1].t = "str" THEN [k |-> k, a |-> a[1].s] ELSE Bad
        [] k \in ColourKw -> Colour(k, a)
        [] k \in ScalarKw -> IF Len(a) = 1 /\ IsNum(a[1]) THEN [k |-> k, x |-> a[1].x] ELSE Bad
        [] k = "d" -> IF Len(a) = 1 /\ IsNum(a[1]) THEN [k |-> k, d |-> <<"alpha", a[1].x>>]
                      ELSE IF Len(a) = 2 /\ IsKw(a[1], "-halo") /\ IsNum(a[2])
                      THEN [k |-> k, d |-> <<"halo", a[2].x>>] ELSE Bad
        [] k = "illum" -> IF Len(a) = 1 /\ a[1].t = "int" THEN
                             IF a[1].i >= 0 THEN [k |-> k, i |-> a[1].i] ELSE Bad
                          ELSE Bad
        [] k = "map_aat" -> IF IF Len(a) = 1 /\ a[1].t = "str" THEN IsSwitch(a[1].s) ELSE FALSE
                            THEN [k |-> k, b |-> OnWord(a[1].s)] ELSE Bad
        [] k \in MapKw -> TextureMap(k, a)

Starts(x) == IF x.t = "kw" THEN x.k \in StatementKw ELSE FALSE
Chunks(toks) ==
  FoldLeft(LAMBDA cs, x : IF cs = <<>> \/ Starts(x) THEN Append(cs, <<x>>)
                          ELSE [cs EXCEPT ![Len(cs)] = Append(@, x)], <<>>, toks)
ChunkMeaning(c) == IF Starts(c[1]) THEN Statement(c) ELSE Bad
Statements(toks) == LET c == Chunks(toks) IN [i \in DOMAIN c |-> ChunkMeaning(c[i])]
=============================================================================
