------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Ways to lay out a line that is given as its words (encoded strings).    *)
(***************************************************************************)
EXTENDS Text

(* What the pieces of a layout may be; the first of each is the plain one.  *)
Leads  == << "", " ", "{09}", " {09}  " >>
Seps   == << " ", "{09}", "  ", " {09} {09}" >>
Ends   == << "{0A}", "{0D}{0A}", "{0D}", "{0A}{0A}", " {0D}{0A}", "{09} {0A}" >>
Cases  == << "asis", "upper", "lower", "mixed" >>
Notes  == << "", " # note", "#note", " #", "#", "{09}#v 9 9 9 / g z on -clamp", " ## {65E5} f 1" >>
Aboves == << "", "{0A}", "# c{0A}", "#{0A}", " {09} # newmtl z{0A}", "{0D}{0A}{09}{0D}{0A}", "#a{0D}#b{0D}{0A}#c{0A}{0A}", "# v 1 2 3{0D}" >>

Dims   == << Len(Leads), Len(Seps), Len(Ends), Len(Cases), Len(Notes), Len(Aboves) >>
Plain0 == << 1, 1, 1, 1, 1, 1 >>
(* Layouts that differ from the plain one in at most n places. *)
Distance(y) == Cardinality({i \in DOMAIN y : y[i] # 1})
OneOff == {[Plain0 EXCEPT ![i] = c] : <<i, c>> \in {<<i, c>> \in (1..6) \X (1..8) : c <= Dims[i]}}
TwoOff == {[y EXCEPT ![i] = c] : <<y, i, c>> \in {<<y, i, c>> \in OneOff \X (1..6) \X (1..8) : c <= Dims[i]}}

UpperOf == [c \in {LowerOf[x] : x \in DOMAIN LowerOf} |-> CHOOSE x \in DOMAIN LowerOf : LowerOf[x] = c]
Upper(t) == [i \in DOMAIN t |-> IF t[i] \in DOMAIN UpperOf THEN UpperOf[t[i]] ELSE t[i]]
(* Every other letter in capitals. *)
Mixed(t) == [i \in DOMAIN t |-> IF i % 2 = 0 THEN Upper(t)[i] ELSE Lower(t)[i]]
Cased(w, c) == CASE Cases[c] = "asis" -> w [] Cases[c] = "upper" -> Upper(w)
                 [] Cases[c] = "lower" -> Lower(w) [] Cases[c] = "mixed" -> Mixed(w)

(* words: texts; isKey[i]: word i is a keyword; numeric: the last word is a *)
(* number; noteAfterName: a note may follow, after a blank, in any case.    *)
Render(words, isKey, numeric, noteAfterName, y) ==
  LET sep == Chars(Seps[y[2]])
      w(i) == IF isKey[i] THEN Cased(words[i], y[4]) ELSE words[i]
      body == FoldLeft(LAMBDA a, i : IF i = 1 THEN w(1) ELSE a \o sep \o w(i), <<>>, [i \in DOMAIN words |-> i])
      n    == Notes[y[5]]
      note == IF numeric THEN n
              ELSE IF ~ noteAfterName \/ y[5] = 1 THEN ""
              ELSE IF y[5] \in {3, 5} THEN " " \o n ELSE n
  IN  Chars(Aboves[y[6]]) \o Chars(Leads[y[1]]) \o body \o Chars(note) \o Chars(Ends[y[3]])
PlainLine(words) == Render(words, [i \in DOMAIN words |-> FALSE], FALSE, FALSE, Plain0)

(* A text without its final line end. *)
Cut(t) == SubSeq(t, 1, BackOver(t, Len(t), Eol))
=============================================================================
