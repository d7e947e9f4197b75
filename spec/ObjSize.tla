------------------------------- MODULE ObjSize -------------------------------
(***************************************************************************)
(* Model files in which one thing is large (C24): what load_obj has to     *)
(* answer to each, printed for replay.                                     *)
(***************************************************************************)
EXTENDS Obj, Sizes, Json
CONSTANTS Upto,     \* which sizes
          Units,    \* which units
          Fields

NL == "{0A}"
F(i) == "f " \o S(i) \o " " \o S(i + 1) \o " " \o S(i + 2) \o NL
V(i) == "v " \o S(i) \o " " \o S(i) \o ".5 -" \o S(i) \o NL
Mixed(i) ==
  CASE i % 9 = 0 -> V(i) [] i % 9 = 1 -> "f " \o S(i) \o " -1" \o NL [] i % 9 = 2 -> "g m" \o S(i % 4) \o NL
    [] i % 9 = 3 -> "s " \o S(i) \o NL [] i % 9 = 4 -> "usemtl m" \o S(i) \o NL [] i % 9 = 5 -> "l " \o S(i) \o " -1" \o NL
    [] i % 9 = 6 -> "vt " \o S(i) \o NL [] i % 9 = 7 -> "p -1 " \o S(i) \o NL [] i % 9 = 8 -> "mtllib " \o S(i) \o NL

NameLines == << "g ", "o ", "usemtl ", "usemap ", "shadow_obj ", "trace_obj ", "mtllib ", "maplib " >>

(* n of something: the pieces of the text. *)
Pieces(u, n) ==
  CASE u = "v"        -> Each(n, V)
    [] u = "vw"       -> Each(n, LAMBDA i : "v 1 2 3" \o (IF i % 2 = 0 THEN " 1" ELSE "") \o NL)
    [] u = "vSame"    -> Same(n, "v 1 2 3" \o NL)
    [] u = "vn"       -> Each(n, LAMBDA i : "vn 0 -" \o S(i) \o " 1" \o NL)
    [] u = "vt"       -> Each(n, LAMBDA i : "vt " \o S(i) \o (IF i % 3 > 0 THEN " 2" ELSE "") \o (IF i % 3 > 1 THEN " 3" ELSE "") \o NL)
    [] u = "f"        -> Each(n, F)
    [] u = "l"        -> Each(n, LAMBDA i : "l " \o S(i) \o " " \o S(i + 1) \o NL)
    [] u = "p"        -> Each(n, LAMBDA i : "p " \o S(i) \o NL)
    [] u = "mixed"    -> Each(n, Mixed)
    [] u = "fRefs"    -> <<"f">> \o Each(n, LAMBDA i : " " \o S(i)) \o <<NL>>
    [] u = "fRefs3"   -> <<"f">> \o Each(n, LAMBDA i : " " \o S(i) \o "/" \o S(i + 1) \o "/" \o S(i + 2)) \o <<NL>>
    [] u = "fForms"   -> <<"f">> \o Each(n, LAMBDA i : CASE i % 4 = 0 -> " 1" [] i % 4 = 1 -> " " \o S(i) \o "/2" [] i % 4 = 2 -> " 3//" \o S(i) [] i % 4 = 3 -> " 4/5/6") \o <<NL>>
    [] u = "lRefs"    -> <<"l">> \o Each(n, LAMBDA i : " " \o S(i) \o (IF i % 2 = 0 THEN "/" \o S(i) ELSE "")) \o <<NL>>
    [] u = "pRefs"    -> <<"p">> \o Each(n, LAMBDA i : " " \o S(i)) \o <<NL>>
    [] u = "backRefs" -> Same(n, "v 1 2 3" \o NL) \o <<"f -1 -2 -" \o S(n) \o " -" \o S(n + 1) \o NL>>
    [] u = "backText" -> Same(n, "vt 1" \o NL) \o <<"f 1/-1 2/-" \o S(n) \o " 3/-" \o S(n + 1) \o NL \o "l 1/-" \o S(n) \o NL>>
    [] u = "backNorm" -> Same(n, "vn 1 2 3" \o NL) \o <<"f 1//-1 2//-" \o S(n) \o " 3//-" \o S(n + 1) \o NL>>
    [] u = "relMany"  -> Each(n, LAMBDA i : "v " \o S(i) \o " 2 3" \o NL \o "vt 1" \o NL \o "vn 1 2 3" \o NL \o "f -1/-1/-1 -" \o S(i) \o "/-" \o S(i) \o "/-" \o S(i + 1) \o NL \o "l -1/-1 -2" \o NL \o "p -1 -" \o S(i) \o NL)
    [] u = "backMany" -> <<"v 1 2 3" \o NL>> \o <<"f">> \o Same(n, " -1") \o <<NL>>
    [] u = "groups"   -> Each(n, LAMBDA i : "g g" \o S(i) \o NL \o "f " \o S(i) \o NL)
    [] u = "again"    -> Each(n, LAMBDA i : "g g" \o S(i % 7) \o NL \o "f " \o S(i) \o NL)
    [] u = "inGroup"  -> <<"g a" \o NL>> \o Each(n, F)
    [] u = "gNames"   -> <<"g a0" \o NL>> \o Each(n, LAMBDA i : "a" \o S(i) \o NL) \o <<"f 1 2 3" \o NL \o "usemtl m" \o NL>>
    [] u = "gSame"    -> <<"g a" \o NL>> \o Same(n, "a" \o NL) \o <<"f 1 2 3" \o NL>>
    [] u = "gAll"     -> <<"g a0" \o NL>> \o Each(n, LAMBDA i : "a" \o S(i) \o NL) \o <<"usemtl m" \o NL \o "usemap t" \o NL \o "bevel on" \o NL \o "c_interp on" \o NL \o "d_interp on" \o NL \o "lod 5" \o NL \o "s 4" \o NL \o "f 1" \o NL \o "l 2" \o NL \o "p 3" \o NL \o "g b" \o NL \o "usemtl n" \o NL>>
    [] u = "perGroup" -> Each(n, LAMBDA i : "g g" \o S(i) \o NL \o "usemtl m" \o S(i) \o NL \o "usemap t" \o S(i) \o NL \o "bevel on" \o NL \o "lod " \o S(i % 101) \o NL \o "v 1 2 3" \o NL \o "f -1" \o NL \o "l -1 " \o S(i) \o NL \o "p -" \o S(i) \o NL)
    [] u = "inGroupL" -> <<"g a" \o NL>> \o Each(n, LAMBDA i : "l " \o S(i) \o " -1" \o NL \o "p " \o S(i) \o NL)
    [] u = "sRuns"    -> <<"s 3" \o NL>> \o Each(n, F) \o <<"g a" \o NL>> \o Each(n, F) \o <<"s off" \o NL>> \o Each(n, F)
    [] u = "settings" -> <<"g a" \o NL>> \o Each(n, LAMBDA i : CASE i % 6 = 0 -> "usemtl m" \o S(i) \o NL [] i % 6 = 1 -> "usemap t" \o S(i) \o NL [] i % 6 = 2 -> "bevel " \o (IF i % 4 = 0 THEN "on" ELSE "off") \o NL [] i % 6 = 3 -> "c_interp on" \o NL [] i % 6 = 4 -> "d_interp on" \o NL [] i % 6 = 5 -> "lod " \o S(i % 101) \o NL)
    [] u = "usemtl"   -> Each(n, LAMBDA i : "usemtl m" \o S(i) \o NL)
    [] u = "smooth"   -> Each(n, LAMBDA i : "s " \o S(i) \o NL \o "f 1" \o NL)
    [] u = "keepMtl"  -> <<"g a" \o NL \o "usemtl m" \o NL>> \o Each(n, LAMBDA i : "g b" \o S(i) \o NL) \o <<"g a" \o NL \o "bevel on" \o NL>>
    [] u = "mtllib"   -> Each(n, LAMBDA i : "mtllib m" \o S(i) \o NL)
    [] u = "libNames" -> <<"mtllib m0" \o NL>> \o Each(n, LAMBDA i : "m" \o S(i % 9) \o NL)
    [] u = "maplib"   -> Same(n, "maplib m" \o NL)
    [] u = "shadow"   -> Each(n, LAMBDA i : "shadow_obj m" \o S(i) \o NL \o "trace_obj t" \o S(i) \o NL)
    [] u = "objects"  -> Each(n, LAMBDA i : "o o" \o S(i) \o NL) \o <<"v 1 2 3" \o NL>>
    [] u = "longName" -> <<"g ">> \o Each(n, LAMBDA i : IF i % 10 = 5 THEN " x" ELSE "n") \o <<NL \o "f 1" \o NL>>
    [] u = "longAll"  -> Join([k \in DOMAIN NameLines |-> <<NameLines[k]>> \o Each(n, LAMBDA i : S(i % 10)) \o <<NL>>]) \o <<"f 1" \o NL>>
    [] u = "longPath" -> Join([k \in DOMAIN NameLines |-> <<NameLines[k]>> \o Same(n, "a/") \o <<"b c" \o NL>>]) \o <<"f 1" \o NL>>
    [] u = "longMtl"  -> <<"usemtl ">> \o Same(n, "n") \o <<NL>>
    [] u = "longLib"  -> <<"mtllib ">> \o Same(n, "{65E5}") \o <<NL>>
    [] u = "wide1"    -> Lines3(NameLines, NL, 1, n)
    [] u = "wide2"    -> Lines3(NameLines, NL, 2, n)
    [] u = "wideMore" -> <<"mtllib a" \o NL>> \o Word3(1, n) \o <<NL>> \o Word3(2, n) \o <<NL \o "g b" \o NL>> \o Word3(1, n) \o <<NL>> \o Word3(2, n) \o <<NL \o "s ">> \o Word3(1, n) \o <<NL \o "f 1" \o NL>>
    [] u = "wideNote" -> <<"#">> \o Word3(1, n) \o <<NL \o "v 1 2 3 #">> \o Word3(2, n) \o <<NL>>
    [] u = "wideOdd1" -> <<"v 1 2 3" \o NL>> \o Word3(1, n) \o <<" 1" \o NL>>
    [] u = "wideOdd2" -> <<"v 1 2 3" \o NL>> \o Word3(2, n)
    [] u = "wideNum1" -> <<"v 1 2 3">> \o Word3(1, n) \o <<NL>>
    [] u = "wideNum2" -> <<"f 1/2/">> \o Word3(0, n) \o <<" 5" \o NL>>
    [] u = "wideFlag" -> <<"bevel ">> \o Word3(1, n) \o <<NL>>
    [] u = "wideLod"  -> <<"lod ">> \o Word3(2, n) \o <<NL>>
    [] u = "digits"   -> <<"v ">> \o Same(n, "9") \o <<" 0.">> \o Same(n, "0") \o <<"1 ">> \o Same(n, "0") \o <<"7" \o NL>>
    [] u = "fraction" -> <<"vt 0.">> \o Each(n, LAMBDA i : S(i % 10)) \o <<NL>>
    [] u = "zeros"    -> <<"f ">> \o Same(n, "0") \o <<"12" \o NL \o "s ">> \o Same(n, "0") \o <<"3" \o NL>>
    [] u = "exponent" -> <<"v 1e">> \o Same(n, "0") \o <<"1 2e-">> \o Same(n, "0") \o <<"2 3" \o NL>>
    [] u = "comments" -> Each(n, LAMBDA i : "# v " \o S(i) \o NL) \o <<"v 1 2 3" \o NL>>
    [] u = "comment"  -> <<"#">> \o Same(n, " v") \o <<NL \o "v 1 2 3" \o NL>>
    [] u = "notes"    -> Each(n, LAMBDA i : V(i) \o "#" \o S(i) \o NL)
    [] u = "empty"    -> <<"v 1 2 3" \o NL>> \o Same(n, NL) \o <<"f 1" \o NL>>
    [] u = "blanks"   -> <<"v">> \o Same(n, " ") \o <<"1">> \o Same(n, "{09}") \o <<"2 3">> \o Same(n, " ") \o <<NL>>
    [] u = "indent"   -> Same(n, " ") \o <<"g">> \o Same(n, "{09}") \o <<"a">> \o Same(n, " ") \o <<NL \o "f 1" \o NL>>
    [] u = "lateBad"  -> Each(n, V) \o <<"f x" \o NL>>
    [] u = "lateOdd"  -> Each(n, F) \o <<"zz 1" \o NL>>
    [] u = "surplus"  -> <<"v 1 2 3">> \o Same(n, " 4") \o <<NL>>
    [] u = "cr"       -> Each(n, LAMBDA i : "p " \o S(i) \o "{0D}{0A}")
    [] u = "value"    -> <<"v 1 2 3" \o NL \o "f " \o S(n) \o " 1/" \o S(n) \o " 1//" \o S(n) \o NL \o "l " \o S(n) \o NL \o "p " \o S(n) \o NL \o "s " \o S(n) \o NL \o "f 1" \o NL>>
    [] u = "minus"    -> <<"v 1 2 3" \o NL \o "f -" \o S(n) \o " 1/-" \o S(n) \o " 1//-" \o S(n) \o NL \o "l -" \o S(n) \o NL \o "p -" \o S(n) \o NL \o "s -" \o S(n) \o NL \o "f 1" \o NL>>
    [] u = "whole"    -> <<"v " \o S(n) \o " -" \o S(n) \o " 0" \o S(n) \o NL \o "vt " \o S(n) \o ".5" \o NL \o "vt 0." \o S(n) \o NL>>
    [] u = "names"    -> <<"g " \o S(n) \o NL \o "usemtl " \o S(n) \o NL \o "o " \o S(n) \o NL \o "lod " \o S(n % 101) \o NL \o "f 1" \o NL>>

Data    == {"v", "vw", "vSame", "vn", "vt", "digits", "fraction", "exponent"}
Elems   == {"f", "l", "p", "fRefs", "fRefs3", "fForms", "lRefs", "pRefs", "backRefs", "backText", "backNorm", "backMany", "relMany", "zeros"}
Grouped == {"groups", "again", "inGroup", "gNames", "gSame", "usemtl", "smooth", "keepMtl", "gAll", "perGroup", "inGroupL", "sRuns", "settings", "longName", "longMtl", "longAll", "longPath", "indent"}
Others  == {"mixed", "mtllib", "libNames", "maplib", "shadow", "objects", "longLib", "comments", "comment", "notes", "empty", "blanks", "lateBad", "lateOdd", "surplus", "cr"}
Wides   == {"wide1", "wide2", "wideMore", "wideNote", "wideOdd1", "wideOdd2", "wideNum1", "wideNum2", "wideFlag", "wideLod"}
OneLine == {"longName", "longMtl", "longAll", "longLib", "digits", "fraction", "zeros", "exponent", "comment", "comments", "surplus"}
ByValue == {"value", "minus", "whole", "names"}
UnitSet == CASE Units = "data" -> Data [] Units = "elems" -> Elems [] Units = "grouped" -> Grouped [] Units = "others" -> Others [] Units = "wide" -> Wides [] Units = "oneLine" -> OneLine [] Units = "heavy" -> {"relMany", "perGroup", "inGroupL", "sRuns"}
             [] Units = "values" -> ByValue [] Units = "amounts" -> Data \cup Elems \cup Grouped \cup Others

(* Several statements for each of n: too slow for the largest n. *)
Heavy   == IF Upto \in {"thousand", "more", "large", "larger"} THEN {"relMany", "perGroup", "inGroupL", "sRuns"} ELSE {}

VARIABLES unit, n
Init == unit \in UnitSet \ Heavy /\ n = 0
Choose == /\ n = 0 /\ UNCHANGED unit
          /\ n' \in IF unit \in ByValue THEN Values ELSE SizeSet(Upto)
Spec == Init /\ [][Choose]_<<unit, n>>

(* Lexing line by line, for speed and shallow recursion. *)
Lexed(pieces) ==
  LET end(i) == LET c == Chars(pieces[i]) IN c[Len(c)] = "{0A}"
      ends == SelectSeq([i \in DOMAIN pieces |-> i], end)
      all  == IF ends # <<>> /\ ends[Len(ends)] = Len(pieces) THEN ends ELSE Append(ends, Len(pieces))
      Line(k) == LET from == IF k = 1 THEN 1 ELSE all[k - 1] + 1
                 IN  Lex(Join([i \in 1..(all[k] - from + 1) |-> Chars(pieces[from + i - 1])]))
  IN  Join([k \in DOMAIN all |-> Line(k)])
(* It is the same as lexing the text at once. *)
ByLine == n \in 1..12 => Lexed(Pieces(unit, n)) = Lex(Whole(Pieces(unit, n)))
Emit == n > 0 =>
        LET p == Pieces(unit, n)
        IN  PrintT(ToJson([ls |-> p, e |-> LoadStatements(Statements(Lexed(p)), Fields)]))
Literal(x) == x
=============================================================================
