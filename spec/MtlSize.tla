------------------------------- MODULE MtlSize -------------------------------
(***************************************************************************)
(* Material files in which one thing is large (C24): what load_mtl has to  *)
(* answer to each, printed for replay.                                     *)
(***************************************************************************)
EXTENDS Mtl, Sizes, Json
CONSTANTS Upto,     \* which sizes
          Units,    \* which units
          Parts

NL == "{0A}"
M(i) == "newmtl m" \o S(i) \o NL
Map(i) == "map_Kd -o " \o S(i) \o " " \o S(i + 1) \o " -s " \o S(i) \o " f" \o S(i) \o ".png" \o NL
AnyOf(i) ==
  CASE i % 11 = 0 -> "Kd " \o S(i) \o " 0.5 1" \o NL [] i % 11 = 1 -> "Ns " \o S(i) \o NL [] i % 11 = 2 -> "illum " \o S(i) \o NL
    [] i % 11 = 3 -> "d -halo " \o S(i) \o NL [] i % 11 = 4 -> "Ka xyz " \o S(i) \o NL [] i % 11 = 5 -> Map(i) [] i % 11 = 6 -> M(i)
    [] i % 11 = 7 -> "bump -bm " \o S(i) \o " b" \o NL [] i % 11 = 8 -> "refl -type sphere r" \o S(i) \o NL [] i % 11 = 9 -> "Ke spectral s" \o S(i) \o NL
    [] i % 11 = 10 -> "map_aat on" \o NL

NameLines == << "newmtl ", "map_Ka ", "map_Kd ", "map_Ks ", "map_Ns ", "map_d ", "disp ", "decal ", "bump ", "refl ", "Ka spectral ", "Tf spectral ", "map_Ka t -imfchan ", "refl t -type ", "newmtl " >>
Pieces(u, n) ==
  CASE u = "newmtl"   -> Each(n, M)
    [] u = "same"     -> Same(n, "newmtl m" \o NL)
    [] u = "coloured" -> Each(n, LAMBDA i : M(i) \o "Kd " \o S(i) \o " 0 1" \o NL)
    [] u = "pairs"    -> Each(n, LAMBDA i : M(i) \o (IF i % 2 = 0 THEN "Ks 1 2 3" \o NL ELSE "Ns " \o S(i) \o NL))
    [] u = "one"      -> <<M(0)>> \o Each(n, AnyOf)
    [] u = "many"     -> <<M(0)>> \o Each(n, LAMBDA i : M(i) \o AnyOf(i))
    [] u = "kd"       -> <<M(0)>> \o Each(n, LAMBDA i : "Kd " \o S(i) \o " 0 1" \o NL)
    [] u = "ns"       -> <<M(0)>> \o Each(n, LAMBDA i : "Ns " \o S(i) \o NL)
    [] u = "maps"     -> <<M(0)>> \o Each(n, Map)
    [] u = "options"  -> <<M(0) \o "map_Kd">> \o Each(n, LAMBDA i : " -texres " \o S(i)) \o <<" f.png" \o NL>>
    [] u = "switches" -> <<M(0) \o "map_Kd f.png">> \o Each(n, LAMBDA i : CASE i % 4 = 0 -> " -cc on" [] i % 4 = 1 -> " -clamp off" [] i % 4 = 2 -> " -blendu on" [] i % 4 = 3 -> " -blendv off") \o <<NL>>
    [] u = "offsets"  -> <<M(0) \o "disp">> \o Each(n, LAMBDA i : " -o " \o S(i) \o (IF i % 2 = 0 THEN " 2" ELSE "")) \o <<" f.png" \o NL>>
    [] u = "files"    -> <<M(0) \o "map_Ka">> \o Same(n, " f") \o <<NL>>
    [] u = "longName" -> <<"newmtl ">> \o Same(n, "n") \o <<NL \o "Ns 1" \o NL>>
    [] u = "longFile" -> <<M(0) \o "map_Ks ">> \o Each(n, LAMBDA i : IF i % 10 = 5 THEN "{65E5}" ELSE "n") \o <<NL>>
    [] u = "longAll"  -> Join([k \in DOMAIN NameLines |-> <<NameLines[k]>> \o <<"n">> \o Each(n, LAMBDA i : S(i % 10)) \o <<NL>>]) \o <<"Ns 1" \o NL>>
    [] u = "longPath" -> Join([k \in DOMAIN NameLines |-> <<NameLines[k]>> \o Same(n, "a/") \o <<"b" \o NL>>]) \o <<"Ns 1" \o NL>>
    [] u = "eachAll"  -> Each(n, LAMBDA i : M(i) \o "Ka " \o S(i) \o " 0 1" \o NL \o "Kd xyz " \o S(i) \o NL \o "Ks spectral f" \o S(i) \o NL \o "Ns " \o S(i) \o NL \o "d -halo " \o S(i) \o NL \o "illum " \o S(i % 11) \o NL \o Map(i) \o "bump b" \o S(i) \o NL \o "refl r" \o S(i) \o NL)
    [] u = "spectral" -> <<M(0) \o "Ka spectral ">> \o Same(n, "a") \o <<" 2" \o NL>>
    [] u = "wide1"    -> Lines3(NameLines, NL, 1, n)
    [] u = "wide2"    -> Lines3(NameLines, NL, 2, n)
    [] u = "wideBack" -> Lines3(NameLines, " -o 1" \o NL, 1, n)
    [] u = "wideNote" -> <<M(1) \o "#">> \o Word3(1, n) \o <<NL \o "Ns 1 #">> \o Word3(2, n) \o <<NL>>
    [] u = "wideOdd1" -> <<M(1)>> \o Word3(1, n) \o <<" 1" \o NL>>
    [] u = "wideOdd2" -> <<M(1)>> \o Word3(2, n)
    [] u = "wideNum1" -> <<M(1) \o "Ns 1">> \o Word3(1, n) \o <<NL>>
    [] u = "wideNum2" -> <<M(1) \o "Ka 1 2 ">> \o Word3(2, n) \o <<NL>>
    [] u = "wideFlag" -> <<M(1) \o "map_aat ">> \o Word3(1, n) \o <<NL>>
    [] u = "wideOpt"  -> <<M(1) \o "map_Ka -">> \o Word3(1, n) \o <<" 1 t" \o NL>>
    [] u = "digits"   -> <<M(0) \o "Kd ">> \o Same(n, "9") \o <<" 0.">> \o Same(n, "0") \o <<"1 ">> \o Same(n, "0") \o <<"7" \o NL>>
    [] u = "fraction" -> <<M(0) \o "Ns 0.">> \o Each(n, LAMBDA i : S(i % 10)) \o <<NL>>
    [] u = "exponent" -> <<M(0) \o "Tr 1e">> \o Same(n, "0") \o <<"1" \o NL \o "Ni 2e-">> \o Same(n, "0") \o <<"2" \o NL>>
    [] u = "zeros"    -> <<M(0) \o "illum ">> \o Same(n, "0") \o <<"2" \o NL>>
    [] u = "comments" -> Each(n, LAMBDA i : "# v " \o S(i) \o NL) \o <<M(1) \o "Ns 1" \o NL>>
    [] u = "comment"  -> <<M(1) \o "#">> \o Same(n, " v") \o <<NL \o "Ns 1" \o NL>>
    [] u = "empty"    -> <<M(1)>> \o Same(n, NL) \o <<"Ns 1" \o NL>>
    [] u = "blanks"   -> <<M(1) \o "Kd">> \o Same(n, " ") \o <<"1">> \o Same(n, "{09}") \o <<"2 3">> \o Same(n, " ") \o <<NL>>
    [] u = "indent"   -> Same(n, " ") \o <<"newmtl">> \o Same(n, "{09}") \o <<"a">> \o Same(n, " ") \o <<NL \o "Ns 1" \o NL>>
    [] u = "lateBad"  -> Each(n, M) \o <<"Ns x" \o NL>>
    [] u = "lateOdd"  -> <<M(0)>> \o Each(n, AnyOf) \o <<"zz 1" \o NL>>
    [] u = "headless" -> Same(n, "Ns 1" \o NL) \o <<"newmtl a" \o NL>>
    [] u = "surplus"  -> <<M(0) \o "Kd 1 2 3">> \o Same(n, " 4") \o <<NL>>
    [] u = "cr"       -> <<"newmtl a{0D}{0A}">> \o Each(n, LAMBDA i : "Ns " \o S(i) \o "{0D}{0A}")
    [] u = "value"    -> <<M(0) \o "illum " \o S(n) \o NL \o "map_Kd -texres " \o S(n) \o " f" \o NL \o "map_d -texres -" \o S(n) \o " f" \o NL>>
    [] u = "whole"    -> <<M(0) \o "Kd " \o S(n) \o " -" \o S(n) \o " 0" \o S(n) \o NL \o "Ns " \o S(n) \o ".5" \o NL \o "Tr 0." \o S(n) \o NL \o "bump -bm " \o S(n) \o " f" \o NL \o "disp -mm " \o S(n) \o " -" \o S(n) \o " f" \o NL>>
    [] u = "names"    -> <<"newmtl " \o S(n) \o NL \o "map_Ka " \o S(n) \o ".png" \o NL \o "Ke spectral " \o S(n) \o "_a" \o NL>>

Materials == {"newmtl", "same", "coloured", "pairs", "one", "many", "kd", "ns", "longName", "longAll", "longPath", "eachAll", "indent"}
MapUnits  == {"maps", "options", "switches", "offsets", "files", "longFile", "spectral"}
Others    == {"digits", "fraction", "exponent", "zeros", "comments", "comment", "empty", "blanks", "lateBad", "lateOdd", "headless", "surplus", "cr"}
Wides     == {"wide1", "wide2", "wideBack", "wideNote", "wideOdd1", "wideOdd2", "wideNum1", "wideNum2", "wideFlag", "wideOpt"}
OneLine   == {"longName", "longAll", "longFile", "spectral", "digits", "fraction", "zeros", "exponent", "comment", "comments", "surplus"}
ByValue   == {"value", "whole", "names"}
UnitSet == CASE Units = "materials" -> Materials [] Units = "maps" -> MapUnits [] Units = "others" -> Others [] Units = "wide" -> Wides [] Units = "oneLine" -> OneLine [] Units = "heavy" -> {"eachAll"}
             [] Units = "values" -> ByValue [] Units = "amounts" -> Materials \cup MapUnits \cup Others

(* Several statements for each of n: too slow for the largest n. *)
Heavy     == IF Upto \in {"thousand", "more", "large", "larger"} THEN {"eachAll"} ELSE {}

VARIABLES unit, n
Init == unit \in UnitSet \ Heavy /\ n = 0
Choose == /\ n = 0 /\ UNCHANGED unit
          /\ n' \in IF unit \in ByValue THEN Values ELSE SizeSet(Upto)
Spec == Init /\ [][Choose]_<<unit, n>>

(* Lexing line by line, for speed and shallow recursion. *)
Lexed(pieces) ==
  LET end(i) == LET c == Chars(pieces[i]) IN c[Len(c)] = "{0A}"
      ends == SelectSeq([i \in DOMAIN pieces |-> i], end)
      all  == IF ends # <<>> /\ ends[Len(ends)] = Len(pieces) THEN ends ELSE Append(ends, Len(pieces))
      Line(k) == LET from == IF k = 1 THEN 1 ELSE all[k - 1] + 1
                 IN  Lex(Join([i \in 1..(all[k] - from + 1) |-> Chars(pieces[from + i - 1])]))
  IN  Join([k \in DOMAIN all |-> Line(k)])
(* It is the same as lexing the text at once. *)
ByLine == n \in 1..12 => Lexed(Pieces(unit, n)) = Lex(Whole(Pieces(unit, n)))
Emit == n > 0 =>
        LET p == Pieces(unit, n)
        IN  PrintT(ToJson([ls |-> p, e |-> LoadStatements(Statements(Lexed(p)), Parts)]))
Literal(x) == x
=============================================================================
