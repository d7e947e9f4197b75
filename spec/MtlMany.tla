------------------------------ MODULE MtlMany ------------------------------
(***************************************************************************)
(* Material files with tens of thousands of something (C24); see ObjMany.   *)
(***************************************************************************)
EXTENDS Mtl, Sizes, Json
CONSTANTS Units, Upto, Parts

NL == "{0A}"
Text1(u, n) ==
  CASE u = "newmtl"  -> Each(n, LAMBDA i : "newmtl m" \o S(i) \o NL)
    [] u = "same"    -> Each(n, LAMBDA i : "newmtl m" \o NL \o "Ns " \o S(i) \o NL)
    [] u = "equal"   -> Same(n, "newmtl m" \o NL)
    [] u = "equalEnds" -> <<"newmtl m" \o NL \o "Kd 1 2 3" \o NL>> \o Same(n, "newmtl m" \o NL \o "Kd 1 2 3" \o NL \o "map_Kd f" \o NL) \o <<"newmtl m" \o NL \o "Kd 1 2 3" \o NL>>
    [] u = "full"    -> Each(n, LAMBDA i : "newmtl m" \o S(i) \o NL \o "Kd " \o S(i) \o " 2 3" \o NL \o "illum " \o S(i % 11) \o NL \o "map_Kd -o " \o S(i) \o " f" \o S(i) \o NL)
    [] u = "again"   -> <<"newmtl a" \o NL>> \o Each(n, LAMBDA i : "Kd " \o S(i) \o " 2 3" \o NL \o "Ns " \o S(i) \o NL \o "d " \o S(i) \o NL \o "bump -bm " \o S(i) \o " b" \o NL)
    [] u = "first"   -> <<"newmtl a" \o NL \o "Ka 1 2 3" \o NL \o "newmtl b" \o NL>> \o Each(n, LAMBDA i : "Ka xyz " \o S(i) \o NL \o "illum " \o S(i) \o NL)
    [] u = "options" -> <<"newmtl a" \o NL \o "map_Kd f">> \o Each(n, LAMBDA i : " -texres " \o S(i) \o " -o " \o S(i) \o " 2") \o <<" -clamp on" \o NL \o "Ns 1" \o NL>>
    [] u = "flags"   -> <<"newmtl a" \o NL \o "disp">> \o Same(n, " -clamp off -blendu on -imfchan m") \o <<" -blendu off f" \o NL>>
    [] u = "extras"  -> <<"newmtl a" \o NL \o "bump f">> \o Each(n, LAMBDA i : " -bm " \o S(i)) \o <<NL \o "refl f">> \o Each(n, LAMBDA i : " -type sphere") \o <<NL>>
    [] u = "notes"   -> Each(n, LAMBDA i : "# " \o S(i) \o NL) \o <<"newmtl a" \o NL>> \o Each(n, LAMBDA i : "# " \o S(i) \o NL) \o <<"Ns 1 # a" \o NL>>
    [] u = "empty"   -> Same(n, NL) \o <<"newmtl a" \o NL \o "Ns">> \o Same(n, " ") \o <<"1">>
    [] u = "lateBad" -> Same(n, "newmtl a" \o NL) \o <<"Ns x" \o NL \o "newmtl a" \o NL>>
    [] u = "lateOdd" -> <<"newmtl a" \o NL>> \o Same(n, "Ns 1" \o NL) \o <<"zz" \o NL>>
    [] u = "files"   -> <<"newmtl a" \o NL \o "map_Kd f">> \o Same(n, " -clamp on") \o <<" 1 f" \o NL>>
    [] u = "blanksEnd" -> <<"newmtl a">> \o Same(n, " ") \o <<NL \o "Ns 1">> \o Same(n, "{09}") \o <<NL \o "map_Kd f">> \o Same(n, " ") \o <<NL \o "Kd 1 2 3">> \o Same(n, " ") \o <<"#" \o NL>>
    [] u = "blanksIn" -> <<"newmtl">> \o Same(n, " ") \o <<"a" \o NL \o "Ns">> \o Same(n, "{09}") \o <<"1" \o NL>> \o Same(n, " ") \o <<"Kd 1">> \o Same(n, " ") \o <<"2 3" \o NL \o "map_Kd">> \o Same(n, " ") \o <<"-clamp">> \o Same(n, " ") \o <<"on">> \o Same(n, " ") \o <<"f" \o NL>>
    [] u = "noteEnd" -> <<"newmtl a #">> \o Same(n, " b") \o <<NL \o "Ns 1#">> \o Same(n, "#") \o <<NL>>
    [] u = "longN"   -> <<"newmtl ">> \o Same(n, "n") \o <<NL \o "map_Ka ">> \o Same(n, "f") \o <<NL \o "refl -type ">> \o <<"sphere ">> \o Same(n, "{65E5}") \o <<NL>>
    [] u = "words"   -> <<"newmtl ">> \o Same(n, "-b") \o <<NL \o "disp ">> \o Same(n, "{E9}") \o <<NL>>
    [] u = "longWord" -> <<"newmtl a" \o NL>> \o Same(n, "z") \o <<NL>>
    [] u = "tail"    -> <<"newmtl a" \o NL \o "Ns 1 ">> \o Same(n, "x") \o <<NL>>
    [] u = "surplus" -> <<"newmtl a" \o NL \o "Kd 1 2 3">> \o Same(n, " 4") \o <<NL>>
    [] u = "odd0" -> <<"newmtl a" \o NL>> \o Word3(0, n) \o <<NL>> [] u = "arg0" -> <<"newmtl a" \o NL \o "Ns ">> \o Word3(0, n) \o <<NL>> [] u = "flag0" -> <<"newmtl a" \o NL \o "Ns 1" \o NL \o "map_aat ">> \o Word3(0, n) \o <<NL>>
    [] u = "files0" -> <<"newmtl a" \o NL \o "disp ">> \o Word3(0, n) \o <<" b" \o NL>> [] u = "option0" -> <<"newmtl a" \o NL \o "map_Kd -o ">> \o Word3(0, n) \o <<NL>> [] u = "mode0" -> <<"newmtl ">> \o Word3(0, n) \o <<NL \o "illum -1" \o NL>>
    [] u = "odd1" -> <<"newmtl a" \o NL>> \o Word3(1, n) \o <<NL>> [] u = "arg1" -> <<"newmtl a" \o NL \o "Ns ">> \o Word3(1, n) \o <<NL>> [] u = "flag1" -> <<"newmtl a" \o NL \o "Ns 1" \o NL \o "map_aat ">> \o Word3(1, n) \o <<NL>>
    [] u = "files1" -> <<"newmtl a" \o NL \o "disp ">> \o Word3(1, n) \o <<" b" \o NL>> [] u = "option1" -> <<"newmtl a" \o NL \o "map_Kd -o ">> \o Word3(1, n) \o <<NL>> [] u = "mode1" -> <<"newmtl ">> \o Word3(1, n) \o <<NL \o "illum -1" \o NL>>
    [] u = "odd2" -> <<"newmtl a" \o NL>> \o Word3(2, n) \o <<NL>> [] u = "arg2" -> <<"newmtl a" \o NL \o "Ns ">> \o Word3(2, n) \o <<NL>> [] u = "flag2" -> <<"newmtl a" \o NL \o "Ns 1" \o NL \o "map_aat ">> \o Word3(2, n) \o <<NL>>
    [] u = "files2" -> <<"newmtl a" \o NL \o "disp ">> \o Word3(2, n) \o <<" b" \o NL>> [] u = "option2" -> <<"newmtl a" \o NL \o "map_Kd -o ">> \o Word3(2, n) \o <<NL>> [] u = "mode2" -> <<"newmtl ">> \o Word3(2, n) \o <<NL \o "illum -1" \o NL>>
    [] u = "headless" -> Same(n, "Ns 1" \o NL) \o <<"newmtl a" \o NL>>
Odd(k)   == {k \o "0", k \o "1", k \o "2"}
Refusals == Odd("odd") \cup Odd("arg") \cup Odd("flag") \cup Odd("files") \cup Odd("option") \cup Odd("mode") \cup {"lateBad", "lateOdd", "files", "longWord", "tail", "surplus"}
Heads    == {"headless"}
One(m)   == <<[Material0("a") EXCEPT !.ns = m]>>
Materials1(u, n) ==
  CASE u = "newmtl"  -> Each(n, LAMBDA i : Material0("m" \o S(i)))
    [] u = "same"    -> Each(n, LAMBDA i : [Material0("m") EXCEPT !.ns = <<S(i)>>])
    [] u = "equal"   -> Same(n, Material0("m"))
    [] u = "equalEnds" -> LET m == [Material0("m") EXCEPT !.kd = <<<<"rgb", "1", "2", "3">>>>]
                          IN  <<m>> \o Same(n, [m EXCEPT !.map_kd = <<[CcMap0 EXCEPT !.file = "f"]>>]) \o <<m>>
    [] u = "full"    -> Each(n, LAMBDA i : [Material0("m" \o S(i)) EXCEPT !.kd = <<<<"rgb", S(i), "2", "3">>>>, !.illum = <<i % 11>>,
                                               !.map_kd = <<[CcMap0 EXCEPT !.file = "f" \o S(i), !.o = <<<<S(i)>>>>]>>])
    [] u = "again"   -> <<[Material0("a") EXCEPT !.kd = <<<<"rgb", S(n), "2", "3">>>>, !.ns = <<S(n)>>, !.d = <<<<"alpha", S(n)>>>>,
                              !.bump = <<[bm |-> <<S(n)>>, map |-> <<[PlainMap0 EXCEPT !.file = "b"]>>]>>]>>
    [] u = "first"   -> <<[Material0("a") EXCEPT !.ka = <<<<"rgb", "1", "2", "3">>>>],
                          [Material0("b") EXCEPT !.ka = <<<<"xyz", S(n), S(n), S(n)>>>>, !.illum = <<n>>]>>
    [] u = "options" -> <<[Material0("a") EXCEPT !.ns = <<"1">>, !.map_kd = <<[CcMap0 EXCEPT !.file = "f", !.res = <<n>>, !.o = <<<<S(n), "2">>>>, !.clamp = <<TRUE>>]>>]>>
    [] u = "flags"   -> <<[Material0("a") EXCEPT !.disp = <<[PlainMap0 EXCEPT !.file = "f", !.clamp = <<FALSE>>, !.bu = <<FALSE>>, !.chan = <<"m">>]>>]>>
    [] u = "extras"  -> <<[Material0("a") EXCEPT !.bump = <<[bm |-> <<"1">>, map |-> <<[PlainMap0 EXCEPT !.file = "f"]>>]>>,
                              !.refl = <<[ty |-> "sphere", map |-> <<[CcMap0 EXCEPT !.file = "f"]>>]>>]>>
    [] u = "blanksEnd" -> <<[Material0("a") EXCEPT !.ns = <<"1">>, !.kd = <<<<"rgb", "1", "2", "3">>>>, !.map_kd = <<[CcMap0 EXCEPT !.file = "f"]>>]>>
    [] u = "blanksIn" -> <<[Material0("a") EXCEPT !.ns = <<"1">>, !.kd = <<<<"rgb", "1", "2", "3">>>>, !.map_kd = <<[CcMap0 EXCEPT !.file = "f", !.clamp = <<TRUE>>]>>]>>
    [] u = "longN"   -> <<[Material0(Rep("n", n)) EXCEPT !.map_ka = <<[CcMap0 EXCEPT !.file = Rep("f", n)]>>, !.refl = <<[ty |-> "sphere", map |-> <<[CcMap0 EXCEPT !.file = Rep("{65E5}", n)]>>]>>]>>
    [] u = "words"   -> <<[Material0(Rep("-b", n)) EXCEPT !.disp = <<[PlainMap0 EXCEPT !.file = Rep("{E9}", n)]>>]>>
    [] u \in {"notes", "empty", "noteEnd"} -> <<[Material0("a") EXCEPT !.ns = <<"1">>]>>

Sections == {"newmtl", "same", "equal", "equalEnds", "full", "again", "first"}
Maps     == {"options", "flags", "extras"}
Layouts  == {"notes", "empty", "blanksEnd", "blanksIn", "noteEnd"}
Long     == {"longN", "words"}
UnitSet == CASE Units = "sections" -> Sections [] Units = "maps" -> Maps [] Units = "layouts" -> Layouts
             [] Units = "long" -> Long
             [] Units = "refusals" -> Refusals \cup Heads
             [] Units = "all" -> Sections \cup Maps \cup Layouts \cup Long \cup Refusals \cup Heads

Answer(u, n) == IF u \in Refusals THEN Refused ELSE IF u \in Heads THEN NotNewMtl ELSE View(Materials1(u, n), Parts)

VARIABLES unit, n
Init == unit \in UnitSet /\ n = 0
Choose == n = 0 /\ UNCHANGED unit /\ n' \in 1..12 \cup {40} \cup ManySizes(Upto)
Spec == Init /\ [][Choose]_<<unit, n>>

ClosedForm ==
  n \in 1..40 => LET ss == Statements(Lex(Whole(Text1(unit, n))))
                 IN  IF unit \in Refusals THEN AnyBad(ss)
                     ELSE /\ ~AnyBad(ss)
                          /\ IF unit \in Heads THEN ss[1].k # "newmtl" ELSE After(<<>>, ss) = Materials1(unit, n)
Emit == n > 0 => PrintT(ToJson([ls |-> Text1(unit, n), e |-> Answer(unit, n)]))
Literal(x) == x
=============================================================================
