------------------------------ MODULE ObjMany ------------------------------
(***************************************************************************)
(* Model files with tens of thousands of something (C24).  Too many for     *)
(* the machine to read one by one: their models are said at once, and TLC   *)
(* checks that it is what the machine makes of them for every small number  *)
(* (ClosedForm).                                                           *)
(***************************************************************************)
EXTENDS Obj, Sizes, Json
CONSTANTS Units, Upto, Fields

NL == "{0A}"
Ref(v)        == [v |-> v, t |-> <<>>, n |-> <<>>]
Face(s, refs) == [s |-> s, r |-> refs]
PlainLine(v)  == <<[v |-> v, t |-> <<>>]>>
In(g, list)   == [x \in {g} |-> list]
Index(name)   == atoi(SubSeq(name, 2, Len(name)))       \* of g17: 17
Names1(l, n)  == {l \o S(i) : i \in 1..n}
With(m, c, v) == [m EXCEPT ![c] = v]
Groups(m, G, set) == With(m, "g", [x \in G \cup {"default"} |-> IF x \in G THEN set ELSE Settings0])
Triple(i)     == <<S(i), "2", "3">>

(* n of something: the text, and its model. *)
Text1(u, n) ==
  CASE u = "v"      -> Each(n, LAMBDA i : "v " \o S(i) \o " 2 3" \o NL)
    [] u = "vn"     -> Each(n, LAMBDA i : "vn " \o S(i) \o " 2 3" \o NL)
    [] u = "vt"     -> Each(n, LAMBDA i : "vt " \o S(i) \o NL)
    [] u = "same"   -> Same(n, "v 1 2 3 4" \o NL \o "vt 1 2 3" \o NL)
    [] u = "sameN"  -> Same(n, "vn 1 2 3" \o NL)
    [] u = "sameF"  -> Same(n, "f 1 2 3" \o NL)
    [] u = "sameLP" -> <<"g a" \o NL>> \o Same(n, "l 1 2" \o NL \o "p 1" \o NL)
    [] u = "sameLib" -> Same(n, "mtllib m" \o NL \o "maplib m" \o NL)
    [] u = "f"      -> Each(n, LAMBDA i : "f " \o S(i) \o " 2" \o NL)
    [] u = "l"      -> Each(n, LAMBDA i : "l " \o S(i) \o NL)
    [] u = "p"      -> Each(n, LAMBDA i : "p " \o S(i) \o NL)
    [] u = "fRefs"  -> <<"f">> \o Each(n, LAMBDA i : " " \o S(i) \o "/" \o S(i + 1) \o "/" \o S(i + 2)) \o <<NL>>
    [] u = "lRefs"  -> <<"l">> \o Each(n, LAMBDA i : " " \o S(i) \o "/" \o S(i + 1)) \o <<NL>>
    [] u = "pRefs"  -> <<"p">> \o Each(n, LAMBDA i : " " \o S(i)) \o <<NL>>
    [] u = "rel"    -> Each(n, LAMBDA i : "v 1 2 3" \o NL \o "vt 1" \o NL \o "vn 1 2 3" \o NL \o "f -1/-1/-1 -" \o S(i) \o "//-" \o S(i) \o NL)
    [] u = "relEnd" -> Same(n, "v 1 2 3" \o NL \o "vt 1" \o NL \o "vn 1 2 3" \o NL)
                       \o <<"f -1/-1/-1 -" \o S(n) \o "/-" \o S(n) \o "/-" \o S(n) \o " -" \o S(n + 1) \o "//-" \o S(n + 1) \o NL,
                            "l -1/-1 -" \o S(n) \o "/-" \o S(n) \o " -" \o S(n + 1) \o NL,
                            "p -1 -" \o S(n) \o " -" \o S(n + 1) \o NL>>
    [] u = "groups" -> Each(n, LAMBDA i : "g g" \o S(i) \o NL \o "f " \o S(i) \o NL \o "usemtl m" \o S(i) \o NL)
    [] u = "gNames" -> <<"g g1" \o NL>> \o Each(n - 1, LAMBDA i : "g" \o S(i + 1) \o NL) \o <<"p 5" \o NL \o "lod 7" \o NL \o "usemap t" \o NL>>
    [] u = "again"  -> Each(n, LAMBDA i : "g a" \o NL \o "p " \o S(i) \o NL \o "g b" \o NL \o "l " \o S(i) \o NL)
    [] u = "libs"   -> Each(n, LAMBDA i : "mtllib m" \o S(i) \o NL \o "maplib t" \o NL)
    [] u = "libList" -> <<"mtllib m1" \o NL>> \o Each(n - 1, LAMBDA i : "m" \o S(i + 1) \o NL) \o <<"maplib t1" \o NL>> \o Each(n - 1, LAMBDA i : "t" \o S(i + 1) \o NL)
    [] u = "usemtl" -> Each(n, LAMBDA i : "usemtl m" \o S(i) \o NL \o "usemap t" \o S(i) \o NL \o "lod " \o S(i % 101) \o NL)
    [] u = "flags"  -> Each(n, LAMBDA i : "bevel on" \o NL \o "bevel off" \o NL \o "c_interp off" \o NL \o "c_interp on" \o NL)
    [] u = "smooth" -> Each(n, LAMBDA i : "s " \o S(i) \o NL \o "f 1" \o NL)
    [] u = "smoothRun" -> <<"s 9" \o NL>> \o Same(n, "f 1" \o NL) \o <<"s off" \o NL \o "f 2" \o NL>>
    [] u = "names"  -> Each(n, LAMBDA i : "o o" \o S(i) \o NL \o "shadow_obj s" \o S(i) \o NL \o "trace_obj t" \o S(i) \o NL)
    [] u = "notes"  -> Each(n, LAMBDA i : "# " \o S(i) \o NL) \o <<"v 1 2 3 # a" \o NL>>
    [] u = "empty"  -> Same(n, NL) \o <<"v 1 2 3" \o NL>> \o Same(n, " ") \o <<NL \o "v 1 2 3">>
    [] u = "lateBad" -> Same(n, "v 1 2 3" \o NL) \o <<"v 1 2" \o NL \o "v 1 2 3" \o NL>>
    [] u = "lateOdd" -> Same(n, "f 1 2 3" \o NL) \o <<"zz" \o NL>>
    [] u = "blanksEnd" -> <<"g a">> \o Same(n, " ") \o <<NL \o "usemtl m">> \o Same(n, "{09}") \o <<NL \o "mtllib x y">> \o Same(n, " ") \o <<NL \o "f 1 2 3">> \o Same(n, " ") \o <<NL \o "lod 3">> \o Same(n, "{09}") \o <<NL>>
    [] u = "blanksIn" -> <<"g">> \o Same(n, " ") \o <<"a" \o NL \o "f 1">> \o Same(n, " ") \o <<"2" \o NL \o "v{09}1 2">> \o Same(n, "{09}") \o <<"3" \o NL \o "maplib t">> \o <<NL>> \o Same(n, " ") \o <<"bevel">> \o Same(n, " ") \o <<"on" \o NL \o "s">> \o Same(n, " ") \o <<"4" \o NL>>
    [] u = "noteEnd" -> <<"g a" \o NL \o "f 1 2 #">> \o Same(n, "#") \o <<NL \o "lod 3 # ">> \o Same(n, "b ") \o <<NL \o "s 4 # ">> \o Same(n, "x") \o <<NL>>
    [] u = "slashes" -> <<"f 1">> \o Same(n, "/") \o <<" 2" \o NL>>
    [] u = "longG"   -> <<"g ">> \o Same(n, "n") \o <<NL \o "f 1" \o NL \o "usemtl ">> \o Same(n, "m") \o <<NL>>
    [] u = "longT"   -> <<"g ">> \o Same(n, "{65E5}") \o <<NL \o "p 1" \o NL \o "usemap ">> \o Same(n, "{E9}") \o <<NL \o "mtllib ">> \o Same(n, "a") \o <<NL \o "trace_obj ">> \o Same(n, "t") \o <<NL>>
    [] u = "words"   -> <<"usemap a">> \o Same(n, " b") \o <<NL \o "shadow_obj a">> \o Same(n, "{09}c") \o <<NL \o "o x">> \o Same(n, " y") \o <<NL>>
    [] u = "longWord" -> Same(n, "z") \o <<NL>>
    [] u = "tail"    -> <<"v 1 2 3 ">> \o Same(n, "x") \o <<NL>>
    [] u = "surplus" -> <<"vn 1 2 3">> \o Same(n, " 4") \o <<NL>>
    [] u = "odd0" -> <<"v 1 2 3" \o NL>> \o Word3(0, n) \o <<NL>> [] u = "first0" -> Word3(0, n) \o <<NL \o "v 1 2 3" \o NL>>
    [] u = "arg0" -> <<"v 1 2 ">> \o Word3(0, n) \o <<NL>> [] u = "flag0" -> <<"v 1 2 3" \o NL \o "bevel ">> \o Word3(0, n) \o <<NL>> [] u = "ref0" -> <<"f 1/2 ">> \o Word3(0, n) \o <<NL>>
    [] u = "odd1" -> <<"v 1 2 3" \o NL>> \o Word3(1, n) \o <<NL>> [] u = "first1" -> Word3(1, n) \o <<NL \o "v 1 2 3" \o NL>>
    [] u = "arg1" -> <<"v 1 2 ">> \o Word3(1, n) \o <<NL>> [] u = "flag1" -> <<"v 1 2 3" \o NL \o "bevel ">> \o Word3(1, n) \o <<NL>> [] u = "ref1" -> <<"f 1/2 ">> \o Word3(1, n) \o <<NL>>
    [] u = "odd2" -> <<"v 1 2 3" \o NL>> \o Word3(2, n) \o <<NL>> [] u = "first2" -> Word3(2, n) \o <<NL \o "v 1 2 3" \o NL>>
    [] u = "arg2" -> <<"v 1 2 ">> \o Word3(2, n) \o <<NL>> [] u = "flag2" -> <<"v 1 2 3" \o NL \o "bevel ">> \o Word3(2, n) \o <<NL>> [] u = "ref2" -> <<"f 1/2 ">> \o Word3(2, n) \o <<NL>>
    [] u = "longBad" -> <<"f">> \o Same(n, " 1") \o <<" x" \o NL>>
Odd(k)   == {k \o "0", k \o "1", k \o "2"}
Refusals == Odd("odd") \cup Odd("first") \cup Odd("arg") \cup Odd("flag") \cup Odd("ref") \cup {"lateBad", "lateOdd", "longBad", "longWord", "tail", "surplus"}
Model1(u, n) ==
  CASE u = "v"      -> With(Model0, "v", Each(n, Triple))
    [] u = "vn"     -> With(Model0, "n", Each(n, Triple))
    [] u = "vt"     -> With(Model0, "t", Each(n, LAMBDA i : <<S(i)>>))
    [] u = "same"   -> With(With(Model0, "v", Same(n, <<"1", "2", "3", "4">>)), "t", Same(n, <<"1", "2", "3">>))
    [] u = "sameN"  -> With(Model0, "n", Same(n, Triple(1)))
    [] u = "sameF"  -> With(Model0, "f", In("default", Same(n, Face(0, <<Ref(1), Ref(2), Ref(3)>>))))
    [] u = "sameLP" -> [Groups(Model0, {"a"}, Settings0) EXCEPT !.l = In("a", Same(n, <<[v |-> 1, t |-> <<>>], [v |-> 2, t |-> <<>>]>>)), !.p = In("a", Same(n, <<1>>)), !.cur = {"a"}]
    [] u = "sameLib" -> [Model0 EXCEPT !.ml = Same(n, "m"), !.tl = Same(n, "m")]
    [] u = "f"      -> With(Model0, "f", In("default", Each(n, LAMBDA i : Face(0, <<Ref(i), Ref(2)>>))))
    [] u = "l"      -> With(Model0, "l", In("default", Each(n, PlainLine)))
    [] u = "p"      -> With(Model0, "p", In("default", Each(n, LAMBDA i : <<i>>)))
    [] u = "fRefs"  -> With(Model0, "f", In("default", <<Face(0, Each(n, LAMBDA i : [v |-> i, t |-> <<i + 1>>, n |-> <<i + 2>>]))>>))
    [] u = "lRefs"  -> With(Model0, "l", In("default", <<Each(n, LAMBDA i : [v |-> i, t |-> <<i + 1>>])>>))
    [] u = "pRefs"  -> With(Model0, "p", In("default", <<[i \in 1..n |-> i]>>))
    [] u = "rel"    -> With(With(With(With(Model0, "v", Same(n, Triple(1))), "t", Same(n, <<"1">>)), "n", Same(n, Triple(1))),
                            "f", In("default", Each(n, LAMBDA i : Face(0, <<[v |-> i, t |-> <<i>>, n |-> <<i>>], [v |-> 1, t |-> <<>>, n |-> <<1>>]>>))))
    [] u = "relEnd" -> [Model0 EXCEPT !.v = Same(n, Triple(1)), !.t = Same(n, <<"1">>), !.n = Same(n, Triple(1)),
                          !.f = In("default", <<Face(0, <<[v |-> n, t |-> <<n>>, n |-> <<n>>], [v |-> 1, t |-> <<1>>, n |-> <<1>>],
                                                          [v |-> 0 - n - 1, t |-> <<>>, n |-> <<0 - n - 1>>]>>)>>),
                          !.l = In("default", <<<<[v |-> n, t |-> <<n>>], [v |-> 1, t |-> <<1>>], [v |-> 0 - n - 1, t |-> <<>>]>>>>),
                          !.p = In("default", <<<<n, 1, 0 - n - 1>>>>)]
    [] u = "groups" -> [Model0 EXCEPT !.f = [x \in Names1("g", n) |-> <<Face(0, <<Ref(Index(x))>>)>>],
                          !.g = [x \in Names1("g", n) \cup {"default"} |-> IF x = "default" THEN Settings0 ELSE [Settings0 EXCEPT !.mat = "m" \o S(Index(x))]],
                          !.cur = {"g" \o S(n)}]
    [] u = "gNames" -> [Groups(Model0, Names1("g", n), [Settings0 EXCEPT !.lod = 7, !.tm = <<"t">>])
                          EXCEPT !.p = [x \in Names1("g", n) |-> <<<<5>>>>], !.cur = Names1("g", n)]
    [] u = "again"  -> [Groups(Model0, {"a", "b"}, Settings0)
                          EXCEPT !.p = In("a", Each(n, LAMBDA i : <<i>>)), !.l = In("b", Each(n, PlainLine)), !.cur = {"b"}]
    [] u = "libs"   -> [Model0 EXCEPT !.ml = Each(n, LAMBDA i : "m" \o S(i)), !.tl = Same(n, "t")]
    [] u = "libList" -> [Model0 EXCEPT !.ml = Each(n, LAMBDA i : "m" \o S(i)), !.tl = Each(n, LAMBDA i : "t" \o S(i))]
    [] u = "usemtl" -> With(Model0, "g", In("default", [Settings0 EXCEPT !.mat = "m" \o S(n), !.tm = <<"t" \o S(n)>>, !.lod = n % 101]))
    [] u = "flags"  -> With(Model0, "g", In("default", [Settings0 EXCEPT !.ci = TRUE]))
    [] u = "smooth" -> [Model0 EXCEPT !.f = In("default", Each(n, LAMBDA i : Face(i, <<Ref(1)>>))), !.sm = n]
    [] u = "smoothRun" -> [Model0 EXCEPT !.f = In("default", Append(Same(n, Face(9, <<Ref(1)>>)), Face(0, <<Ref(2)>>)))]
    [] u = "names"  -> [Model0 EXCEPT !.so = <<"s" \o S(n)>>, !.ro = <<"t" \o S(n)>>]
    [] u = "blanksEnd" -> [Groups(Model0, {"a"}, [Settings0 EXCEPT !.mat = "m", !.lod = 3])
                          EXCEPT !.f = In("a", <<Face(0, <<Ref(1), Ref(2), Ref(3)>>)>>), !.ml = <<"x y">>, !.cur = {"a"}]
    [] u = "blanksIn" -> [Groups(Model0, {"a"}, [Settings0 EXCEPT !.bevel = TRUE])
                          EXCEPT !.f = In("a", <<Face(0, <<Ref(1), Ref(2)>>)>>), !.v = <<Triple(1)>>, !.tl = <<"t">>, !.sm = 4, !.cur = {"a"}]
    [] u = "noteEnd" -> [Groups(Model0, {"a"}, [Settings0 EXCEPT !.lod = 3]) EXCEPT !.f = In("a", <<Face(0, <<Ref(1), Ref(2)>>)>>), !.cur = {"a"}, !.sm = 4]
    [] u = "slashes" -> With(Model0, "f", In("default", <<Face(0, <<Ref(1), Ref(2)>>)>>))
    [] u = "longG"   -> [Groups(Model0, {Rep("n", n)}, [Settings0 EXCEPT !.mat = Rep("m", n)]) EXCEPT !.f = In(Rep("n", n), <<Face(0, <<Ref(1)>>)>>), !.cur = {Rep("n", n)}]
    [] u = "longT"   -> [Groups(Model0, {Rep("{65E5}", n)}, [Settings0 EXCEPT !.tm = <<Rep("{E9}", n)>>])
                          EXCEPT !.p = In(Rep("{65E5}", n), <<<<1>>>>), !.ml = <<Rep("a", n)>>, !.ro = <<Rep("t", n)>>, !.cur = {Rep("{65E5}", n)}]
    [] u = "words"   -> [With(Model0, "g", In("default", [Settings0 EXCEPT !.tm = <<"a" \o Rep(" b", n)>>])) EXCEPT !.so = <<"a" \o Rep("{09}c", n)>>]
    [] u = "notes"  -> With(Model0, "v", <<Triple(1)>>)
    [] u = "empty"  -> With(Model0, "v", Same(2, Triple(1)))

Data     == {"v", "vn", "vt", "same", "sameN"}
Elems    == {"f", "l", "p", "sameF", "sameLP", "fRefs", "lRefs", "pRefs"}
Relative == {"rel", "relEnd"}
Grouped  == {"groups", "gNames", "again"}
Settings == {"usemtl", "flags", "groups", "gNames"}
Smooth   == {"smooth", "smoothRun"}
Libs     == {"libs", "libList", "sameLib", "names"}
Layouts  == {"notes", "empty", "blanksEnd", "blanksIn", "noteEnd", "slashes"}
Long     == {"longG", "longT", "words"}
UnitSet == CASE Units = "data" -> Data [] Units = "elems" -> Elems [] Units = "relative" -> Relative [] Units = "grouped" -> Grouped
             [] Units = "settings" -> Settings [] Units = "smooth" -> Smooth [] Units = "libs" -> Libs [] Units = "layouts" -> Layouts
             [] Units = "refusals" -> Refusals [] Units = "long" -> Long
             [] Units = "all" -> Data \cup Elems \cup Relative \cup Grouped \cup Settings \cup Smooth \cup Libs \cup Layouts \cup Long \cup Refusals

Answer(u, n) == IF u \in Refusals THEN Refused ELSE View(Model1(u, n), Fields)

VARIABLES unit, n
Init == unit \in UnitSet /\ n = 0
Choose == n = 0 /\ UNCHANGED unit /\ n' \in 1..12 \cup {40} \cup ManySizes(Upto)
Spec == Init /\ [][Choose]_<<unit, n>>

ClosedForm ==
  n \in 1..40 => LET ss == Statements(Lex(Whole(Text1(unit, n))))
                 IN  IF unit \in Refusals THEN AnyBad(ss) ELSE ~AnyBad(ss) /\ After(Model0, ss) = Model1(unit, n)
Emit == n > 0 => PrintT(ToJson([ls |-> Text1(unit, n), e |-> Answer(unit, n)]))
Literal(x) == x
=============================================================================
