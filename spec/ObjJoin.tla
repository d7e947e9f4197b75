------------------------------ MODULE ObjJoin ------------------------------
(***************************************************************************)
(* Files put one after the other (C28).  File a is any history; file b     *)
(* begins with a group and a smoothing group of its own and keeps to groups  *)
(* a does not have.  What the joined file means is put together from what   *)
(* the two mean alone (Joined), not from the statements.                   *)
(***************************************************************************)
EXTENDS Obj, ObjAlpha, TLC, Json
CONSTANTS AlphaA, AlphaB, DepthA, DepthB, Walk,
          Fields

LinesA == Alphabets[AlphaA]
LinesB == Alphabets[AlphaB]
Head1  == <<"g own", "s off">>
ASSUME TLCSet(1, TLCEval([i \in DOMAIN LinesA |-> Statements(Lex(Chars(LinesA[i] \o "{0A}")))[1]]))
ASSUME TLCSet(2, TLCEval([i \in DOMAIN LinesB |-> Statements(Lex(Chars(LinesB[i] \o "{0A}")))[1]]))
ASSUME TLCSet(3, TLCEval([i \in DOMAIN Head1 |-> Statements(Lex(Chars(Head1[i] \o "{0A}")))[1]]))
MeaningsA == TLCGet(1)
MeaningsB == TLCGet(2)
(* In the alphabet of b references are all relative, or all absolute. *)
Relative == AlphaB = "joinRelative"

SA(a) == [i \in DOMAIN a |-> MeaningsA[a[i]]]
SB(b) == TLCGet(3) \o [i \in DOMAIN b |-> MeaningsB[b[i]]]

In(fn, x) == IF x \in DOMAIN fn THEN fn[x] ELSE <<>>
Last1(o, q) == IF q # <<>> THEN q ELSE o
Joined(A, B) ==
  LET V(i) == IF Relative THEN i + Len(A.v) ELSE i
      T(o) == IF o = <<>> THEN o ELSE IF Relative THEN <<o[1] + Len(A.t)>> ELSE o
      N(o) == IF o = <<>> THEN o ELSE IF Relative THEN <<o[1] + Len(A.n)>> ELSE o
      F(e) == [e EXCEPT !.r = [i \in DOMAIN e.r |-> [v |-> V(e.r[i].v), t |-> T(e.r[i].t), n |-> N(e.r[i].n)]]]
      L(e) == [i \in DOMAIN e |-> [v |-> V(e[i].v), t |-> T(e[i].t)]]
      P(e) == [i \in DOMAIN e |-> V(e[i])]
      Both(f, q, G(_)) == [x \in DOMAIN f \cup DOMAIN q |-> In(f, x) \o [i \in DOMAIN In(q, x) |-> G(In(q, x)[i])]]
  IN  [v |-> A.v \o B.v, n |-> A.n \o B.n, t |-> A.t \o B.t,
       f |-> Both(A.f, B.f, F), l |-> Both(A.l, B.l, L), p |-> Both(A.p, B.p, P),
       g |-> [x \in DOMAIN A.g \cup DOMAIN B.g |-> IF x \in DOMAIN A.g THEN A.g[x] ELSE B.g[x]],
       ml |-> A.ml \o B.ml, tl |-> A.tl \o B.tl, so |-> Last1(A.so, B.so), ro |-> Last1(A.ro, B.ro),
       cur |-> B.cur, sm |-> B.sm]

(* A relative reference of b that leads out of it is none of its own. *)
Refs(m) == UNION ({{r.v} \cup {r.t[i] : i \in DOMAIN r.t} \cup {r.n[i] : i \in DOMAIN r.n} : r \in UNION {{e.r[i] : i \in DOMAIN e.r} : e \in UNION {{m.f[x][i] : i \in DOMAIN m.f[x]} : x \in DOMAIN m.f}}}
             \cup {{r.v} \cup {r.t[i] : i \in DOMAIN r.t} : r \in UNION {{e[i] : i \in DOMAIN e} : e \in UNION {{m.l[x][i] : i \in DOMAIN m.l[x]} : x \in DOMAIN m.l}}}
             \cup {UNION {{e[i] : i \in DOMAIN e} : e \in UNION {{m.p[x][i] : i \in DOMAIN m.p[x]} : x \in DOMAIN m.p}}})
Closed(m) == \A i \in Refs(m) : i > 0

VARIABLES one, two
vars == <<one, two>>
Fitting(b) == {i \in DOMAIN LinesB : Relative => Closed(After(Model0, SB(Append(b, i))))}
Pick(h, S) == IF Walk THEN {RandomElement(IF h = <<0>> THEN {} ELSE S)} ELSE S
Init == one = <<>> /\ two = <<>>
First  == /\ two = <<>> /\ Len(one) < DepthA
          /\ \E i \in Pick(one, DOMAIN LinesA) : one' = Append(one, i)
          /\ UNCHANGED two
Second == /\ Len(two) < DepthB /\ (Walk => Len(one) = DepthA)
          /\ \E i \in Pick(two, Fitting(two)) : two' = Append(two, i)
          /\ UNCHANGED one
Next == First \/ Second
Spec == Init /\ [][Next]_vars
Due == two # <<>> /\ (Walk => Len(two) = DepthB)

Whole1 == After(Model0, SA(one) \o SB(two))
PutTogether == Due => Joined(After(Model0, SA(one)), After(Model0, SB(two))) = Whole1
Emit == Due => PrintT(ToJson([ls |-> [i \in DOMAIN one |-> LinesA[one[i]] \o "{0A}"] \o [i \in DOMAIN Head1 |-> Head1[i] \o "{0A}"] \o [i \in DOMAIN two |-> LinesB[two[i]] \o "{0A}"],
                              e |-> View(Joined(After(Model0, SA(one)), After(Model0, SB(two))), Fields)]))
Literal(x) == x
=============================================================================
