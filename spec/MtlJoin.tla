------------------------------ MODULE MtlJoin ------------------------------
(* Material files put one after the other (C28): the materials of the one, *)
(* then those of the other.                                                *)
EXTENDS Mtl, MtlAlpha, TLC, Json
CONSTANTS AlphaA, AlphaB, DepthA, DepthB, Walk,
          Parts

LinesA == Alphabets[AlphaA]
LinesB == Alphabets[AlphaB]
ASSUME TLCSet(1, TLCEval([i \in DOMAIN LinesA |-> Statements(Lex(Chars(LinesA[i] \o "{0A}")))[1]]))
ASSUME TLCSet(2, TLCEval([i \in DOMAIN LinesB |-> Statements(Lex(Chars(LinesB[i] \o "{0A}")))[1]]))
MeaningsA == TLCGet(1)
MeaningsB == TLCGet(2)
HeadersA == {i \in DOMAIN LinesA : MeaningsA[i].k = "newmtl"}
HeadersB == {i \in DOMAIN LinesB : MeaningsB[i].k = "newmtl"}
SA(a) == [i \in DOMAIN a |-> MeaningsA[a[i]]]
SB(b) == [i \in DOMAIN b |-> MeaningsB[b[i]]]

VARIABLES one, two
vars == <<one, two>>
Pick(S) == IF Walk THEN {RandomElement(S)} ELSE S
Init == one = <<>> /\ two = <<>>
First  == /\ two = <<>> /\ Len(one) < DepthA
          /\ \E i \in Pick(IF one = <<>> THEN HeadersA ELSE DOMAIN LinesA) : one' = Append(one, i)
          /\ UNCHANGED two
Second == /\ one # <<>> /\ Len(two) < DepthB /\ (Walk => Len(one) = DepthA)
          /\ \E i \in Pick(IF two = <<>> THEN HeadersB ELSE DOMAIN LinesB) : two' = Append(two, i)
          /\ UNCHANGED one
Next == First \/ Second
Spec == Init /\ [][Next]_vars
Due == two # <<>> /\ (Walk => Len(two) = DepthB)

PutTogether == Due => After(<<>>, SA(one)) \o After(<<>>, SB(two)) = After(<<>>, SA(one) \o SB(two))
Emit == Due => PrintT(ToJson([ls |-> [i \in DOMAIN one |-> LinesA[one[i]] \o "{0A}"] \o [i \in DOMAIN two |-> LinesB[two[i]] \o "{0A}"],
                              e |-> View(After(<<>>, SA(one)) \o After(<<>>, SB(two)), Parts)]))
Literal(x) == x
=============================================================================
