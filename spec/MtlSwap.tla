------------------------------ MODULE MtlSwap ------------------------------
(* Independent statements can be exchanged (C27); see ObjSwap. *)
EXTENDS Mtl, MtlAlpha, TLC, Json
CONSTANTS Alpha, Depth, Swaps, Walk, Parts

Lines == Alphabets[Alpha]
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(Chars(Lines[i] \o "{0A}")))[1]]))
Meanings == TLCGet(1)
Headers == {i \in DOMAIN Lines : Meanings[i].k = "newmtl"}
Independent(a, b) == a.k # "newmtl" /\ b.k # "newmtl" /\ FieldOf(a.k) # FieldOf(b.k)

VARIABLES hist, now, done
vars == <<hist, now, done>>
Choice(h) == LET from == IF h = <<>> THEN Headers ELSE DOMAIN Lines
             IN  IF Walk THEN {RandomElement(from)} ELSE from
Place(h)  == IF Walk THEN {RandomElement(1..(Len(h) - 1))} ELSE {Len(h) - 1}
Init == hist = <<>> /\ now = <<>> /\ done = 0
Read == /\ done = 0 /\ Len(hist) < Depth
        /\ \E i \in Choice(hist) : hist' = Append(hist, i) /\ now' = Append(now, i)
        /\ UNCHANGED done
Exchange == /\ done < Swaps /\ Len(hist) >= 2 /\ (Walk => Len(hist) = Depth)
            /\ \E i \in Place(now) :
                 IF Independent(Meanings[now[i]], Meanings[now[i + 1]])
                 THEN now' = [now EXCEPT ![i] = now[i + 1], ![i + 1] = now[i]]
                 ELSE Walk /\ UNCHANGED now
            /\ done' = done + 1 /\ UNCHANGED hist
Next == Read \/ Exchange
Spec == Init /\ [][Next]_vars
Due == done = Swaps

After1(h) == After(<<>>, [i \in DOMAIN h |-> Meanings[h[i]]])
SameModel == Due => After1(now) = After1(hist)
Emit == Due => PrintT(ToJson([ls |-> [i \in DOMAIN now |-> Lines[now[i]] \o "{0A}"], e |-> View(After1(hist), Parts)]))
Literal(x) == x
=============================================================================
