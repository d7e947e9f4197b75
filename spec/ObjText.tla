------------------------------ MODULE ObjText ------------------------------
(***************************************************************************)
(* All texts made of at most N pieces of a pool: what load_obj has to      *)
(* answer to each, printed for replay.                                     *)
(***************************************************************************)
EXTENDS Obj, ObjTexts, TLC, Json
CONSTANTS PoolName, N, EmitFrom, Fields

P == Pools[PoolName]
ASSUME TLCSet(1, TLCEval([pre   |-> [i \in DOMAIN P.pre   |-> Chars(P.pre[i])],
                          atoms |-> [i \in DOMAIN P.atoms |-> Chars(P.atoms[i])],
                          suf   |-> [i \in DOMAIN P.suf   |-> Chars(P.suf[i])]]))
C == TLCGet(1)

VARIABLES pre, suf,  \* which beginning and end
          mid        \* the pieces between them
vars == <<pre, suf, mid>>
Middle == FlattenSeq([i \in DOMAIN mid |-> C.atoms[mid[i]]])
Text0  == IF P.hole THEN FlattenSeq([i \in DOMAIN C.pre[pre] |-> IF C.pre[pre][i] = "{W}" THEN Middle ELSE <<C.pre[pre][i]>>])
          ELSE C.pre[pre] \o Middle \o C.suf[suf]

Init == pre \in DOMAIN P.pre /\ suf \in DOMAIN P.suf /\ mid = <<>>
Add  == /\ Len(mid) < N
        /\ \E i \in DOMAIN P.atoms : mid' = Append(mid, i)
        /\ UNCHANGED <<pre, suf>>
Spec == Init /\ [][Add]_vars

(* The two definitions of a real number agree, and none is a whole number. *)
NumberGrammar == /\ IsReal(Middle) = RealByCutting(Middle)
                 /\ ~ (IsReal(Middle) /\ IsWhole(Middle))
(* Text after a text adds statements; it changes none but the last one,     *)
(* which it may continue.                                                  *)
Ended == LET p == C.pre[pre] IN ~ P.hole /\ p # <<>> /\ p[Len(p)] \in Eol
Begins0 == LET a == Statements(Lex(C.pre[pre]))
               b == Statements(Lex(Text0))
           IN  Ended => Len(b) >= Len(a) /\ \A i \in 1..(Len(a) - 1) : b[i] = a[i]

Emit == Len(mid) >= EmitFrom =>
          PrintT(ToJson([x |-> Str(Text0), e |-> LoadPart(Text0, Fields)]))
Literal(x) == x
=============================================================================
