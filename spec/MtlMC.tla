------------------------------- MODULE MtlMC -------------------------------
(***************************************************************************)
(* All histories of at most Depth lines, the first a newmtl, over an       *)
(* alphabet of material-file lines: the machine of Mtl, one action per kind *)
(* of statement, checked against MtlProps, and printed for replay.         *)
(***************************************************************************)
EXTENDS MtlProps, MtlAlpha, TLC, Json
CONSTANTS Alpha, Depth, EmitFrom, Parts

Lines    == Alphabets[Alpha]
ASSUME TLCSet(2, TLCEval([i \in DOMAIN Lines |-> Chars(Lines[i] \o "{0A}")]))
LineChars == TLCGet(2)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(LineChars[i]))]))
Meanings == TLCGet(1)
NotOne == {Lines[i] : i \in {j \in DOMAIN Lines : Len(Meanings[j]) # 1 \/ Bad \in Range(Meanings[j])}}
ASSUME NotOne = {} \/ (Print(NotOne, FALSE))
Stmt(i)  == Meanings[i][1]

VARIABLES hist, ms
vars == <<hist, ms>>
History == [j \in DOMAIN hist |-> Stmt(hist[j])]

Init == hist = <<>> /\ ms = <<>>

Read(K, Do(_, _)) ==
  /\ Len(hist) < Depth
  /\ \E i \in DOMAIN Lines : /\ Stmt(i).k \in K
                             /\ hist' = Append(hist, i)
                             /\ ms' = Do(ms, Stmt(i))
Begun == ms # <<>>
NewMtl    == Read({"newmtl"}, DoNewMtl)
SetColour == Begun /\ Read(ColourKw, DoProperty)
SetScalar == Begun /\ Read(ScalarKw, DoProperty)
Dissolve  == Begun /\ Read({"d"}, DoProperty)
Illum     == Begun /\ Read({"illum"}, DoProperty)
AntiAlias == Begun /\ Read({"map_aat"}, DoProperty)
ColourMap == Begun /\ Read(CcMapKw, DoProperty)
OtherMap  == Begun /\ Read(PlainMapKw, DoProperty)
Bump      == Begun /\ Read({"bump"}, DoProperty)
Refl      == Begun /\ Read({"refl"}, DoProperty)

Next == \/ NewMtl \/ SetColour \/ SetScalar \/ Dissolve \/ Illum \/ AntiAlias
        \/ ColourMap \/ OtherMap \/ Bump \/ Refl
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIsolation == Isolation(History, ms)
InvColours   == ColoursKept(History, ms)
InvScalars   == ScalarsKept(History, ms)
InvMaps      == MapsKept(History, ms)
PropTouchesLast == [][TouchesLast(ms, ms', Stmt(hist'[Len(hist')]))]_vars
Text0 == FlattenSeq([j \in DOMAIN hist |-> LineChars[hist[j]]])
WholeText == LoadMtl(Text0) = IF hist = <<>> THEN EitherWay ELSE View(ms, Everything)
(* A file that does not begin with newmtl (C15). *)
Headless == hist # <<>> => LoadMtl(FlattenSeq([j \in 1..(Len(hist) - 1) |-> LineChars[hist[j + 1]]])) =
              IF Len(hist) = 1 THEN EitherWay
              ELSE IF Stmt(hist[2]).k # "newmtl" THEN NotNewMtl ELSE LoadMtl(FlattenSeq([j \in 1..(Len(hist) - 1) |-> LineChars[hist[j + 1]]]))

Emit == Len(hist) >= EmitFrom /\ hist # <<>> => PrintT(ToJson([h |-> hist, e |-> View(ms, Parts)]))
ASSUME PrintT(ToJson([lines |-> Lines]))
Literal(x) == x
=============================================================================
