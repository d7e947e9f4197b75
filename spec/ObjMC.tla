------------------------------- MODULE ObjMC -------------------------------
(***************************************************************************)
(* All histories of at most Depth lines over an alphabet of lines: the     *)
(* machine of Obj, one action per kind of statement, checked against       *)
(* ObjProps, and printed for replay into the library.                      *)
(***************************************************************************)
EXTENDS ObjProps, ObjAlpha, TLC, Json
CONSTANTS Alpha,      \* name of the alphabet
          Depth,      \* longest history
          EmitFrom,   \* shortest history printed for replay
          Fields      \* the parts of the result the property is about

Lines    == Alphabets[Alpha]
(* What each line means; computed once (TLC register 1), not at every use. *)
ASSUME TLCSet(2, TLCEval([i \in DOMAIN Lines |-> Chars(Lines[i] \o "{0A}")]))
LineChars == TLCGet(2)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(LineChars[i]))]))
Meanings == TLCGet(1)
NotOne == {Lines[i] : i \in {j \in DOMAIN Lines : Len(Meanings[j]) # 1 \/ Bad \in Range(Meanings[j])}}
ASSUME NotOne = {} \/ (Print(NotOne, FALSE))
Stmt(i)  == Meanings[i][1]

VARIABLES hist,  \* indices of the lines read so far
          m      \* the machine
vars == <<hist, m>>
History == [j \in DOMAIN hist |-> Stmt(hist[j])]

Start == IF Alpha \in DOMAIN Starts THEN Starts[Alpha] ELSE <<>>
Init == /\ hist = Start
        /\ m = After(Model0, [j \in DOMAIN Start |-> Stmt(Start[j])])

Read(K, Do(_, _)) ==
  /\ Len(hist) < Len(Start) + Depth
  /\ \E i \in DOMAIN Lines : /\ Stmt(i).k \in K
                             /\ hist' = Append(hist, i)
                             /\ m' = Do(m, Stmt(i))
Vertex  == Read({"v"}, DoVertex)
Normal  == Read({"vn"}, DoNormal)
Texture == Read({"vt"}, DoTexture)
Face    == Read({"f"}, DoFace)
Line    == Read({"l"}, DoLine)
Point   == Read({"p"}, DoPoint)
Group   == Read({"g"}, DoGroup)
Smooth  == Read({"s"}, DoSmooth)
UseMtl  == Read({"usemtl"}, DoUseMtl)
UseMap  == Read({"usemap"}, DoUseMap)
Bevel   == Read({"bevel"}, DoBevel)
CInterp == Read({"c_interp"}, DoCInterp)
DInterp == Read({"d_interp"}, DoDInterp)
Lod     == Read({"lod"}, DoLod)
MtlLib  == Read({"mtllib"}, DoMtlLib)
MapLib  == Read({"maplib"}, DoMapLib)
Shadow  == Read({"shadow_obj"}, DoShadow)
Trace   == Read({"trace_obj"}, DoTrace)
Object  == Read({"o"}, DoObject)

Next == \/ Vertex \/ Normal \/ Texture \/ Face \/ Line \/ Point \/ Group \/ Smooth
        \/ UseMtl \/ UseMap \/ Bevel \/ CInterp \/ DInterp \/ Lod
        \/ MtlLib \/ MapLib \/ Shadow \/ Trace \/ Object
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvDataInOrder == DataInOrder(History, m)
InvAttribution == Attribution(History, m)
InvReferences  == References(History, m)
InvRelative    == Relative(History, m)
InvSmoothing   == Smoothing(History, m)
InvSettings    == Settings(History, m)
InvLibraries   == Libraries(History, m)
PropAppendOnly == [][AppendOnly(m, m', Stmt(hist'[Len(hist')]).k)]_vars
(* Reading the text as a whole is reading its lines one by one. *)
WholeText == LoadObj(FlattenSeq([j \in DOMAIN hist |-> LineChars[hist[j]]])) = Shown(m)

(* Printed once per history, as an invariant. *)
Emit == Len(hist) >= Len(Start) + EmitFrom =>
          PrintT(ToJson([h |-> hist, e |-> View(m, Fields)]))
ASSUME PrintT(ToJson([lines |-> Lines]))
Literal(x) == x
=============================================================================
