------------------------------ MODULE ObjLayout ------------------------------
(***************************************************************************)
(* Model files that differ in layout only have equal meanings (C12): a     *)
(* theorem of the specification, checked on the bounded files below, and   *)
(* the expectation the library is held to.                                 *)
(***************************************************************************)
EXTENDS Obj, Layout, TLC, Json
CONSTANTS Pool,       \* "wide" or "core"
          Depth, EmitFrom,
          Reach,      \* 1 or 2: how many pieces of a layout differ from plain
          Uniform,    \* TRUE: one layout for the whole file
          Fields

(* A line: its words, and whether the last one is a number.  Names with     *)
(* blanks are one word.                                                    *)
L(w, num) == [w |-> w, num |-> num]
Core == << L(<<"v","1","-2.5","3e1">>, TRUE), L(<<"f","1/1","-1//-1","1">>, TRUE), L(<<"g","a b">>, FALSE), L(<<"usemtl","Name 1">>, FALSE),
           L(<<"s","2">>, TRUE), L(<<"p","1","-1">>, TRUE), L(<<"v","1","2">>, TRUE), L(<<"f","x">>, FALSE) >>
Wide == Core \o
        << L(<<"v","1","2","3","4">>, TRUE), L(<<"vn","0","0","1">>, TRUE), L(<<"vt","0.5">>, TRUE), L(<<"vt","1","2","3">>, TRUE), L(<<"f","1","2","3">>, TRUE),
           L(<<"f","1/2/3","4/5/6","7/8/9">>, TRUE), L(<<"f","1/","2//","3">>, TRUE), L(<<"f","1/2/3","4/">>, TRUE), L(<<"l","1","2/3">>, TRUE), L(<<"l","1/2","3">>, TRUE), L(<<"p","7">>, TRUE),
           L(<<"s","off">>, FALSE), L(<<"s","on">>, FALSE), L(<<"o","thing">>, FALSE), L(<<"o","12">>, FALSE), L(<<"g","v">>, FALSE), L(<<"g","1">>, FALSE),
           L(<<"usemap","t.png">>, FALSE), L(<<"mtllib","a.mtl">>, FALSE), L(<<"maplib","b">>, FALSE), L(<<"shadow_obj","s.obj">>, FALSE), L(<<"trace_obj","t.obj">>, FALSE),
           L(<<"bevel","on">>, FALSE), L(<<"c_interp","off">>, FALSE), L(<<"d_interp","on">>, FALSE), L(<<"lod","5">>, TRUE),
           L(<<"vp","1">>, TRUE), L(<<"lod","101">>, TRUE), L(<<"v","1","a","3">>, TRUE), L(<<"f","1/2/3/4">>, TRUE), L(<<"cstype","2">>, TRUE), L(<<"bevel","1">>, TRUE) >>
Lines == IF Pool = "wide" THEN Wide ELSE Core
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> [j \in DOMAIN Lines[i].w |-> Chars(Lines[i].w[j])]]))
Words == TLCGet(1)
Show(i, y) == Render(Words[i], [j \in DOMAIN Words[i] |-> j = 1], Lines[i].num, FALSE, y)
Ways == IF Reach = 1 THEN OneOff ELSE TwoOff

VARIABLES style,  \* the layout of the whole file, if there is one
          cut,    \* whether the final line end is missing
          file    \* lines, each with its layout
vars == <<style, cut, file>>

Init == /\ style \in IF Uniform THEN Ways ELSE {Plain0}
        /\ cut \in BOOLEAN
        /\ file = <<>>
(* A line without a keyword after a list of names would be one more name,   *)
(* with its note (see the known findings of C02).                          *)
Ready(i) == IF Lines[i].w[1] = "cstype" /\ file # <<>>
            THEN Lines[file[Len(file)][1]].w[1] \notin {"g", "mtllib", "maplib"} ELSE TRUE
Write == /\ Len(file) < Depth
         /\ \E i \in DOMAIN Lines, y \in IF Uniform THEN {style} ELSE Ways :
              Ready(i) /\ file' = Append(file, <<i, y>>)
         /\ UNCHANGED <<style, cut>>
Spec == Init /\ [][Write]_vars

LaidOut == LET t == FlattenSeq([j \in DOMAIN file |-> Show(file[j][1], file[j][2])])
           IN  IF cut THEN Cut(t) ELSE t
Plainly == FlattenSeq([j \in DOMAIN file |-> PlainLine(Words[file[j][1]])])
SameMeaning == LoadObj(LaidOut) = LoadObj(Plainly)
Emit == Len(file) >= EmitFrom =>
          PrintT(ToJson([x |-> Str(LaidOut), e |-> LoadPart(Plainly, Fields)]))
Literal(x) == x
=============================================================================
