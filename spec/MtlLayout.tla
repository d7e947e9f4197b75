------------------------------ MODULE MtlLayout ------------------------------
(* As ObjLayout, for material files (C13). *)
EXTENDS Mtl, Layout, TLC, Json
CONSTANTS Pool, Depth, EmitFrom, Reach, Uniform, Parts

L(w, keys, num) == [w |-> w, k |-> keys, num |-> num]   \* keys: positions of keywords and options
Core == << L(<<"newmtl","a">>, {1}, FALSE), L(<<"Ka","1","-2.5","3e1">>, {1}, TRUE), L(<<"Kd","xyz","1">>, {1,2}, TRUE), L(<<"d","-halo","0.5">>, {1,2}, TRUE),
           L(<<"map_Kd","-o","1","2","-clamp","on","T.png">>, {1,2,5}, FALSE), L(<<"map_aat","off">>, {1}, FALSE), L(<<"bump","u.png","-bm","2">>, {1,3}, TRUE),
           L(<<"Kd","1","2">>, {1}, TRUE), L(<<"illum","x">>, {1}, FALSE) >>
Wide == Core \o
  << L(<<"Ks","spectral","F.rfl">>, {1,2}, FALSE), L(<<"Ke","spectral","f.rfl","2">>, {1,2}, TRUE), L(<<"Tf","xyz","1","2">>, {1,2}, TRUE), L(<<"Tf","xyz","1","2","3">>, {1,2}, TRUE), L(<<"Ns","10">>, {1}, TRUE),
     L(<<"Tr","0.5">>, {1}, TRUE), L(<<"Ni","1.5">>, {1}, TRUE), L(<<"sharpness","60">>, {1}, TRUE), L(<<"d","1">>, {1}, TRUE), L(<<"illum","2">>, {1}, TRUE), L(<<"map_aat","on">>, {1}, FALSE),
     L(<<"map_Ka","a.png">>, {1}, FALSE), L(<<"map_Ks","-cc","on","c.png">>, {1,2}, FALSE), L(<<"map_Ns","-imfchan","m","d.png">>, {1,2}, FALSE), L(<<"map_d","-mm","0","1","e.png">>, {1,2}, FALSE),
     L(<<"disp","f.png","-s","1","2","3">>, {1,3}, TRUE), L(<<"map_disp","-t","1","g.png">>, {1,2}, FALSE), L(<<"decal","-texres","512","-blendu","off","-blendv","on","h.png">>, {1,2,4,6}, FALSE),
     L(<<"refl","-type","sphere","i.png">>, {1,2}, FALSE), L(<<"refl","-type","Cube_Top","-o","1","1","1","j.png">>, {1,2,4}, FALSE), L(<<"newmtl","1.5">>, {1}, TRUE), L(<<"newmtl","Ka#">>, {1}, FALSE), L(<<"newmtl","B">>, {1}, FALSE),
     L(<<"foo","1">>, {}, TRUE), L(<<"Ns","1","2">>, {1}, TRUE), L(<<"illum","-1">>, {1}, TRUE), L(<<"map_Ka","a","b">>, {1}, FALSE), L(<<"-clamp","on">>, {1}, FALSE) >>
Lines == IF Pool = "wide" THEN Wide ELSE Core
(* newmtl 1.5#note: the note would be part of the name. *)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> [j \in DOMAIN Lines[i].w |-> Chars(Lines[i].w[j])]]))
Words == TLCGet(1)
Show(i, y) == Render(Words[i], [j \in DOMAIN Words[i] |-> j \in Lines[i].k],
                     Lines[i].num /\ Lines[i].w[1] # "newmtl", TRUE, y)
Ways == IF Reach = 1 THEN OneOff ELSE TwoOff

VARIABLES style, cut, file
vars == <<style, cut, file>>
Init == /\ style \in IF Uniform THEN Ways ELSE {Plain0}
        /\ cut \in BOOLEAN
        /\ file = << <<1, style>> >>          \* headless files: C15
Write == /\ Len(file) < Depth + 1
         /\ \E i \in DOMAIN Lines, y \in IF Uniform THEN {style} ELSE Ways :
              file' = Append(file, <<i, y>>)
         /\ UNCHANGED <<style, cut>>
Spec == Init /\ [][Write]_vars

LaidOut == LET t == FlattenSeq([j \in DOMAIN file |-> Show(file[j][1], file[j][2])])
           IN  IF cut THEN Cut(t) ELSE t
Plainly == FlattenSeq([j \in DOMAIN file |-> PlainLine(Words[file[j][1]])])
SameMeaning == LoadMtl(LaidOut) = LoadMtl(Plainly)
Emit == Len(file) >= EmitFrom + 1 =>
          PrintT(ToJson([x |-> Str(LaidOut), e |-> LoadPart(Plainly, Parts)]))
Literal(x) == x
=============================================================================
