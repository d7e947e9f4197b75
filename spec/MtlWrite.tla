------------------------------ MODULE MtlWrite ------------------------------
(***************************************************************************)
(* Writing materials down (C25); see ObjWrite.                             *)
(***************************************************************************)
EXTENDS Mtl, MtlAlpha, TLC, Json
CONSTANTS Alpha, Depth, Walk, Parts

Lines == Alphabets[Alpha]
ASSUME TLCSet(2, TLCEval([i \in DOMAIN Lines |-> Chars(Lines[i] \o "{0A}")]))
LineChars == TLCGet(2)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(LineChars[i]))[1]]))
Meanings == TLCGet(1)

NL == "{0A}"
I(n) == ToString(n)
Switch(b) == IF b THEN "on" ELSE "off"
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN "" ELSE " " \o Head(ws) \o Spaced(Tail(ws))
Line(k, ws) == k \o Spaced(ws) \o NL
EachOf(s, F(_)) == Join([i \in DOMAIN s |-> F(s[i])])

Colour1(c) == IF c[1] = "rgb" THEN Tail(c) ELSE c
Dissolve1(d) == IF d[1] = "halo" THEN <<"-halo", d[2]>> ELSE <<d[2]>>
(* The options of a map, one sequence of words each. *)
Option1(m, c) ==
  IF c \notin DOMAIN m THEN <<>>
  ELSE IF c = "file" THEN IF m.file = "" THEN <<>> ELSE <<<<m.file>>>>
  ELSE IF m[c] = <<>> THEN <<>>
  ELSE CASE c = "bu"    -> <<<<"-blendu", Switch(m.bu[1])>>>>
         [] c = "bv"    -> <<<<"-blendv", Switch(m.bv[1])>>>>
         [] c = "cc"    -> <<<<"-cc", Switch(m.cc[1])>>>>
         [] c = "clamp" -> <<<<"-clamp", Switch(m.clamp[1])>>>>
         [] c = "chan"  -> <<<<"-imfchan", m.chan[1]>>>>
         [] c = "mm"    -> <<<<"-mm">> \o m.mm[1]>>
         [] c = "o"     -> <<<<"-o">> \o m.o[1]>>
         [] c = "s"     -> <<<<"-s">> \o m.s[1]>>
         [] c = "t"     -> <<<<"-t">> \o m.t[1]>>
         [] c = "res"   -> <<<<"-texres", I(m.res[1])>>>>
Options1 == <<"bu", "bv", "cc", "clamp", "chan", "mm", "o", "s", "t", "res", "file">>
(* A map with nothing set: an option that has no field there. *)
Nothing1(m) == IF "cc" \in DOMAIN m THEN <<<<"-imfchan", "m">>>> ELSE <<<<"-cc", "on">>>>
Map1(m, extra) ==
  LET all == extra \o EachOf(Options1, LAMBDA c : Option1(m, c))
  IN  IF all = <<>> THEN Nothing1(m) ELSE all

(* The options of field c of material r, or its words as one option. *)
Value1(r, c) ==
  LET x == r[c][1] IN
  CASE c \in ColourKw -> <<Colour1(x)>>
    [] c \in ScalarKw -> <<<<x>>>>
    [] c = "d"        -> <<Dissolve1(x)>>
    [] c = "illum"    -> <<<<I(x)>>>>
    [] c = "map_aat"  -> <<<<Switch(x)>>>>
    [] c \in CcMapKw \cup PlainMapKw -> Map1(x, <<>>)
    [] c = "bump"     -> Map1(x.map[1], IF x.bm = <<>> THEN <<>> ELSE <<<<"-bm", x.bm[1]>>>>)
    [] c = "refl"     -> Map1(x.map[1], IF x.ty = "" THEN <<>> ELSE <<<<"-type", x.ty>>>>)

Fields1 == <<"ka", "kd", "ks", "ke", "tf", "ns", "tr", "ni", "sharpness", "d", "illum", "map_aat",
             "map_ka", "map_kd", "map_ks", "map_ns", "map_d", "disp", "decal", "bump", "refl">>
Written1(r, c, backward) ==
  IF r[c] = <<>> THEN <<>>
  ELSE LET o == Value1(r, c) IN <<Line(IF backward /\ c = "disp" THEN "map_disp" ELSE c, Join(IF backward THEN Reverse(o) ELSE o))>>
Forward(r)  == <<Line("newmtl", <<r.name>>)>> \o EachOf(Fields1, LAMBDA c : Written1(r, c, FALSE))
Backward(r) == <<Line("newmtl", <<r.name>>)>> \o EachOf(Reverse(Fields1), LAMBDA c : Written1(r, c, TRUE))
Written(ms) == {EachOf(ms, Forward), EachOf(ms, Backward)}

(* Every statement, or (with TLC -simulate) one at random. *)
Headers == {i \in DOMAIN Lines : Meanings[i].k = "newmtl"}
Choice(ms) == LET from == IF ms = <<>> THEN Headers ELSE DOMAIN Lines
              IN  IF Walk THEN {RandomElement(from)} ELSE from

VARIABLES ms, steps
vars == <<ms, steps>>
Init == ms = <<>> /\ steps = 0
Next == steps < Depth /\ steps' = steps + 1 /\ \E i \in Choice(ms) : ms' = Apply(ms, Meanings[i])
Spec == Init /\ [][Next]_vars
Due == ~Walk \/ steps = Depth

RoundTrip == Due /\ ms # <<>> => \A w \in Written(ms) : LoadMtl(Chars(FoldLeft(LAMBDA a, b : a \o b, "", w))) = View(ms, Everything)
Emit == Due /\ ms # <<>> => \A w \in Written(ms) : PrintT(ToJson([ls |-> w, e |-> View(ms, Parts)]))
Literal(x) == x
=============================================================================
