--------------------------------- MODULE Mtl ---------------------------------
(***************************************************************************)
(* The materials a .mtl file denotes, as a state machine over statements.  *)
(* State: the sequence of materials so far.  A material is a record; an    *)
(* optional field is <<>> or <<value>>.                                    *)
(***************************************************************************)
EXTENDS MtlLex, IOUtils
CONSTANT NumVal(_)

Material0(name) ==
  [name |-> name, ka |-> <<>>, kd |-> <<>>, ks |-> <<>>, ke |-> <<>>, tf |-> <<>>,
   ns |-> <<>>, tr |-> <<>>, ni |-> <<>>, sharpness |-> <<>>, d |-> <<>>, illum |-> <<>>,
   map_aat |-> <<>>, map_ka |-> <<>>, map_kd |-> <<>>, map_ks |-> <<>>, map_ns |-> <<>>,
   map_d |-> <<>>, disp |-> <<>>, decal |-> <<>>, bump |-> <<>>, refl |-> <<>>]

CcMap0 == [file |-> "", bu |-> <<>>, bv |-> <<>>, cc |-> <<>>, clamp |-> <<>>, mm |-> <<>>,
           o |-> <<>>, s |-> <<>>, t |-> <<>>, res |-> <<>>]
PlainMap0 == [file |-> "", bu |-> <<>>, bv |-> <<>>, chan |-> <<>>, clamp |-> <<>>, mm |-> <<>>,
              o |-> <<>>, s |-> <<>>, t |-> <<>>, res |-> <<>>]

Vals(a) == [i \in DOMAIN a |-> NumVal(a[i])]

(* One option more in map record m; options without a field are ignored. *)
SetOption(m, x) ==
  LET Put(c, val) == IF c \in DOMAIN m THEN [m EXCEPT ![c] = val] ELSE m
  IN  CASE x.o = "file"     -> Put("file", x.s)
        [] x.o = "-blendu"  -> Put("bu", <<x.b>>)
        [] x.o = "-blendv"  -> Put("bv", <<x.b>>)
        [] x.o = "-cc"      -> Put("cc", <<x.b>>)
        [] x.o = "-clamp"   -> Put("clamp", <<x.b>>)
        [] x.o = "-imfchan" -> Put("chan", <<x.s>>)
        [] x.o = "-mm"      -> Put("mm", <<Vals(x.x)>>)
        [] x.o = "-o"       -> Put("o", <<Vals(x.x)>>)
        [] x.o = "-s"       -> Put("s", <<Vals(x.x)>>)
        [] x.o = "-t"       -> Put("t", <<Vals(x.x)>>)
        [] x.o = "-texres"  -> Put("res", <<x.i>>)
        [] x.o \in {"-bm", "-type"} -> m
CcMap(o)    == FoldLeft(SetOption, CcMap0, o)
PlainMap(o) == FoldLeft(SetOption, PlainMap0, o)
(* -bm and -type: the first one counts. *)
FirstOf(o, k) == SelectSeq(o, LAMBDA x : x.o = k)
BumpOf(o) == LET f == FirstOf(o, "-bm")
             IN  [bm |-> IF f = <<>> THEN <<>> ELSE <<NumVal(f[1].x)>>, map |-> <<PlainMap(o)>>]
ReflOf(o) == LET f == FirstOf(o, "-type")
             IN  [ty |-> IF f = <<>> THEN "" ELSE f[1].s, map |-> <<CcMap(o)>>]

ColourVal(c) == IF c[1] = "spectral" THEN <<c[1], c[2], NumVal(c[3])>>
                ELSE <<c[1], NumVal(c[2]), NumVal(c[3]), NumVal(c[4])>>

FieldOf(k) == IF k = "map_disp" THEN "disp" ELSE k
ValueOf(s) ==
  CASE s.k \in ColourKw   -> ColourVal(s.c)
    [] s.k \in ScalarKw   -> NumVal(s.x)
    [] s.k = "d"          -> <<s.d[1], NumVal(s.d[2])>>
    [] s.k = "illum"      -> s.i
    [] s.k = "map_aat"    -> s.b
    [] s.k \in CcMapKw    -> CcMap(s.o)
    [] s.k \in PlainMapKw -> PlainMap(s.o)
    [] s.k = "bump"       -> BumpOf(s.o)
    [] s.k = "refl"       -> ReflOf(s.o)

DoNewMtl(ms, s)   == Append(ms, Material0(s.a))
DoProperty(ms, s) == [ms EXCEPT ![Len(ms)] = [@ EXCEPT ![FieldOf(s.k)] = <<ValueOf(s)>>]]
Apply(ms, s) == IF s.k = "newmtl" THEN DoNewMtl(ms, s) ELSE DoProperty(ms, s)

AnyBad(ss) == \E i \in DOMAIN ss : ss[i] = Bad
After(ms, ss) == FoldLeft(Apply, ms, ss)
Refused       == [ok |-> FALSE, why |-> "parse"]
NotNewMtl     == [ok |-> FALSE, why |-> "newmtl"]
(* Of two reasons to refuse a file, either may be given; C26 says which. *)
EitherWay     == IF "ERRORS" \in DOMAIN IOEnv THEN Refused ELSE [ok |-> FALSE, why |-> "either"]
(* What a caller of load_mtl sees: the fields C of every material. *)
View(ms, C)   == [ok |-> TRUE, m |-> [n \in DOMAIN ms |-> [c \in C |-> ms[n][c]]]]
Everything    == DOMAIN Material0("")
LoadStatements(ss, C) ==
  IF ss = <<>> THEN EitherWay
  ELSE IF AnyBad(ss) THEN IF ss[1] = Bad THEN EitherWay ELSE IF ss[1].k # "newmtl" THEN EitherWay ELSE Refused
  ELSE IF ss[1].k # "newmtl" THEN NotNewMtl
  ELSE View(After(<<>>, ss), C)
(* load_mtl as a function of the text. *)
LoadMtl(text) == LoadStatements(Statements(Lex(text)), Everything)
LoadPart(text, C) == LoadStatements(Statements(Lex(text)), C)
=============================================================================
