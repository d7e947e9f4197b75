--------------------------------- MODULE Obj ---------------------------------
(***************************************************************************)
(* The model a .obj file denotes, as a state machine over statements.      *)
(*                                                                         *)
(* State (one record, m):                                                  *)
(*   v, n, t   vertices, normals, texture coordinates: tuples of numbers   *)
(*   f, l, p   group name -> elements, in file order                       *)
(*   g         group name -> settings                                      *)
(*   ml, tl    material and texture library names                          *)
(*   so, ro    shadow and trace object: <<>> or <<name>>                   *)
(* and the reading context, which the result does not show:                *)
(*   cur       names of the current groups                                 *)
(*   sm        current smoothing group                                     *)
(*                                                                         *)
(* Numbers are kept as their literals and interpreted by NumVal: the       *)
(* identity when behaviours are generated, the recorded float of the       *)
(* literal when a trace of the library is validated.                       *)
(***************************************************************************)
EXTENDS ObjLex
CONSTANT NumVal(_)

Settings0 == [mat |-> "", bevel |-> FALSE, ci |-> FALSE, di |-> FALSE, lod |-> 0, tm |-> <<>>]
NoGroup   == [x \in {} |-> <<>>]
Model0 == [v |-> <<>>, n |-> <<>>, t |-> <<>>, f |-> NoGroup, l |-> NoGroup, p |-> NoGroup,
           g |-> [x \in {"default"} |-> Settings0],
           ml |-> <<>>, tl |-> <<>>, so |-> <<>>, ro |-> <<>>,
           cur |-> {"default"}, sm |-> 0]

Vals(a) == [i \in DOMAIN a |-> NumVal(a[i])]

(* A negative reference counts back from the data read so far. *)
Resolve(i, count) == IF i < 0 /\ i >= 0 - count THEN count + 1 + i ELSE i
ResolveOpt(o, count) == IF o = <<>> THEN o ELSE <<Resolve(o[1], count)>>
ResolveRef(m, r) == [v |-> Resolve(r.v, Len(m.v)), t |-> ResolveOpt(r.t, Len(m.t)),
                     n |-> ResolveOpt(r.n, Len(m.n))]

(* fn with e appended to the list of every name in G. *)
AppendTo(fn, G, e) ==
  [x \in DOMAIN fn \cup G |->
     IF x \in G THEN (IF x \in DOMAIN fn THEN Append(fn[x], e) ELSE <<e>>) ELSE fn[x]]
(* Settings with field c of every current group set to val. *)
SetField(m, c, val) ==
  [m EXCEPT !.g = [x \in DOMAIN m.g |->
                     IF x \in m.cur THEN [m.g[x] EXCEPT ![c] = val] ELSE m.g[x]]]

DoVertex(m, s)  == [m EXCEPT !.v = Append(@, Vals(s.a))]
DoNormal(m, s)  == [m EXCEPT !.n = Append(@, Vals(s.a))]
DoTexture(m, s) == [m EXCEPT !.t = Append(@, Vals(s.a))]
DoFace(m, s)    == [m EXCEPT !.f = AppendTo(@, m.cur,
                      [s |-> m.sm, r |-> [i \in DOMAIN s.r |-> ResolveRef(m, s.r[i])]])]
DoLine(m, s)    == [m EXCEPT !.l = AppendTo(@, m.cur,
                      [i \in DOMAIN s.r |-> [v |-> Resolve(s.r[i].v, Len(m.v)),
                                             t |-> ResolveOpt(s.r[i].t, Len(m.t))]])]
DoPoint(m, s)   == [m EXCEPT !.p = AppendTo(@, m.cur,
                      [i \in DOMAIN s.r |-> Resolve(s.r[i], Len(m.v))])]
DoGroup(m, s)   == LET G == {s.a[i] : i \in DOMAIN s.a}
                   IN  [m EXCEPT !.cur = G,
                          !.g = [x \in DOMAIN @ \cup G |->
                                   IF x \in DOMAIN m.g THEN m.g[x] ELSE Settings0]]
DoSmooth(m, s)  == [m EXCEPT !.sm = s.i]
DoUseMtl(m, s)  == SetField(m, "mat", s.a)
DoUseMap(m, s)  == SetField(m, "tm", <<s.a>>)
DoBevel(m, s)   == SetField(m, "bevel", s.b)
DoCInterp(m, s) == SetField(m, "ci", s.b)
DoDInterp(m, s) == SetField(m, "di", s.b)
DoLod(m, s)     == SetField(m, "lod", s.i)
DoMtlLib(m, s)  == [m EXCEPT !.ml = @ \o s.a]
DoMapLib(m, s)  == [m EXCEPT !.tl = @ \o s.a]
DoShadow(m, s)  == [m EXCEPT !.so = <<s.a>>]
DoTrace(m, s)   == [m EXCEPT !.ro = <<s.a>>]
DoObject(m, s)  == m

Apply(m, s) ==
  CASE s.k = "v" -> DoVertex(m, s)          [] s.k = "vn" -> DoNormal(m, s)
    [] s.k = "vt" -> DoTexture(m, s)        [] s.k = "f" -> DoFace(m, s)
    [] s.k = "l" -> DoLine(m, s)            [] s.k = "p" -> DoPoint(m, s)
    [] s.k = "g" -> DoGroup(m, s)           [] s.k = "s" -> DoSmooth(m, s)
    [] s.k = "usemtl" -> DoUseMtl(m, s)     [] s.k = "usemap" -> DoUseMap(m, s)
    [] s.k = "bevel" -> DoBevel(m, s)       [] s.k = "c_interp" -> DoCInterp(m, s)
    [] s.k = "d_interp" -> DoDInterp(m, s)  [] s.k = "lod" -> DoLod(m, s)
    [] s.k = "mtllib" -> DoMtlLib(m, s)     [] s.k = "maplib" -> DoMapLib(m, s)
    [] s.k = "shadow_obj" -> DoShadow(m, s) [] s.k = "trace_obj" -> DoTrace(m, s)
    [] s.k = "o" -> DoObject(m, s)

(* What a caller of load_obj sees, whole or in part. *)
MapIn(fn, F(_)) == [x \in DOMAIN fn |-> [i \in DOMAIN fn[x] |-> F(fn[x][i])]]
Part(m, c) ==
  CASE c = "ok" -> TRUE
    [] c = "fr" -> MapIn(m.f, LAMBDA e : e.r)                              \* references only
    [] c = "fs" -> MapIn(m.f, LAMBDA e : e.s)                              \* smoothing only
    [] c = "fv" -> MapIn(m.f, LAMBDA e : [i \in DOMAIN e.r |-> e.r[i].v])  \* vertices only
    [] c = "lv" -> MapIn(m.l, LAMBDA e : [i \in DOMAIN e |-> e[i].v])
    [] c = "gn" -> [x \in DOMAIN m.g |-> TRUE]                             \* group names only
    [] c = "gb" -> [x \in DOMAIN m.g |-> <<m.g[x].bevel, m.g[x].ci, m.g[x].di>>]
    [] OTHER -> m[c]
View(m, C) == [c \in C |-> Part(m, c)]
Everything == {"ok", "v", "n", "t", "f", "l", "p", "g", "ml", "tl", "so", "ro"}
Shown(m) == View(m, Everything)
Refused == [ok |-> FALSE, why |-> "parse"]

AnyBad(ss) == \E i \in DOMAIN ss : ss[i] = Bad
After(m, ss) == FoldLeft(Apply, m, ss)
LoadStatements(ss, C) == IF AnyBad(ss) THEN Refused ELSE View(After(Model0, ss), C)
(* load_obj as a function of the text. *)
LoadObj(text) == LoadStatements(Statements(Lex(text)), Everything)
LoadPart(text, C) == LoadStatements(Statements(Lex(text)), C)
=============================================================================
