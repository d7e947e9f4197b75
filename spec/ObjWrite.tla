------------------------------ MODULE ObjWrite ------------------------------
(***************************************************************************)
(* Writing models down (C25).  A state is a model, however it came about;   *)
(* TLC reaches every model of at most Depth statements of an alphabet, or   *)
(* (Walk) goes at random to models of Depth statements.  Each is written    *)
(* out whole, group by group, in up to three ways, and the text has to load  *)
(* as that model: in the specification (RoundTrip) and, printed for         *)
(* replay, in the library.                                                 *)
(***************************************************************************)
EXTENDS Obj, ObjAlpha, TLC, Json
CONSTANTS Alpha, Depth, Walk, Fields

Lines == Alphabets[Alpha]
ASSUME TLCSet(2, TLCEval([i \in DOMAIN Lines |-> Chars(Lines[i] \o "{0A}")]))
LineChars == TLCGet(2)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(LineChars[i]))[1]]))
Meanings == TLCGet(1)

NL == "{0A}"
I(n) == ToString(n)
Switch(b) == IF b THEN "on" ELSE "off"
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN "" ELSE " " \o Head(ws) \o Spaced(Tail(ws))
Line(k, ws) == <<k \o Spaced(ws) \o NL>>
EachOf(s, F(_)) == Join([i \in DOMAIN s |-> F(s[i])])
OptOf(o, F(_)) == IF o = <<>> THEN <<>> ELSE F(o[1])

(* One reference; R, S and T write a vertex, texture and normal number. *)
FaceRef(r, R(_), S(_), T(_)) ==
  I(R(r.v)) \o (IF r.t # <<>> THEN "/" \o I(S(r.t[1])) ELSE IF r.n # <<>> THEN "/" ELSE "")
            \o (IF r.n # <<>> THEN "/" \o I(T(r.n[1])) ELSE "")
LineRef(r, R(_), S(_)) == I(R(r.v)) \o (IF r.t # <<>> THEN "/" \o I(S(r.t[1])) ELSE "")

Elements1(m, x, R(_), S(_), T(_)) ==
  (IF x \in DOMAIN m.f THEN EachOf(m.f[x], LAMBDA e : Line("s", <<I(e.s)>>) \o Line("f", [i \in DOMAIN e.r |-> FaceRef(e.r[i], R, S, T)])) ELSE <<>>)
  \o (IF x \in DOMAIN m.l THEN EachOf(m.l[x], LAMBDA e : Line("l", [i \in DOMAIN e |-> LineRef(e[i], R, S)])) ELSE <<>>)
  \o (IF x \in DOMAIN m.p THEN EachOf(m.p[x], LAMBDA e : Line("p", [i \in DOMAIN e |-> I(R(e[i]))])) ELSE <<>>)
Settings1(s) ==
  (IF s.mat # "" THEN Line("usemtl", <<s.mat>>) ELSE <<>>) \o OptOf(s.tm, LAMBDA n : Line("usemap", <<n>>))
  \o Line("bevel", <<Switch(s.bevel)>>) \o Line("c_interp", <<Switch(s.ci)>>) \o Line("d_interp", <<Switch(s.di)>>) \o Line("lod", <<I(s.lod)>>)
(* Group by group, the default group last. *)
Groups1(m, R(_), S(_), T(_)) ==
  EachOf(SetToSeq(DOMAIN m.g \ {"default"}) \o <<"default">>,
         LAMBDA x : Line("g", <<x>>) \o Settings1(m.g[x]) \o Elements1(m, x, R, S, T))
(* The default group first, without being entered; settings after elements. *)
Groups2(m, R(_), S(_), T(_)) ==
  EachOf(<<"default">> \o SetToSeq(DOMAIN m.g \ {"default"}),
         LAMBDA x : (IF x = "default" THEN <<>> ELSE Line("g", <<x>>)) \o Elements1(m, x, R, S, T) \o Settings1(m.g[x]))
(* Groups that hold the same, written as one list of groups. *)
Holds(m, x) == LET In(fn) == IF x \in DOMAIN fn THEN fn[x] ELSE <<>> IN <<m.g[x], In(m.f), In(m.l), In(m.p)>>
Groups3(m, R(_), S(_), T(_)) ==
  LET All == DOMAIN m.g
      Like(x) == {y \in All : Holds(m, y) = Holds(m, x)}
      Lists == SetToSeq({Like(x) : x \in All})
  IN  EachOf(Lists, LAMBDA G : LET names == SetToSeq(G)
                               IN  Line("g", <<names[1]>>) \o [i \in 1..(Len(names) - 1) |-> names[i + 1] \o NL]
                                   \o Settings1(m.g[names[1]]) \o Elements1(m, names[1], R, S, T))
Data1(m) == EachOf(m.v, LAMBDA a : Line("v", a)) \o EachOf(m.n, LAMBDA a : Line("vn", a)) \o EachOf(m.t, LAMBDA a : Line("vt", a))
Files1(m) == EachOf(m.ml, LAMBDA a : Line("mtllib", <<a>>)) \o EachOf(m.tl, LAMBDA a : Line("maplib", <<a>>))
             \o OptOf(m.so, LAMBDA a : Line("shadow_obj", <<a>>)) \o OptOf(m.ro, LAMBDA a : Line("trace_obj", <<a>>))

Same0(i) == i
(* The same place counted back from the end of n. *)
Back(i, n) == IF i \in 1..n THEN i - n - 1 ELSE i
(* A reference that was left negative has to be written before the data. *)
Refs(m) == UNION ({{r.v} \cup Range(r.t) \cup Range(r.n) : r \in UNION {Range(e.r) : e \in UNION {Range(m.f[x]) : x \in DOMAIN m.f}}}
             \cup {{r.v} \cup Range(r.t) : r \in UNION {Range(e) : e \in UNION {Range(m.l[x]) : x \in DOMAIN m.l}}}
             \cup {UNION {Range(e) : e \in UNION {Range(m.p[x]) : x \in DOMAIN m.p}}})
Open(m) == \E i \in Refs(m) : i < 0

ElementsFirst(m) == Groups1(m, Same0, Same0, Same0) \o Files1(m) \o Data1(m)
DataFirst(m)     == Files1(m) \o Data1(m) \o Groups2(m, Same0, Same0, Same0)
CountedBack(m)   == Data1(m) \o Groups3(m, LAMBDA i : Back(i, Len(m.v)), LAMBDA i : Back(i, Len(m.t)), LAMBDA i : Back(i, Len(m.n))) \o Files1(m)
(* In a list of groups a name that reads as something else cannot come second. *)
Plain(m) == \A x \in DOMAIN m.g : LET ss == Statements(Lex(Chars("g a{0A}" \o x \o NL)))
                                  IN  Len(ss) = 1 /\ ss[1].k = "g" /\ IF ss[1].k = "g" THEN ss[1].a = <<"a", x>> ELSE FALSE
Written(m) == {ElementsFirst(m)} \cup (IF Open(m) THEN {} ELSE {DataFirst(m)} \cup IF Plain(m) THEN {CountedBack(m)} ELSE {})

(* Every statement, or (with TLC -simulate) one at random. *)
Choice(m) == LET from == IF m = <<>> THEN {} ELSE DOMAIN Lines
             IN  IF Walk THEN {RandomElement(from)} ELSE from

VARIABLES m, steps
vars == <<m, steps>>
Init == m = Model0 /\ steps = 0
Next == steps < Depth /\ steps' = steps + 1 /\ \E i \in Choice(m) : m' = Apply(m, Meanings[i])
Spec == Init /\ [][Next]_vars
Due == ~Walk \/ steps = Depth

RoundTrip == Due => \A w \in Written(m) : LoadObj(Chars(FoldLeft(LAMBDA a, b : a \o b, "", w))) = Shown(m)
Emit == Due => \A w \in Written(m) : PrintT(ToJson([ls |-> w, e |-> View(m, Fields)]))
Literal(x) == x
=============================================================================
