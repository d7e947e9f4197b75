------------------------------ MODULE MtlProps ------------------------------
(***************************************************************************)
(* The properties of a material list, said about the whole history h of    *)
(* statements and without reference to the machine's way of computing.     *)
(***************************************************************************)
EXTENDS Mtl

NewAt(h) == {i \in DOMAIN h : h[i].k = "newmtl"}
NewBefore(h, i) == Cardinality({j \in NewAt(h) : j <= i})
(* The statements of material n that set field c. *)
Setters(h, n, c) == {i \in DOMAIN h : h[i].k # "newmtl" /\ NewBefore(h, i) = n /\ FieldOf(h[i].k) = c}
Fields == DOMAIN Material0("") \ {"name"}

(* C14: one material per newmtl, in order; each field is the value of the  *)
(* last statement of its kind in that material's section, or absent.       *)
Isolation(h, ms) ==
  /\ Len(ms) = Cardinality(NewAt(h))
  /\ \A n \in DOMAIN ms :
       /\ \E i \in NewAt(h) : NewBefore(h, i) = n /\ ms[n].name = h[i].a
       /\ DOMAIN ms[n] = DOMAIN Material0("")
       /\ \A c \in Fields : LET P == Setters(h, n, c)
                            IN  IF P = {} THEN ms[n][c] = <<>> ELSE Len(ms[n][c]) = 1

(* The statement behind each field that is present. *)
Set(h, ms) == {<<n, c, Max(Setters(h, n, c))>> : <<n, c>> \in
                 {<<n, c>> \in (DOMAIN ms) \X Fields : Setters(h, n, c) # {}}}

(* C16 *)
ColoursKept(h, ms) == \A x \in Set(h, ms) : x[2] \in ColourKw =>
  LET w == h[x[3]].c  v == ms[x[1]][x[2]][1] IN
  v[1] = w[1] /\ Len(v) = Len(w) /\ \A i \in 2..Len(w) :
     v[i] = IF w[1] = "spectral" /\ i = 2 THEN w[i] ELSE NumVal(w[i])
(* C17 *)
ScalarsKept(h, ms) == \A x \in Set(h, ms) :
  LET s == h[x[3]]  v == ms[x[1]][x[2]][1] IN
  /\ x[2] \in ScalarKw => v = NumVal(s.x)
  /\ x[2] = "d" => v = <<s.d[1], NumVal(s.d[2])>>
  /\ x[2] = "illum" => v = s.i
  /\ x[2] = "map_aat" => v = s.b
(* C18, C19: each option of a map is the last one written (first for -bm   *)
(* and -type), and absent if not written.                                  *)
OptField == [bu |-> "-blendu", bv |-> "-blendv", cc |-> "-cc", clamp |-> "-clamp",
             chan |-> "-imfchan", mm |-> "-mm", o |-> "-o", s |-> "-s", t |-> "-t",
             res |-> "-texres"]
OptValue(x) == CASE x.o \in {"-blendu", "-blendv", "-cc", "-clamp"} -> x.b
                 [] x.o \in {"-imfchan", "-type"} -> x.s
                 [] x.o = "-texres" -> x.i
                 [] x.o = "-bm" -> NumVal(x.x)
                 [] x.o \in {"-mm", "-o", "-s", "-t"} -> Vals(x.x)
Written(o, k) == {i \in DOMAIN o : o[i].o = k}
MapOptions(o, m) ==
  /\ \A c \in DOMAIN m \ {"file"} :
       LET P == Written(o, OptField[c])
       IN  m[c] = IF P = {} THEN <<>> ELSE <<OptValue(o[Max(P)])>>
  /\ LET P == Written(o, "file")
     IN  m.file = IF P = {} THEN "" ELSE o[Max(P)].s
First(o, k) == LET P == Written(o, k) IN IF P = {} THEN <<>> ELSE <<OptValue(o[Min(P)])>>
MapsKept(h, ms) == \A x \in Set(h, ms) : LET s == h[x[3]]  v == ms[x[1]][x[2]][1] IN
  /\ x[2] \in CcMapKw => MapOptions(s.o, v) /\ "cc" \in DOMAIN v /\ "chan" \notin DOMAIN v
  /\ x[2] \in PlainMapKw => MapOptions(s.o, v) /\ "chan" \in DOMAIN v /\ "cc" \notin DOMAIN v
  /\ x[2] = "bump" => MapOptions(s.o, v.map[1]) /\ v.bm = First(s.o, "-bm") /\ "chan" \in DOMAIN v.map[1]
  /\ x[2] = "refl" => MapOptions(s.o, v.map[1]) /\ "cc" \in DOMAIN v.map[1]
                      /\ (IF Written(s.o, "-type") = {} THEN v.ty = "" ELSE <<v.ty>> = First(s.o, "-type"))

(* C23: one step touches the last material only, in one field, or adds one. *)
TouchesLast(ms, ms2, s) ==
  IF s.k = "newmtl" THEN ms2 = Append(ms, Material0(s.a))
  ELSE /\ Len(ms2) = Len(ms)
       /\ \A n \in 1..(Len(ms) - 1) : ms2[n] = ms[n]
       /\ \A c \in DOMAIN ms[Len(ms)] \ {FieldOf(s.k)} : ms2[Len(ms)][c] = ms[Len(ms)][c]

Good(h, ms) == Isolation(h, ms) /\ ColoursKept(h, ms) /\ ScalarsKept(h, ms) /\ MapsKept(h, ms)
=============================================================================
