------------------------------ MODULE ObjProps ------------------------------
(***************************************************************************)
(* The properties of a model, said about the whole history h of statements *)
(* read so far and without reference to the machine's way of computing.    *)
(***************************************************************************)
EXTENDS Obj

Before(h, i, K) == {j \in 1..(i-1) : h[j].k \in K}
Where(h, P(_)) == SelectSeq([i \in DOMAIN h |-> i], P)       \* positions, ascending
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

GroupNames(s) == {s.a[i] : i \in DOMAIN s.a}
(* The names of the most recent g statement before i, or default. *)
GroupsAt(h, i) == LET P == Before(h, i, {"g"})
                  IN  IF P = {} THEN {"default"} ELSE GroupNames(h[Max(P)])
SmoothAt(h, i) == LET P == Before(h, i, {"s"}) IN IF P = {} THEN 0 ELSE h[Max(P)].i
CountAt(h, i, k) == Cardinality(Before(h, i, {k}))
EverNamed(h) == UNION {GroupNames(h[i]) : i \in {j \in DOMAIN h : h[j].k = "g"}}
In(h, kind, g) == Where(h, LAMBDA i : h[i].k = kind /\ g \in GroupsAt(h, i))

(* C03 *)
DataInOrder(h, m) ==
  /\ m.v = Map(Where(h, LAMBDA i : h[i].k = "v"),  LAMBDA i : Vals(h[i].a))
  /\ m.n = Map(Where(h, LAMBDA i : h[i].k = "vn"), LAMBDA i : Vals(h[i].a))
  /\ m.t = Map(Where(h, LAMBDA i : h[i].k = "vt"), LAMBDA i : Vals(h[i].a))

(* C06: who owns what, and how many; every group has settings. *)
Attribution(h, m) ==
  /\ \A kf \in {<<"f", m.f>>, <<"l", m.l>>, <<"p", m.p>>} :
       /\ DOMAIN kf[2] = {g \in EverNamed(h) \cup {"default"} : In(h, kf[1], g) # <<>>}
       /\ \A g \in DOMAIN kf[2] : Len(kf[2][g]) = Len(In(h, kf[1], g))
  /\ DOMAIN m.g = EverNamed(h) \cup {"default"}

(* Every element with the statement it came from. *)
Owned(h, kind, fn) == {<<In(h, kind, g)[j], fn[g][j]>> : <<g, j>> \in
                         UNION {{<<g, j>> : j \in DOMAIN fn[g]} : g \in DOMAIN fn}}
SameShape(written, got) == written = <<>> <=> got = <<>>
Kept(written, got) == /\ SameShape(written, got)
                      /\ written # <<>> => (written[1] >= 0 => got = written)
(* C04: as many references, in order, in their slots, as written. *)
References(h, m) ==
  /\ \A x \in Owned(h, "f", m.f) :
       LET w == h[x[1]].r  r == x[2].r IN
       /\ Len(w) = Len(r)
       /\ \A i \in DOMAIN w : /\ Kept(<<w[i].v>>, <<r[i].v>>)
                              /\ Kept(w[i].t, r[i].t)
                              /\ Kept(w[i].n, r[i].n)
  /\ \A x \in Owned(h, "l", m.l) :
       LET w == h[x[1]].r  r == x[2] IN
       /\ Len(w) = Len(r)
       /\ \A i \in DOMAIN w : Kept(<<w[i].v>>, <<r[i].v>>) /\ Kept(w[i].t, r[i].t)
  /\ \A x \in Owned(h, "p", m.p) :
       LET w == h[x[1]].r  r == x[2] IN
       Len(w) = Len(r) /\ \A i \in DOMAIN w : Kept(<<w[i]>>, <<r[i]>>)

(* C05: the entry -k denotes is the k-th last one before the statement, now *)
(* and for ever.                                                           *)
Back(h, i, kind, written, got) ==
  (written # <<>> /\ written[1] < 0) =>
     LET back == {j \in Before(h, i, {kind}) : (CountAt(h, i, kind) - CountAt(h, j, kind)) + written[1] = 0}
     IN  IF back = {} THEN got = written
         ELSE got[1] = CountAt(h, Max(back), kind) + 1
Relative(h, m) ==
  /\ \A x \in Owned(h, "f", m.f) : \A i \in DOMAIN x[2].r :
       LET w == h[x[1]].r[i]  r == x[2].r[i] IN
       /\ Back(h, x[1], "v", <<w.v>>, <<r.v>>)
       /\ Back(h, x[1], "vt", w.t, r.t) /\ Back(h, x[1], "vn", w.n, r.n)
  /\ \A x \in Owned(h, "l", m.l) : \A i \in DOMAIN x[2] :
       LET w == h[x[1]].r[i]  r == x[2][i] IN
       Back(h, x[1], "v", <<w.v>>, <<r.v>>) /\ Back(h, x[1], "vt", w.t, r.t)
  /\ \A x \in Owned(h, "p", m.p) : \A i \in DOMAIN x[2] :
       Back(h, x[1], "v", <<h[x[1]].r[i]>>, <<x[2][i]>>)

(* C08 *)
Smoothing(h, m) == \A x \in Owned(h, "f", m.f) : x[2].s = SmoothAt(h, x[1])

(* C07: each setting of each group is the last one given while it was current. *)
LastFor(h, g, kind) == {i \in DOMAIN h : h[i].k = kind /\ g \in GroupsAt(h, i)}
Settings(h, m) ==
  \A g \in DOMAIN m.g :
    LET Is(kind, val, default, F(_)) ==
          LET P == LastFor(h, g, kind) IN val = IF P = {} THEN default ELSE F(h[Max(P)])
    IN  /\ Is("usemtl", m.g[g].mat, "", LAMBDA s : s.a)
        /\ Is("usemap", m.g[g].tm, <<>>, LAMBDA s : <<s.a>>)
        /\ Is("bevel", m.g[g].bevel, FALSE, LAMBDA s : s.b)
        /\ Is("c_interp", m.g[g].ci, FALSE, LAMBDA s : s.b)
        /\ Is("d_interp", m.g[g].di, FALSE, LAMBDA s : s.b)
        /\ Is("lod", m.g[g].lod, 0, LAMBDA s : s.i)

(* C09 *)
Collected(h, kind) == FlattenSeq(Map(Where(h, LAMBDA i : h[i].k = kind), LAMBDA i : h[i].a))
LatestName(h, kind) == LET P == {i \in DOMAIN h : h[i].k = kind}
                       IN  IF P = {} THEN <<>> ELSE <<h[Max(P)].a>>
Libraries(h, m) ==
  /\ m.ml = Collected(h, "mtllib") /\ m.tl = Collected(h, "maplib")
  /\ m.so = LatestName(h, "shadow_obj") /\ m.ro = LatestName(h, "trace_obj")

(* C22, about one step from m to m2 by a statement of kind k. *)
Extends(f1, f2) == /\ DOMAIN f1 \subseteq DOMAIN f2
                   /\ \A g \in DOMAIN f1 : IsPrefix(f1[g], f2[g])
Addresses(k) ==
  CASE k = "v" -> {"v"} [] k = "vn" -> {"n"} [] k = "vt" -> {"t"}
    [] k = "f" -> {"f"} [] k = "l" -> {"l"} [] k = "p" -> {"p"}
    [] k \in {"g", "usemtl", "usemap", "bevel", "c_interp", "d_interp", "lod"} -> {"g"}
    [] k = "mtllib" -> {"ml"} [] k = "maplib" -> {"tl"}
    [] k = "shadow_obj" -> {"so"} [] k = "trace_obj" -> {"ro"}
    [] k \in {"s", "o"} -> {}
ShownFields == {"v", "n", "t", "f", "l", "p", "g", "ml", "tl", "so", "ro"}
AppendOnly(m, m2, k) ==
  /\ \A c \in {"v", "n", "t", "ml", "tl"} : IsPrefix(m[c], m2[c])
  /\ \A c \in {"f", "l", "p"} : Extends(m[c], m2[c])
  /\ DOMAIN m.g \subseteq DOMAIN m2.g
  /\ \A c \in ShownFields \ Addresses(k) : m2[c] = m[c]

Good(h, m) == /\ DataInOrder(h, m) /\ Attribution(h, m) /\ References(h, m)
              /\ Relative(h, m) /\ Smoothing(h, m) /\ Settings(h, m) /\ Libraries(h, m)
=============================================================================
