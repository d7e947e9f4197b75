------------------------------ MODULE ObjAlpha ------------------------------
(***************************************************************************)
(* Alphabets of model-file lines for ObjMC and ObjLayout.  Each entry is   *)
(* one statement (a name list may run over several lines).  The "Wide"     *)
(* alphabets have many forms and values, for short histories; the "Core"   *)
(* ones few, for long histories.                                           *)
(***************************************************************************)
EXTENDS Sequences, Integers

DataCore == << "v 1 2 3", "v 4 5 6 0.5", "vn 0 1 0", "vt 0.5", "vt 0.25 0.75", "f 1 2 3",
               "g a" >>
DataWide == << "v 1 2 3", "v 0 0 0", "v 1 1 1 1", "v 1 1 1 1.0", "v 0 0 0 0", "v -1.5 2.25 -0.75",
               "v 1e3 2E-2 +.5", "v 5. -.5 1.5e+2", "v 1 2 3 -1", "v 1 2 3 0.5", "v 3 2 1",
               "v 2147483648 -2147483649 1e38", "v 1e39 -1e39 1e-50", "v 0.1 0.2 0.3",
               "v 16777217 33554435 0.30000001192092896", "v 1.0 1.0 1.0", "v 7 7 8 9",
               "vn 0 1 0", "vn 0 0 0", "vn 1 0 0", "vn -0.577 0.577 -0.577", "vn 1 2 3", "vn 3 4 5",
               "vt 0", "vt 0.5", "vt 1", "vt 0 0", "vt 0 1", "vt 0.5 0.5", "vt 0 0 0", "vt 0.5 0",
               "vt 1 2 3", "vt 0.25 0.5 0.75", "vt 0.5 0.5 0.5", "vt -1 2.5", "vt 1 1 1", "vt 0.5 0 0",
               "vt 1 0 1", "v 0.5 0.5 0.5", "vn 0.5 0.5 0.5" >>
(* Everything else next to data. *)
DataMixed == << "v 1 2 3", "v 1 2 3", "vn 1 2 3", "vt 1 2 3", "v 9 8 7 6", "vt 4", "g a b", "g c", "usemtl m",
                "s 1", "f 1 1 1", "l 1 1", "p 1", "mtllib x.mtl", "o thing", "usemap t", "bevel on",
                "lod 3", "shadow_obj s", "trace_obj r", "maplib y" >>

RefsCore == << "v 1 2 3", "f 1 2 3", "f 1/2 3/4 5/6", "f 1//2 3//4 5//6", "f 1/2/3 4/5/6 7/8/9",
               "f 1 2/3 4//5 6/7/8", "l 1 2", "l 1/2 3/4", "p 1 2 3", "g a" >>
RefsWide == << "f 1 2 3", "f 3 2 1", "f 1 1 1", "f 1", "f 1 2", "f 1 2 3 4", "f 1 2 3 4 5 6 7 8 9",
               "f 1/1 2/2 3/3", "f 1/4 2/5 3/6", "f 1//1 2//2 3//3", "f 1//4 2//5 3//6",
               "f 1/1/1 2/2/2 3/3/3", "f 1/4/7 2/5/8 3/6/9", "f 9/8/7 6/5/4 3/2/1",
               "f 1/ 2/ 3/", "f 1// 2// 3//", "f 1/2/ 3/4/ 5/6/", "f 1/2// 3/4//", "f 1/// 2", "f 1/2/3/ 4/5/6/",
               "f 1 2/ 3// 4/5 6/7/ 8//9 10/11/12", "f 10/11/12 8//9 6/7/ 4/5 3// 2/ 1",
               "f 8//9 1", "f 1 8//9", "f 4/5 1 8//9", "f 1/ 2 3", "f 1// 2 3", "f 1 2 3/", "f 1 2 3//",
               "f 0 0 0", "f 0/0/0 0/0/0", "f 1/0 2/0", "f 1//0 2//0", "f 1/0/2 3/0/4", "f 1/2/0",
               "f 2147483647 2147483646/2147483645/2147483644", "f 65536/65537/65538 255/256/257 32768/32767/32769",
               "f 100000 99999//100001 1000/2000", "f 127/128/129 -7/-8/-9", "f +1/+2/+3 007",
               "f 1/-1 2/-2", "f -5 1", "f -3//-3",
               "l 1", "l 1 2", "l 2 1", "l 1 1", "l 1 2 3 4 5", "l 1/1 2/2", "l 1/3 2/4", "l 1/ 2/", "l 1 2/3", "l 2/3 1",
               "l 1/2 3", "l 0/0", "l 1/0 2", "l 2147483647/2147483646 65536", "l 1/2/ 3/4/", "l 1// 2", "l -1/-2 3",
               "p 1", "p 1 2", "p 3 2 1", "p 1 1 1", "p 0", "p 2147483647 65536 256", "p 1 2 3 4 5 6 7 8 9 10", "p -1 -2", "p +4 05" >>

RelCore == << "v 0 0 0", "vt 0", "vn 0 0 1", "f -1 -2 -1", "f -1/-1/-1 2/-2/-3", "f 1//-1 -2//-2",
              "l -1/-1 -2/-2", "p -1 -2" >>
RelDeep == << "v 0 0 0", "vt 0", "vn 0 0 1", "f -1/-1/-1 -2/-2/-2 -3/-3/-3 1/1/1", "l -1/-2 -3", "p -2 -3" >>
RelWide == << "v 1 1 1", "vt 1", "vn 1 1 1", "g a", "f -1", "f -2", "f -3", "f -4", "f -5", "f -1 -2 -3", "f -3 -2 -1", "f 1 -1", "f -1 1",
              "f -1/-1", "f -2/-1", "f -1/-2", "f -1/1", "f 1/-1", "f -3/-3 -1/-2", "f -4/-4/-4", "f -1/-2/-3", "f -3/-2/-1",
              "f -1//-1", "f -2//-1", "f -1//-2", "f -1//1", "f 1//-1", "f 1/2/-1", "f 1/-1/2", "f -1/1/2", "f -1/ -2// -1",
              "f -2147483648/-2147483648/-2147483648", "f -3/-3/-3 -4/-4/-4 -2/-2/-2", "f -100 -3",
              "l -1", "l -2 -1", "l -1/-1", "l -2/-1", "l -1/-2", "l -3/-3 -4/-4", "l 1/-1", "l -1/1", "l -2147483647 -5/-5", "l -1/ -2/",
              "p -1", "p -2", "p -3", "p -4", "p -1 -2 -3 1", "p -2147483648", "p -5 -1" >>
RelStart == << 1, 2, 3, 1, 1, 2, 3, 3, 3, 1, 2, 2, 2 >>   \* 4 vertices, 5 texture coordinates, 4 normals, before RelWide

GroupsCore == << "g a", "g b", "g a b", "g default", "f 1 2 3", "l 1 2", "p 1" >>
GroupsMore == << "g a{0A}b", "g b{0A}a{0A}b", "g A", "g a b{0A}c", "g default{0A}a", "g a", "g b", "f 4 5 6", "f 7 8 9", "l 3 4",
                 "p 5", "usemtl m", "s 3", "o x", "v 1 2 3", "usemap z", "mtllib q" >>
GroupsWide == << "g a", "g A", "g aa", "g a{0A}b", "g b{0A}a", "g a b", "g a{0A}a", "g a{0A}a{0A}b", "g default", "g Default", "g DEFAULT",
                 "g a{0A}b{0A}c{0A}d{0A}e", "g e{0A}d", "g 1", "g 1 2", "g off", "g default{0A}a", "g a{0A}default", "g v", "g {E9}",
                 "G a", "f 1 2 3", "f 4 5 6", "F 7 8 9", "l 1 2", "l 3 4", "p 1 2", "p 3", "usemtl a", "usemap b", "s 1", "s off", "o a", "o b",
                 "v 1 2 3", "vt 1", "vn 1 2 3", "mtllib a", "maplib a", "bevel on", "c_interp on", "d_interp on", "lod 5",
                 "shadow_obj a", "trace_obj a" >>

SetCore == << "g a", "g b", "g a{0A}b", "g default", "usemtl m", "usemap t", "bevel on", "bevel off", "lod 7" >>
SetFlags == << "g a", "g b", "bevel on", "bevel off", "c_interp on", "c_interp off", "d_interp on", "d_interp off", "lod 1" >>
SetNames == << "g a", "g a{0A}b", "g b{0A}c", "usemtl m", "usemtl n", "usemtl m", "usemap t", "usemap u", "f 1 2 3", "s 1" >>
SetWide == << "g a", "g b", "g A", "g a{0A}b", "g b{0A}c", "g default", "g default{0A}a", "usemtl m", "usemtl n", "usemtl M", "usemtl a", "usemtl default",
              "usemap t", "usemap u", "usemap off", "usemap m", "bevel on", "bevel off", "c_interp on", "c_interp off", "d_interp on", "d_interp off",
              "lod 0", "lod 1", "lod 50", "lod 99", "lod 100", "s 1", "s off", "o x", "f 1 2 3", "l 1 2", "p 1", "v 1 2 3", "mtllib m.mtl", "maplib t",
              "shadow_obj m", "trace_obj m", "vn 0 0 1", "vt 0" >>

SmoothCore == << "s 1", "s 2", "s off", "s on", "s word", "f 1 2 3", "g a", "g b", "usemtl m" >>
SmoothDeep == << "s 3", "s OFF", "s 0", "f 1 2 3", "g a{0A}b" >>
SmoothWide == << "s 0", "s 1", "s 2", "s 31", "s 32", "s 33", "s 64", "s 127", "s 128", "s 255", "s 256", "s 65535", "s 65536", "s 2147483647",
                 "s -1", "s -2147483648", "s +4", "s 007", "s on", "s ON", "s On", "s oN", "s off", "s OFF", "s Off", "s oFf", "s word", "s onn", "s no", "s offf", "s none", "s null", "s true", "s one",
                 "s on off", "S 5", "f 1 2 3", "f 4/5/6 7 8//9", "g a", "g b", "g a{0A}b", "g default", "usemtl m", "usemap t", "bevel on", "lod 9", "o x",
                 "l 1 2", "p 1", "v 1 2 3", "vn 1 1 1", "vt 1", "c_interp on", "d_interp on", "mtllib m", "maplib m", "shadow_obj m", "trace_obj m" >>

LibsCore == << "mtllib a.mtl", "mtllib b.mtl{0A}c.mtl", "maplib t", "shadow_obj s", "shadow_obj q", "trace_obj r", "o x", "g a" >>
LibsWide == << "mtllib a.mtl", "mtllib b.mtl", "mtllib A.mtl", "mtllib a.mtl b.mtl", "mtllib a.mtl{0A}b.mtl", "mtllib b.mtl{0A}a.mtl{0A}b.mtl", "mtllib a.mtl{0A}a.mtl", "mtllib 1", "mtllib f",
               "maplib a.mtl", "maplib t", "maplib t u", "maplib t{0A}u{0A}w", "maplib u{0A}t", "maplib t{0A}t", "maplib 2.5", "maplib v",
               "shadow_obj a.mtl", "shadow_obj s", "shadow_obj s 1", "shadow_obj off", "shadow_obj on", "shadow_obj none", "shadow_obj 5",
               "trace_obj a.mtl", "trace_obj r", "trace_obj r 1", "trace_obj s", "trace_obj off", "trace_obj none", "trace_obj 5",
               "o x", "o a.mtl", "o 1", "o off", "o a b c", "o default", "g a", "g b", "usemtl a.mtl", "usemap t", "f 1 2 3", "v 1 2 3", "s 1",
               "MTLLIB c", "Maplib c", "Shadow_Obj c", "TRACE_OBJ c", "O c", "lod 1", "bevel on" >>

(* Names that look like something else, in every place that takes a name. *)
NamesAll == << "a", "A", "1", "-1", "+1", "007", "1.5", ".5", "5.", "1e5", "1.5e+3x", "-", "--", "+", ".", "..", "/", "//", "1/2", "1//2/3", "a/b/c.mtl", "/abs/path.mtl", "..{5C}up{5C}x.mtl",
               "v", "vn", "f", "g", "G", "o", "s", "l", "p", "usemtl", "usemtl x", "v 1 2 3", "mtllib", "MTLLIB", "off", "on", "ON", "default",
               "a b", "a  b", "a{09}b", "a b c d", "1 2 3", "a 1", "1 a", "x#y", "x #y", "a#", "2147483648", "99999999999999999999", "1x", "0x10", "3d", "1e", "1.2.3", "-o", "-clamp on",
               "Material.001", "wood.oak.png", "na{EF}ve", "{65E5}{672C}", "{212A}", "{1F600}", "{C0}", "{130}", "{17F}", "{A0}x", "x{A0}", "{3000}", "{FEFF}a", "{2028}b", "{85}c", "{0B}d", "{0C}", "e{0C}",
               "{00}", "{7F}", "{22}q{22}", "'q'", "{5C}", "a{5C}", "{7B}b{7D}", "(c)", "[d]", "$e", "%20", "&", "*", "@", "!", "?", ":", ";", ",", "=", "<>", "|", "~", "`", "^", "_", "__a__",
               "newmtl", "map_Kd", "ka", "xyz", "spectral", "mtllib_x", "vv", "gg", "f1", "fff", "s1", "o_o", "longer_than_any_keyword_and_then_some_more_to_be_sure",
   "a/../b", "./a", "a/./b", "a//b", "../a", "a/", "a/..", "C:{5C}x{5C}y.mtl", "{5C}{5C}host{5C}x", "~/x", "file:///x", "ns:name", "a:b:c", "{22}a b{22}", "{22}a", "a{22}", "'a b'", "a=b", "a;b", "a,b", "$HOME", "${7B}x{7D}", "a{5C}nb", "a{5C} b", "a*", "a.", "a..b", "a...", "a-b", "a_b", "_", "null", "NULL", "(null)", "none", "None", "nil", "undefined", "true", "unnamed", "group_0", "Default", "DefaultMaterial", "__default__", "default_group", "a_default", "EOF", "end", "eof", "include", "a [1]", "[a]", "@a", "a##b", "1.0.0", "0", "00", "-0", "inf", "nan", "NaN", "1e400", "{661}" >>
AfterKeyword(k) == [i \in DOMAIN NamesAll |-> k \o " " \o NamesAll[i]]
NamesWide == AfterKeyword("g") \o AfterKeyword("o") \o AfterKeyword("usemtl") \o AfterKeyword("usemap") \o
             AfterKeyword("mtllib") \o AfterKeyword("maplib") \o AfterKeyword("shadow_obj") \o AfterKeyword("trace_obj")
NamesCore == << "g 1", "g v", "g x y", "g a", "usemtl 1", "usemtl f 1", "usemap 1.5", "usemap -x", "mtllib g", "mtllib 3 4", "maplib 1e5", "maplib vt", "shadow_obj 2", "shadow_obj g g",
                "trace_obj +", "trace_obj /", "o 1", "o 1 2", "o v", "f 1 2 3", "v 1 2 3", "s 1" >>

FlagsWide == << "bevel on", "bevel ON", "bevel On", "bevel oN", "bevel off", "bevel OFF", "bevel Off", "bevel oFf", "bevel OfF",
                "c_interp on", "c_interp ON", "c_interp On", "c_interp oN", "c_interp off", "c_interp OFF", "c_interp Off", "c_interp ofF",
                "d_interp on", "d_interp ON", "d_interp On", "d_interp oN", "d_interp off", "d_interp OFF", "d_interp Off", "d_interp oFF",
                "g a", "g b", "BEVEL on", "C_Interp On", "D_INTERP ON" >>

(* One of everything, and a second, different one of everything that keeps state. *)
AllKinds == << "v 1 2 3", "v 4 5 6 7", "vn 1 2 3", "vn 4 5 6", "vt 1", "vt 2 3", "vt 4 5 6", "f 1 2 3", "f -1/-1/-1 2//2 3/3", "l 1 2/1", "l -1/-1 -2", "p 1 -1", "g a", "g b", "g b{0A}c", "g default",
               "usemtl m", "usemtl n", "usemap t", "usemap u", "bevel on", "bevel off", "c_interp on", "c_interp off", "d_interp on", "d_interp off", "lod 3", "lod 0",
               "s 1", "s off", "s 4", "mtllib x.mtl", "mtllib y.mtl{0A}z.mtl", "maplib q", "shadow_obj h", "shadow_obj i", "trace_obj j", "trace_obj k", "o thing", "o other" >>
KindsCore == << "v 1 2 3", "vn 1 2 3", "vt 1", "f 1//1 -1/-1", "l 1/1 -1", "p -1", "g a", "usemtl m", "usemap t", "bevel on", "lod 3", "s 1", "mtllib x", "maplib y", "shadow_obj h", "trace_obj k", "o q" >>

(* The same without a reference that could stay negative. *)
Settled == SelectSeq(AllKinds, LAMBDA x : x \notin {"f -1/-1/-1 2//2 3/3", "l -1/-1 -2", "p 1 -1"})
           \o << "f 3//1 2//2 9//9", "f 7/2 1/1/1", "l 2/3 1", "p 4 4 2", "g b{0A}default", "v 1 2 3", "v 7 8 9", "vt 1 0 0", "vn 0 0 1" >>

(* Files to be put after others: references of one sort, groups of their own. *)
JoinCommon == << "v 1 2 3", "v 4 5 6 7", "vn 7 8 9", "vt 1 2", "g own{0A}other", "g other", "g own", "usemtl m", "usemap q", "bevel on", "c_interp on", "d_interp on", "lod 9",
                 "s 7", "s off", "mtllib y.mtl", "maplib w", "shadow_obj h", "trace_obj j", "o thing" >>
JoinRelative == JoinCommon \o << "f -1/-1/-1 -2//-1 -1", "f -1 -1 -1", "l -1/-1 -2", "p -1 -2" >>
JoinAbsolute == JoinCommon \o << "f 1/1/1 2//1 9", "f 1 2 3", "l 1/1 2", "p 1 2 3" >>

(* Object names among what they must not change. *)
Objects == << "o x", "o default", "o off", "g a", "s 3", "usemtl m", "v 1 2 3", "f -1 1", "mtllib q" >>
ObjectsWide == << "o x", "o a", "o 1", "o 2 3", "o default", "o off", "o on", "o v 1 2 3", "o {65E5}", "O y", "o", "o a{5C}b" >>

(* The same word in every role; words that are nearly the same. *)
SameNames == << "g a", "g b", "g a{0A}b", "o a", "o b", "usemtl a", "usemap a", "mtllib a", "maplib a", "shadow_obj a", "trace_obj a", "s 1", "f 1 2 3", "l 1 2" >>
AlikeNames == << "g wood", "g wood.001", "g Wood", "g woo", "g wood {5F}", "g wood{0A}wood.001", "usemtl wood", "usemtl wood.001", "usemtl Wood", "f 1 2 3", "p 1", "lod 3" >>
AlikeLibs == << "mtllib wood.mtl", "mtllib ./wood.mtl", "mtllib Wood.mtl", "mtllib wood.mtl{0A}wood", "maplib wood.mtl", "maplib wood", "shadow_obj wood.mtl", "shadow_obj Wood.mtl", "trace_obj wood.mtl", "trace_obj wood", "usemap wood.mtl", "o wood" >>

Alphabets == [
  joinRelative |-> JoinRelative, joinAbsolute |-> JoinAbsolute,
  sameNames |-> SameNames, alikeNames |-> AlikeNames, alikeLibs |-> AlikeLibs,
  objects |-> Objects, objectsWide |-> SelectSeq(ObjectsWide, LAMBDA x : x # "o") \o AllKinds,
  dataCore |-> DataCore, dataWide |-> DataWide, dataMixed |-> DataMixed,
  refsCore |-> RefsCore, refsWide |-> RefsWide,
  relCore |-> RelCore, relDeep |-> RelDeep, relWide |-> RelWide,
  groupsCore |-> GroupsCore, groupsMore |-> GroupsMore, groupsWide |-> GroupsWide,
  setCore |-> SetCore, setFlags |-> SetFlags, setNames |-> SetNames, setWide |-> SetWide,
  smoothCore |-> SmoothCore, smoothDeep |-> SmoothDeep, smoothWide |-> SmoothWide,
  libsCore |-> LibsCore, libsWide |-> LibsWide,
  namesCore |-> NamesCore, namesWide |-> NamesWide,
  flagsWide |-> FlagsWide, allKinds |-> AllKinds, settled |-> Settled, kindsCore |-> KindsCore,
  everything |-> DataWide \o RefsWide \o RelWide \o GroupsWide \o SetWide \o SmoothWide \o LibsWide \o NamesWide \o FlagsWide
]
(* Lines read before the histories of an alphabet start. *)
Starts == [relWide |-> RelStart]
=============================================================================
