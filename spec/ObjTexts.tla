------------------------------ MODULE ObjTexts ------------------------------
(***************************************************************************)
(* Pools of text pieces for ObjText.  A text is one of pre, at most N of    *)
(* atoms in any order with repetition, and one of suf; or one of pre with   *)
(* the atoms in place of every {W}.                                        *)
(***************************************************************************)
EXTENDS AnyChar, Found

Pool(p, a, s) == [pre |-> p, atoms |-> a, suf |-> s, hole |-> FALSE]
With(p, a)    == [pre |-> p, atoms |-> a, suf |-> <<"">>, hole |-> TRUE]
NL == <<"{0A}">>
None == <<"">>

(* Literals. *)
NumChars == << "1", "0", "5", ".", "e", "-", "+" >>
NumPre == << "v ", "v 1 2 3 ", "vn 1 ", "vt ", "vt 7 8 " >>
NumSuf == << " 2 3{0A}", "{0A}" >>
LongDigits == << "1234567890", "0000000000", "9999999999", ".", "e1", "e-2", "E+30", "-" >>
Edge == << "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "0000000001", "-0", "+0", "00", "-0.0", "1e38", "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "1e400", "1e-45", "1.4e-45", "7e-46", "1e-400",
           "16777216", "16777217", "16777219", "33554433", "0.1", "0.30000001192092896", "0.2999999970197678", "1.00000005960464477539", "1.0000000596046448", "1.17549435e-38", "123456789.125", "9007199254740993", "0.000000000000000000000000000000000000000000001",
           "1E5", "1E+5", "1e+05", "1e-0", "01.50", "+.5e1", "-5.e-1", "1e2147483648", "1e-2147483648", "1e99999999999999999999", "0e99999999999", "340282350000000000000000000000000000000", "340282370000000000000000000000000000000",
           "infinity", "inf", "nan", "NaN", "0x1p3", "1_000", "1,5", "1f", "1.5f", "1e", "1e+", "e5", ".", "-.", "+", "--1", "+-1", "1-", "1+1", "1.2.3", ".e5", "1ee5", "1e5.5", "{661}", "{FF11}", "{BD}", "1{A0}" >>
EdgePre == << "v ", "v 1 ", "v 1 2 ", "v 1 2 3 ", "vn ", "vn 1 ", "vn 1 2 ", "vt ", "vt 1 ", "vt 1 2 " >>
EdgeSuf == << "{0A}", " 4{0A}", " 5 6{0A}", "#x{0A}", "" >>

(* Short texts, character by character. *)
Chars1 == << "v", "f", "1", "-", ".", "/", " ", "{0A}", "#", "g", "s" >>
Chars2 == << "f", "l", "1", "2", "/", " ", "-", "{0D}", "#" >>
Odd == << "{212A}", "{1F600}", "{00}", "{0D}", "{09}", "{FEFF}", "{130}", "{A0}", "{2028}", "v", " ", "1", "{0A}", "g" >>
Begins == << "", "v 1 2 3{0A}", "f 1 2 3{0A}g a{0A}", "mtllib x", "v 1 2", "f 1/2", "g ", "s ", "usemtl ", "# c", "lod ", "bevel " >>

(* Arguments of every kind after every keyword. *)
KeyWordsAll == << "v", "vt", "vn", "vp", "f", "l", "p", "s", "g", "o", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj", "bevel", "c_interp", "d_interp", "lod" >>
Before(ks, s) == [i \in DOMAIN ks |-> s \o ks[i]]
Args == << " 1", " -2", " 1.5", " on", " 1/2", "/", " vp", "{0A}2" >>
ArgsFew == << " 1", " 0.5", " a", "//3" >>
Unknown == << "cstype", "deg", "bmat", "step", "curv", "curv2", "surf", "parm", "trim", "hole", "scrv", "sp", "end", "con", "mg", "ctech", "stech", "call", "csh", "x", "vv", "fo", "vp", "group", "w", "//", "1", "-", "usemtll", "Vtt", "newmtl", "Kd", "{212A}", "endobj", "{17F}", "u{17F}emtl", "u{17F}emap", "{17F}hadow_obj", "us{E9}mtl", "{FF56}", "v{200B}", "v{A0}", "v{FEFF}", "f{301}", "g{FE0F}", "c_{131}nterp", "bev{1C9}", "mt{1C9}{131}b" >>

(* Whole statements, good and bad. *)
BadLines == << "v 1 2{0A}", "v{0A}", "v 1 2 3 4 5{0A}", "v a b c{0A}", "v 1 2 x{0A}", "vn 1 2{0A}", "vn 1 2 3 4{0A}", "vt{0A}", "vt 1 2 3 4{0A}", "vt x{0A}", "vp 1{0A}", "f{0A}", "f a{0A}", "f 1.5 2 3{0A}", "f 1/x 2 3{0A}", "f 1/2/3/4 5 6{0A}", "f /1 2 3{0A}", "f 1 2 3 x{0A}", "f 1/1.5/2{0A}",
   "l{0A}", "l a{0A}", "l 1.5{0A}", "l 1/2/3 4{0A}", "l 1//2{0A}", "p{0A}", "p 1.5{0A}", "p 1/2{0A}", "p a{0A}", "s{0A}", "s 1 2{0A}", "s 1.5{0A}", "s 2147483648{0A}", "g{0A}", "g #x{0A}", "o{0A}", "usemtl{0A}", "usemap{0A}", "mtllib{0A}", "maplib{0A}", "shadow_obj{0A}", "trace_obj{0A}", "usemtl #x{0A}",
   "bevel{0A}", "bevel 1{0A}", "bevel on 1{0A}", "c_interp{0A}", "c_interp 0{0A}", "d_interp{0A}", "d_interp 1.5{0A}", "lod{0A}", "lod -1{0A}", "lod 101{0A}", "lod 1.5{0A}", "lod a{0A}", "lod 1 2{0A}", "lod 2147483648{0A}", "lod 256{0A}", "lod 356{0A}",
   "x{0A}", "foo 1 2 3{0A}", "vv 1 2 3{0A}", "mg 1 2{0A}", "curv 0 1 1 2{0A}", "end{0A}", "1{0A}", "-5.5{0A}", "/{0A}", "//{0A}", ".{0A}", "v1 2 3{0A}", "f1 2 3{0A}", "{FEFF}v 1 2 3{0A}", "v 1 2 3x{0A}", "v 1e 2 3{0A}", "f 1 /2{0A}/{0A}", "call a.obj{0A}", "usemtl a{0A}b{0A}", "shadow_obj a{0A}b{0A}", "o a{0A}b{0A}", "usemap a{0A}b{0A}",
   "f 2147483648 1 2{0A}", "p 99999999999{0A}", "f 1 2 -2147483649{0A}", "bevel a b{0A}9{0A}" >>
GoodLines == << "v 1 2 3{0A}", "vn 0 0 1{0A}", "vt 1{0A}", "f 1 1 1{0A}", "l 1 1{0A}", "p 1{0A}", "g a{0A}", "usemtl m{0A}", "s 1{0A}", "# c{0A}", "bevel on{0A}", "lod 3{0A}", "mtllib m{0A}", "o x{0A}", "trace_obj t{0A}" >>
FewGood == << "v 1 2 3{0A}", "f 1 1 1{0A}", "g a{0A}", "s 1{0A}", "# c{0A}" >>
FewBad  == << "v 1 2{0A}", "f a{0A}", "x{0A}", "1{0A}", "lod 101{0A}", "vp 1{0A}", "f 1/2/3/4{0A}" >>

(* Words that are a switch or nearly one. *)
SwitchWords == << "on", "ON", "On", "oN", "off", "OFF", "Off", "oFf", "OfF", "ofF", "onn", "of", "offf", "o", "o n", "onoff", " on", " off", "on ", "yes", "no", "true", "TRUE", "t", "y", "enable", "enabled", "none", "default", "maybe", "1", "0", "+1", "1.0", "-on", "!on", "on.", "on,", "on;", "on/", "/on", "on#", "#on", "{22}on{22}",
                  "{3BF}n", "{FF4F}{FF4E}", "o{307}n", "o{A0}n", "{A0}on", "on{A0}", "on{0D}", "{0B}on", "{09}on", "on{09}", "{0A}on", "{0A}off", "", "-", "bevel", "map_aat", "-clamp", "a.png", "o{FB00}", "{FB00}", "o{131}", "{D6}N", "o{F1}", "o{200B}n", "on{FEFF}", "{FEFF}on", "o{5C}n", "on{5C}", "on'", "oon", "no", "ffo", "fo", "noff", "offon", "on off", "off on", "ON OFF" >>
SwitchPre == << "bevel ", "c_interp ", "d_interp ", "bevel on{0A}g a{0A}bevel ", "g a{0A}c_interp on{0A}c_interp ", "D_Interp{09}" >>

(* Every short name, in every place that takes one. *)
NameChars == << "a", "1", ".", "-", "/", "#", " ", "{E9}", "v", "e", "{09}" >>
NamePre == << "g ", "o ", "usemtl ", "usemap ", "mtllib ", "maplib ", "shadow_obj ", "trace_obj " >>

(* Any character in any place. *)
AnyNamePre == NamePre \o [i \in DOMAIN NamePre |-> NamePre[i] \o "a"]
AnyPre == << "", "v 1 2 3{0A}", "v 1 2 ", "v 1 2 3", "v", "f 1", "f 1/", "f 1/2/", "f 1/2/3", "f 1 ", "l 1", "p 1", "s ", "s 1", "bevel on", "bevel o", "bevel", "#", "v 1 2 3#", "lod 1", "p -", "vt 1.", "vt 1e", "vt 1e2", "vt -", "{0A}{0A}", "u", "f 1 2 3 ", "g a{0A}" >>
AnySuf == << "", "{0A}v 1 2 3{0A}", " 4{0A}p 1{0A}", "2 3{0A}" >>
(* What a comment may hold. *)
NotePre  == << "#", "v 1 2 3 #", "v 1 2 3#", "g a{0A}#", "s 1{09}# ", "f 1 2 3 ##", "# c{0A}#" >>
NoteWords == << "{5C}", "{22}", "'", "*", "/*", "g b", " v 4 5 6", "{09}", "{0B}", "{0C}", "{85}", "{2028}", "{00}", "{E9}", "{1F600}", "!", "-1", " on", "{0D}", "#", "{0A}" >>
NoteSuf  == << "", "{0A}", "{0A}f 1 2 3{0A}", "{0D}f 1" >>

(* References in any order, also repeated. *)
RefPre == << "v 1 2 3{0A}vt 1{0A}vn 1 2 3{0A}f", "v 1 2 3{0A}v 3 4 5{0A}vt 1{0A}vt 2{0A}l", "v 1 2 3{0A}p", "g a{0A}f" >>
RefWords == << " 1", " 2", " -1", " 1/1", " 1//1", " 1/1/1", " 2/", " -1/-1/-1" >>
RefFew == << " 1", " 2", " -1", " 3" >>

(* Many arguments of a kind. *)
CountPre == KeyWordsAll \o Before(KeyWordsAll, "v 1 2 3{0A}vt 1{0A}vn 1 2 3{0A}g a{0A}")
Counts == Repeats(<<" 1", " 0.5", " a", " 1/1", " 1/1/1", " 1//1", " -1", " on", "{0A}a">>, 12) \o Then(" 1", " 0.5", 5) \o Then(" 0.5", " 1", 4) \o Then(" 1", " a", 4) \o Then(" 1/1", " 1", 4) \o Then(" 1", " 1//1", 4)

(* What a word could do in every place that takes one, and to what was      *)
(* read before.                                                            *)
Full == "v 1 2 3{0A}vt 1{0A}vn 1 2 3{0A}g q{0A}usemtl m{0A}usemap t{0A}bevel on{0A}c_interp on{0A}d_interp on{0A}lod 3{0A}s 7{0A}shadow_obj h{0A}trace_obj r{0A}mtllib z{0A}maplib y{0A}f 1 2 3{0A}"
WordIn == << "g {W}{0A}f 1 2 3{0A}l 1 2{0A}p 1{0A}", "g a{W}{0A}f 1{0A}", "g {W}a{0A}f 1{0A}", "g a {W} b{0A}f 1{0A}", "g {W}.001{0A}usemtl m{0A}g {W}{0A}f 1{0A}", "usemtl {W}{0A}f 1{0A}", "usemtl {W}a{0A}", "usemtl a{W}{0A}", "usemap {W}{0A}f 1{0A}", "usemap a{W}{0A}", "usemap {W}.png{0A}",
   "mtllib {W}{0A}mtllib b{0A}", "mtllib {W}.mtl{0A}", "mtllib a {W}{0A}", "maplib {W}{0A}maplib b{0A}", "maplib a{W}{0A}", "shadow_obj {W}{0A}", "shadow_obj a{W}{0A}", "trace_obj {W}{0A}", "trace_obj a{W}{0A}", "o {W}{0A}f 1{0A}", "o a {W}{0A}f -1{0A}",
   "s {W}{0A}f 1{0A}", "bevel {W}{0A}", "c_interp {W}{0A}", "d_interp {W}{0A}", "lod {W}{0A}", "# {W}{0A}v 4 5 6{0A}f 4 5 6{0A}", "#{W}{0A}g b{0A}f 1{0A}", "v 4 5 6 # {W}{0A}f -1{0A}", "v 4 5 6 #{W}{0A}f 4{0A}", "## {W} 1{0A}f 3{0A}", "# {W}=5{0A}f 3{0A}", "# {W}: 5{0A}v 1 2 3{0A}f -1{0A}",
   "{W}{0A}f 1{0A}", "{W} 1{0A}f 1{0A}", "{W} a{0A}f 1{0A}", "{W}", "f 1{0A}{W} 1 2 3{0A}", "f {W}{0A}", "f 1 2 {W}{0A}f 1{0A}", "v 1 2 {W}{0A}", "v 1 2 3 {W}{0A}f 1{0A}", "f 1/{W}{0A}", "f 1 {W}", "l 1 {W}{0A}", "p {W} 1{0A}", "vt {W}{0A}" >>
WordHistory == << "g a{0A}usemtl {W}{0A}f 1 2 3{0A}g b{0A}f 4 5 6{0A}usemtl m{0A}g a{0A}f 7{0A}", "g {W}{0A}usemtl m{0A}usemap t{0A}bevel on{0A}c_interp on{0A}d_interp on{0A}lod 3{0A}f 1{0A}g b{0A}f 2{0A}g {W}{0A}f 3{0A}l 4 5{0A}p 6{0A}",
   "g a{0A}{W}{0A}f 1{0A}usemtl m{0A}", "g a{0A}{W}{0A}b{0A}f 1{0A}p 2{0A}", "g {W}{0A}a{0A}f 1{0A}l 2{0A}", "mtllib {W}{0A}mtllib b{0A}{W}{0A}maplib {W}{0A}maplib {W}{0A}", "mtllib a{0A}{W}{0A}mtllib {W}{0A}", "maplib a{0A}{W}{0A}maplib {W}{0A}",
   "shadow_obj x{0A}shadow_obj {W}{0A}trace_obj {W}{0A}trace_obj y{0A}", "shadow_obj {W}{0A}shadow_obj y{0A}trace_obj x{0A}trace_obj {W}{0A}", "s 5{0A}s {W}{0A}f 1{0A}g a{0A}f 2{0A}", "s {W}{0A}f 1{0A}s 3{0A}f 2{0A}", "o {W}{0A}g a{0A}o {W}{0A}f 1{0A}v 1 2 3{0A}f -1{0A}",
   "g {W}{0A}o {W}{0A}f 1{0A}", "g {W}{0A}f 1{0A}g a{0A}o {W}{0A}f 2{0A}", "usemtl m{0A}usemtl {W}{0A}usemap t{0A}usemap {W}{0A}f 1{0A}", "usemtl {W}{0A}usemtl m{0A}usemap {W}{0A}usemap t{0A}", "usemap {W}{0A}bevel on{0A}g {W}{0A}", "g a{0A}usemap {W}{0A}usemtl {W}{0A}lod 9{0A}g {W}{0A}lod 8{0A}g a{0A}bevel off{0A}",
   "usemtl a{0A}g b{0A}usemtl {W}{0A}usemtl b{0A}s 3{0A}f 1{0A}", "mtllib {W}{0A}usemtl {W}{0A}g {W}{0A}s 2{0A}o {W}{0A}f 1{0A}maplib {W}{0A}usemap {W}{0A}shadow_obj {W}{0A}trace_obj {W}{0A}f 2{0A}",
   "# {W}{0A}# {W}{0A}v 1 2 3{0A}#{W}{0A}vt 1{0A}f -1/-1{0A}s 2 # {W}{0A}f 1 # {W}{0A}g b{0A}f 2{0A}" >>
ValueIn == << "v {W} 2 3{0A}", "v 1 {W} 3{0A}", "v 1 2 {W}{0A}", "v 1 2 3 {W}{0A}", "v {W} {W} {W}{0A}", "v {W} {W} {W} {W}{0A}", "v {W} 0 0{0A}", "v {W} 1 0 0{0A}", "vn {W} 2 3{0A}", "vn 0 {W} 0{0A}", "vn 0 0 {W}{0A}", "vn {W} {W} {W}{0A}", "vt {W}{0A}", "vt {W} 2{0A}", "vt 1 {W}{0A}", "vt {W} {W}{0A}", "vt 1 2 {W}{0A}", "vt {W} {W} {W}{0A}",
   "v -{W} 2 3{0A}", "vt 0{W}{0A}", "v {W}1 2 3{0A}", "vn {W}e-1 1{W} 2{0A}", "f {W} 1 2{0A}", "f 1 2 {W}{0A}", "f 1/{W} 2/3{0A}", "f 1/2 {W}/{W}{0A}", "f 1//{W} 2//3{0A}", "f {W}/1/2{0A}", "f {W}/{W}/{W}{0A}", "f 1/2/3 {W} 4//5{0A}", "f -{W} -{W}/-{W}/-{W}{0A}", "l {W} 1{0A}", "l 1/{W}{0A}", "l {W}/2 3 {W}{0A}", "p {W}{0A}", "p 1 {W} 2{0A}", "p {W} {W}{0A}",
   "s {W}{0A}f 1{0A}", "s 3{0A}s {W}{0A}f 1{0A}g a{0A}f 2{0A}", "s {W}{0A}f 1{0A}s 3{0A}f 2{0A}", "s -{W}{0A}f 1{0A}", "lod {W}{0A}", "g a{0A}lod 5{0A}lod {W}{0A}", "lod {W}{0A}g a{0A}lod 5{0A}", "o {W}{0A}f 1{0A}", "g {W}{0A}f 1{0A}", "usemtl {W}{0A}", "v {W} 1 1{0A}v {W} 1 1{0A}vn 1 1 {W}{0A}vn 1 1 {W}{0A}vt {W}{0A}vt {W}{0A}f -1 -2/-2/-2{0A}" >>
Mixtures == Before(WordIn, Full)

Pools == [
  counts    |-> Pool(CountPre, Counts, <<"{0A}", "{0A}v 1 2 3{0A}f -1{0A}", "#c{0A}">>),
  foundWords |-> With(WordIn \o Mixtures \o WordHistory, FoundWords),
  foundPairs |-> Pool(<<"g ", "usemtl ", "mtllib ", "o ", "", "s ", "# ">>, [i \in 1..(2 * Len(FoundWords)) |-> IF i % 2 = 0 THEN FoundWords[i \div 2] ELSE " " \o FoundWords[(i + 1) \div 2]], <<"{0A}f 1{0A}">>),
  foundValues |-> With(ValueIn \o Before(ValueIn, Full), FoundValues),
  anyName   |-> Pool(AnyNamePre, AnyChars, <<"{0A}f 1 2 3{0A}", "b{0A}f 1{0A}", " b{0A}s 1{0A}">>),
  anyPlace  |-> Pool(AnyPre, AnyChars, AnySuf),
  notes     |-> Pool(NotePre, NoteWords, NoteSuf),
  refs      |-> Pool(RefPre, RefWords, <<"{0A}v 7 8 9{0A}">>),
  refsFew   |-> Pool(RefPre, RefFew, <<"{0A}">>),
  nameChars |-> Pool(NamePre, NameChars, <<"{0A}f 1 2 3{0A}">>),
  numChars  |-> Pool(NumPre, NumChars, NumSuf),
  numLong   |-> Pool(<<"v ", "vt 1 ">>, LongDigits, <<" 2 3{0A}", "{0A}">>),
  numEdge   |-> Pool(EdgePre, Edge, EdgeSuf),
  chars1    |-> Pool(None, Chars1, None),
  chars2    |-> Pool(<<"f 1">>, Chars2, <<"", "{0A}v 1 2 3">>),
  numEdge2  |-> Pool(<<"v 1 ", "vt ">>, Edge, <<" 2 3{0A}">>),
  odd       |-> Pool(Begins, Odd, <<"", "{0A}f 1 2 3">>),
  args      |-> Pool(KeyWordsAll, Args, <<"{0A}v 1 2 3{0A}">>),
  argsFew   |-> Pool(KeyWordsAll \o Before(KeyWordsAll, "v 1 2 3{0A}"), ArgsFew, <<"", "{0A}f 1 1 1">>),
  unknown   |-> Pool(<<"v 1 2 3{0A}", "", "f 1 2 3{0A}#c{0A}">> \o Before(Unknown, "") \o Before(Unknown, "v 1 2 3{0A}"), ArgsFew, <<"{0A}", "{0A}v 1 2 3{0A}">>),
  badAmid   |-> Pool(None \o GoodLines, BadLines \o GoodLines, None \o FewGood),
  badLong   |-> Pool(None, FewGood \o FewBad, None),
  switch    |-> Pool(SwitchPre, SwitchWords, <<"{0A}", " {0A}f 1 2 3{0A}", "#c", " on{0A}">>)
]
=============================================================================
