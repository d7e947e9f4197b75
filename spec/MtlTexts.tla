------------------------------ MODULE MtlTexts ------------------------------
(***************************************************************************)
(* Pools of text pieces for MtlText, as in ObjTexts.                       *)
(***************************************************************************)
EXTENDS AnyChar, Found

Pool(p, a, s) == [pre |-> p, atoms |-> a, suf |-> s, hole |-> FALSE]
With(p, a)    == [pre |-> p, atoms |-> a, suf |-> <<"">>, hole |-> TRUE]
None == <<"">>
New == "newmtl a{0A}"
Before(ks, s) == [i \in DOMAIN ks |-> s \o ks[i]]

NumChars == << "1", "0", "5", ".", "e", "-", "+" >>
NumPre == << New \o "Ns ", New \o "Ka spectral f ", New \o "map_Kd t -o 1 ", New \o "d -halo " >>
Edge == << "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "0000000001", "-0", "+0", "1e38", "3.4028235e38", "3.4028236e38", "1e39", "1e400", "1e-45", "7e-46", "1e-400",
           "16777217", "33554433", "0.1", "0.2999999970197678", "1.00000005960464477539", "1.17549435e-38", "123456789.125", "9007199254740993",
           "1E5", "1E+5", "1e+05", "01.50", "+.5e1", "-5.e-1", "1e2147483648", "1e-2147483648", "1e99999999999999999999", "340282350000000000000000000000000000000",
           "infinity", "inf", "nan", "0x1p3", "1_000", "1,5", "1f", "1e", "1e+", "e5", ".", "-.", "+", "--1", "+-1", "1-", "1.2.3", ".e5", "1e5.5", "{661}", "{FF11}", "1{A0}", "1/2", "on" >>
EdgePre == << "Ka ", "Ka 1 ", "Ka 1 2 ", "Kd xyz ", "Kd xyz 1 ", "Kd xyz 1 2 ", "Ks spectral f ", "Ns ", "Tr ", "Ni ", "sharpness ", "d ", "d -halo ", "illum ",
              "map_Ka t -mm ", "map_Kd t -mm 1 ", "map_Ks t -o ", "map_Ns t -o 1 ", "map_d t -o 1 2 ", "disp t -s ", "decal t -s 1 2 ", "bump t -t ", "refl t -t 1 2 ", "bump t -bm ", "refl t -texres " >>

Chars1 == << "d", " ", "1", "{0A}", "#", "-", "." >>
Chars2 == << "on", "xyz", "spectral", " ", "1", "a", "{0D}", "-halo" >>
Odd == << "{212A}", "{1F600}", "{00}", "{0D}", "{09}", "{FEFF}", "{130}", "{A0}", "d", " ", "1", "{0A}", "newmtl " >>
Begins == << "", New, New \o "d 1", New \o "Ka 1 2", New \o "map_", New \o "Ka xyz 1", New \o "bump -bm ", "newmtl", "# c", New \o "{212A}a 1 2", New \o "-clamp", New \o "map_Kd -o 1 " >>

KeyWordsAll == << "newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Tr", "Ni", "sharpness", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl" >>
InnerWords == << "spectral", "xyz", "-halo", "-blendu", "-blendv", "-boost", "-bm", "-cc", "-clamp", "-imfchan", "-mm", "-o", "-s", "-t", "-texres", "-type" >>
Args == << " 1", " -2", " 0.5", " on", " a.png", " xyz", " spectral", " -halo", "{0A}3" >>
MapKeys == << "map_Ka", "map_Ns", "decal", "bump", "refl" >>
MapArgs == << " 1", " 0.5", " on", " -clamp", " -cc", " -imfchan", " -mm", " -o", " -texres", " -bm", " -type", " -boost", " xyz" >>
Unknown == << "Km", "Pr", "Pm", "Ps", "map_Pr", "norm", "map_bump", "bumpp", "Kaa", "foo", "refl_map", "N", "T", "v", "f", "1", "-1.5", "spectral", "xyz", "-halo", "-bm", "-clamp", "map_", "map_kaa", "aniso", "endmtl", "{212A}d", "usemtl", "mtllib", "{212A}a", "{17F}harpness", "n{17F}", "di{17F}p", "Ka{A0}", "Kd{200B}", "d{301}", "-{17F}", "Tf{FEFF}", "map_{212A}d", "ma{17F}" >>

BadLines == << "newmtl{0A}", "newmtl a b{0A}", "newmtl a 1{0A}", "newmtl #x{0A}", "Ka{0A}", "Ka 1{0A}", "Ka 1 2{0A}", "Ka 1 2 3 4{0A}", "Kd a b c{0A}", "Kd 1 2 x{0A}", "Ks spectral{0A}", "Ks spectral 1{0A}", "Ks spectral f g{0A}", "Ks spectral f 1 2{0A}", "Ke xyz{0A}", "Ke xyz a{0A}", "Ke xyz 1 2 3 4{0A}", "Tf xyz 1 a{0A}", "Tf 1 2 -halo{0A}", "Ka xyz spectral 1{0A}", "Ka f spectral{0A}",
  "Ns{0A}", "Ns a{0A}", "Ns 1 2{0A}", "Tr{0A}", "Tr x{0A}", "Tr 1 2{0A}", "Tr -halo 1{0A}", "Ni{0A}", "Ni x{0A}", "Ni 1 2{0A}", "sharpness{0A}", "sharpness x{0A}", "sharpness 1 2{0A}", "d{0A}", "d x{0A}", "d 1 2{0A}", "d -halo{0A}", "d -halo x{0A}", "d -halo 1 2{0A}", "d 1 -halo{0A}", "d -halo -halo 1{0A}", "illum{0A}", "illum -1{0A}", "illum 1.5{0A}", "illum 1.0{0A}", "illum x{0A}", "illum 1 2{0A}", "illum 2147483648{0A}", "illum -2147483648{0A}", "illum 1e0{0A}",
  "map_aat{0A}", "map_aat 1{0A}", "map_aat on off{0A}", "map_Ka{0A}", "map_Ka 1{0A}", "map_Kd a b{0A}", "map_Kd a -o 1 b{0A}", "map_Ks -clamp{0A}", "map_Ks t -cc{0A}", "map_Ks t -clamp 1{0A}", "map_Ns -mm 1 t{0A}", "map_Ns t -mm{0A}", "map_d -o t{0A}", "map_d -o 1 2 3 4 t{0A}", "map_d t -s{0A}", "disp t -t x{0A}", "disp -texres 1.5 t{0A}", "disp -texres t{0A}", "disp t -texres 2147483648{0A}", "decal -imfchan{0A}", "decal -imfchan 1 t{0A}", "decal -boost 1 t{0A}", "bump -bm t{0A}", "bump -bm{0A}", "bump -bm 1 2 t{0A}", "bump{0A}", "refl{0A}", "refl -type{0A}", "refl -type 1 t{0A}", "refl a b{0A}", "map_disp{0A}", "map_disp a b{0A}", "map_Ka spectral t{0A}", "map_Ka -halo t{0A}", "map_Ka -mm 1 2 3 t{0A}", "bump t u -bm 1{0A}", "refl t -blendu 0{0A}", "map_Ka -blendv t{0A} 5{0A}",
  "foo{0A}", "foo 1 2{0A}", "Km 1{0A}", "1{0A}", "-clamp on{0A}", "xyz 1{0A}", "spectral f{0A}", "v 1 2 3{0A}", "Ka1 2 3{0A}", "{FEFF}d 1{0A}", "norm t.png{0A}", "-halo 1{0A}", "Ns 1x{0A}", "Ns 1/2{0A}", "Ns .{0A}", "t.png{0A}" >>
GoodLines == << New, "Ka 1 2 3{0A}", "Kd xyz 1{0A}", "Ks spectral f{0A}", "Ns 1{0A}", "d 1{0A}", "illum 2{0A}", "map_aat on{0A}", "map_Kd t{0A}", "decal -o 1 t{0A}", "bump -bm 1 t{0A}", "refl -type s t{0A}", "# c{0A}", "{0A}" >>
FewGood == << New, "Ka 1 2 3{0A}", "Ns 1{0A}", "d -halo 1{0A}", "map_Kd t{0A}", "# c{0A}" >>
FewBad  == << "Ka 1 2{0A}", "foo{0A}", "illum -1{0A}", "map_Ka a b{0A}", "1{0A}" >>

(* Words that are a switch or nearly one. *)
SwitchWords == << "on", "ON", "On", "oN", "off", "OFF", "Off", "oFf", "OfF", "ofF", "onn", "of", "offf", "o", "o n", "onoff", " on", " off", "on ", "yes", "no", "true", "TRUE", "t", "y", "enable", "enabled", "none", "default", "maybe", "1", "0", "+1", "1.0", "-on", "!on", "on.", "on,", "on;", "on/", "/on", "on#", "#on", "{22}on{22}",
                  "{3BF}n", "{FF4F}{FF4E}", "o{307}n", "o{A0}n", "{A0}on", "on{A0}", "on{0D}", "{0B}on", "{09}on", "on{09}", "{0A}on", "{0A}off", "", "-", "bevel", "map_aat", "-clamp", "a.png", "o{FB00}", "{FB00}", "o{131}", "{D6}N", "o{F1}", "o{200B}n", "on{FEFF}", "{FEFF}on", "o{5C}n", "on{5C}", "on'", "oon", "no", "ffo", "fo", "noff", "offon", "on off", "off on", "ON OFF" >>
SwitchPre == Before(<<"map_aat ", "map_aat on{0A}map_aat ", "map_Ka t -blendu ", "map_Kd -clamp ", "map_Ks -cc on -cc ", "map_Ns -blendv ", "map_d t -clamp on -clamp ", "disp -cc ", "decal -o 1 -blendu ", "bump t -clamp ", "refl -CC ">>, New)

(* Every short name, in every place that takes one. *)
NameChars == << "a", "1", ".", "-", "/", "#", " ", "{E9}", "d", "e", "{09}" >>
NamePre == << "newmtl " >> \o Before(<<"map_Ka ", "map_d -texres 5 ", "Kd spectral ", "refl -type ", "bump -imfchan ">>, New)

(* Any character in any place. *)
AnyNamePre == NamePre \o [i \in DOMAIN NamePre |-> NamePre[i] \o "a"]
AnyPre == <<"", "n", "newmtl", "newmtl a", "#">> \o Before(<<"", "Ka 1 2 3", "Ka 1 2 ", "Ka", "Kd xyz 1", "Kd xyz", "Ks spectral f", "Ks spectral f 1", "Ns ", "Ns 1", "Ns -", "Ns 1.", "Ns 1e", "d ", "d -halo 1", "d -halo", "illum 1", "map_aat on", "map_aat o",
                     "map_Kd t", "map_Kd t -o 1", "map_Kd -", "map_Kd t -clamp on", "bump t -bm 1", "refl -type s t", "#", "Ns 1#", "decal t #", "Ns 1{0A}" >>, New)
AnySuf == << "", "{0A}Ns 7{0A}", " 4{0A}Ni 1{0A}", " t{0A}" >>
(* What a comment may hold. *)
NotePre  == <<"#">> \o Before(<<"#", "Ka 1 2 3 #", "Ns 1#", "map_Kd t.png #", "d -halo 1{09}# ", "map_aat on ##", "refl t #" >>, New)
NoteWords == << "{5C}", "{22}", "'", "*", "/*", "newmtl b", " Ns 4", "{09}", "{0B}", "{0C}", "{85}", "{2028}", "{00}", "{E9}", "{1F600}", "!", "-1", " on", "{0D}", "#", "{0A}", " -o 1" >>
NoteSuf  == << "", "{0A}", "{0A}Ni 2{0A}", "{0D}Ni 3" >>

(* Options with their values, in any order, also repeated. *)
AllMaps == << "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl" >>
Options == << " -blendu on", " -blendu off", " -blendv on", " -blendv off", " -clamp on", " -clamp off", " -cc on", " -cc off", " -imfchan r", " -imfchan l", " -mm 0 1", " -mm 1 0", " -o 1", " -o 2 3", " -o 0 0 0", " -s 1", " -s 1 1 1", " -s 2 3",
   " -t 1", " -t 2 3", " -t 4 5 6", " -texres 0", " -texres 5", " -bm 0", " -bm 1", " -bm 2.5", " -type sphere", " -type cube_top", " -type Sphere", " -imfchan M", " -o 1 2 3", " a.png", " 1.png" >>
OptionsFew == << " -o 1", " -o 2 3", " -s 4 5 6", " -t 0", " -bm 0", " -bm 2", " -type a", " -type b", " -cc on", " -imfchan r", " f" >>

(* One statement of every form, twice with different content. *)
Every == << "newmtl a", "newmtl b", "Ka 1 2 3", "Ka spectral f", "Kd xyz 1", "Kd 4 5 6", "Ks 1 2 3", "Ks xyz 1 2", "Ke 1 1 1", "Ke spectral g 2", "Tf 0 0 0", "Tf xyz 0", "Ns 1", "Ns 0", "Tr 0", "Tr 1", "Ni 1", "Ni 2.5", "sharpness 60", "sharpness 0",
   "d 1", "d 0.5", "d -halo 1", "d -halo 0", "illum 0", "illum 2", "map_aat on", "map_aat off", "map_Ka a", "map_Ka -o 1 b", "map_Kd a", "map_Kd -cc on b", "map_Ks a", "map_Ks -s 1 b", "map_Ns a", "map_Ns -imfchan r b", "map_d a", "map_d -clamp on b",
   "disp a", "disp -t 1 b", "map_disp a", "map_disp -mm 1 2 b", "decal a", "decal -texres 4 b", "bump a", "bump -bm 2 b", "bump -bm 0 c", "refl a", "refl -type sphere b", "refl -type cube_top -cc off c" >>
Ended0(ls) == [i \in DOMAIN ls |-> ls[i] \o "{0A}"]

(* Many arguments of a kind. *)
CountPre == KeyWordsAll \o <<"Kd xyz", "Ks spectral f", "Ks spectral", "d -halo", "map_Kd t -o", "map_Ka t -mm", "disp t -s", "decal t -t", "map_d t -texres", "map_Ns t -clamp", "map_Ks -imfchan", "bump t -bm", "refl -type", "refl t -type", "bump t -o 1", "map_Kd -o 1 2 3 -s", "map_Kd t">>
Counts == Repeats(<<" 1", " 0.5", " a", " on", " -o", " -halo", " xyz", " -1", "{0A}1">>, 8) \o Then(" 1", " 0.5", 4) \o Then(" 1", " a", 4) \o Then(" a", " 1", 4) \o Then(" -o 1", " 2", 4) \o Then(" -bm 2", " t", 2) \o Then(" -type s", " t", 2)

(* What a word could do in every place that takes one, and to what was      *)
(* read before.                                                            *)
Full == "newmtl q{0A}Ka 1 2 3{0A}Kd xyz 1{0A}Ks spectral f{0A}Ke 4 5 6{0A}Tf 7 8 9{0A}Ns 1{0A}Tr 0.25{0A}Ni 2{0A}sharpness 3{0A}d -halo 0.5{0A}illum 4{0A}map_aat on{0A}map_Ka -o 1 a{0A}map_Kd b{0A}map_Ks c{0A}map_Ns d{0A}map_d -clamp on e{0A}disp f{0A}decal g{0A}bump -bm 2 h{0A}refl -type sphere i{0A}"
ColourWords == << "Ka", "Kd", "Ks", "Ke", "Tf" >>
Onto(ks, s) == [i \in DOMAIN ks |-> ks[i] \o s]
WordIn == << "newmtl {W}{0A}Ns 9{0A}", "newmtl a{W}{0A}Ns 9{0A}", "newmtl {W}a{0A}", "newmtl {W}.001{0A}", "newmtl {W}{0A}newmtl {W}{0A}", "newmtl a {W}{0A}", "map_aat {W}{0A}", "illum {W}{0A}", "Ns {W}{0A}", "Ns 1 {W}{0A}", "d {W} 1{0A}", "d -{W} 1{0A}", "Ka {W} 1{0A}", "Ka {W} 1 2{0A}", "Ka {W} 1 2 3{0A}", "Ka {W} f{0A}", "Ka {W} f 1{0A}", "Ka 1 2 3 {W}{0A}", "Ka 1 {W} 3{0A}",
   "# {W}{0A}Ns 9{0A}", "#{W}{0A}newmtl b{0A}", "Ns 9 # {W}{0A}d 1{0A}", "Ns 9 #{W}{0A}Ni 1{0A}", "# {W}=5{0A}Ns 8{0A}", "# {W}: 5{0A}Ns 8{0A}", "{W}{0A}", "{W} 1{0A}Ns 9{0A}", "{W} a{0A}", "{W} 1 2 3{0A}", "{W} t.png{0A}", "{W}", "map_{W} t{0A}", "map_Kd -{W} 1 t{0A}", "map_Kd -{W} on t{0A}", "map_Kd {W} on t{0A}", "map_Kd {W} 1 t{0A}", "bump {W} 1 t{0A}", "refl {W} s t{0A}", "refl -{W} t{0A}" >>
   \o Onto(AllMaps, " {W}{0A}") \o Onto(AllMaps, " {W}.png{0A}Ns 9{0A}") \o Onto(AllMaps, " -o 1 a{W}{0A}") \o Onto(AllMaps, " -imfchan {W} t{0A}") \o Onto(AllMaps, " -type {W} t{0A}") \o Onto(AllMaps, " t -clamp {W}{0A}") \o Onto(<<"map_Ka", "refl">>, " -blendu {W} t{0A}") \o Onto(<<"map_Ks", "bump">>, " -cc {W} t{0A}")
   \o Onto(ColourWords, " spectral {W}{0A}") \o Onto(ColourWords, " spectral {W} 2{0A}") \o Onto(ColourWords, " spectral {W}.rfl 2{0A}")
WordHistory == << "newmtl {W}{0A}Ns 1{0A}d 1{0A}newmtl b{0A}Ka 1 2 3{0A}newmtl {W}{0A}Kd 1 2 3{0A}newmtl b{0A}", "newmtl b{0A}Ka 1 2 3{0A}map_Kd {W}{0A}newmtl {W}{0A}Ks 1 1 1{0A}", "newmtl a{0A}newmtl {W}{0A}Ns 1{0A}", "{W} 1{0A}newmtl a{0A}", "# {W}{0A}newmtl a{0A}# {W}{0A}Ns 1{0A}#{W}{0A}", "newmtl a{0A}map_Kd {W}{0A}map_Kd t{0A}map_Kd -o 1 {W}{0A}", "newmtl a{0A}refl -type {W} -type s t{0A}", "newmtl a{0A}refl -type s -type {W} t{0A}", "newmtl {W}{0A}illum 2{0A}newmtl a{0A}illum 3{0A}" >>
ValueIn == Onto(ColourWords, " {W} 2 3{0A}") \o Onto(ColourWords, " 1 {W} 3{0A}") \o Onto(ColourWords, " 1 2 {W}{0A}") \o Onto(ColourWords, " {W} {W} {W}{0A}") \o Onto(ColourWords, " xyz {W}{0A}") \o Onto(ColourWords, " xyz 1 {W}{0A}") \o Onto(ColourWords, " xyz {W} 2 {W}{0A}") \o Onto(ColourWords, " spectral f {W}{0A}")
   \o Onto(<<"Ns", "Tr", "Ni", "sharpness", "d", "d -halo", "illum">>, " {W}{0A}") \o Onto(<<"Ns", "Tr", "Ni", "sharpness", "d", "d -halo", "illum">>, " -{W}{0A}") \o Onto(AllMaps, " -o {W} t{0A}") \o Onto(AllMaps, " -o 1 {W} t{0A}") \o Onto(AllMaps, " -s {W} {W} {W} t{0A}") \o Onto(AllMaps, " -s 1 2 {W} t{0A}") \o Onto(AllMaps, " -t {W} 2 3 t{0A}") \o Onto(AllMaps, " -mm {W} 1 t{0A}") \o Onto(AllMaps, " t -mm 0 {W}{0A}") \o Onto(AllMaps, " t -texres {W}{0A}") \o Onto(AllMaps, " -bm {W} t{0A}") \o Onto(AllMaps, " {W}.png{0A}")
   \o <<"newmtl {W}{0A}Ns {W}{0A}", "Ns 1{0A}Ns {W}{0A}Ni {W}{0A}Ni 1{0A}", "d {W}{0A}Tr {W}{0A}illum {W}{0A}", "Tr {W}{0A}d {W}{0A}", "bump -bm {W} -bm 7 t{0A}", "Ka spectral {W}{0A}", "Ka spectral f {W} {W}{0A}">>

Pools == [
  counts    |-> Pool(Before(CountPre, New), Counts, <<"{0A}", " t{0A}Ns 1{0A}", "#c{0A}">>),
  foundWords |-> With(Before(WordIn, New) \o Before(WordIn, Full) \o WordHistory, FoundWords),
  foundPairs |-> Pool(Before(<<"newmtl ", "map_Ka ", "", "# ", "Ks spectral ">>, New), [i \in 1..(2 * Len(FoundWords)) |-> IF i % 2 = 0 THEN FoundWords[i \div 2] ELSE " " \o FoundWords[(i + 1) \div 2]], <<"{0A}Ns 1{0A}">>),
  foundValues |-> With(Before(ValueIn, New) \o Before(SubSeq(ValueIn, 41, Len(ValueIn)), Full), FoundValues),
  anyName  |-> Pool(AnyNamePre, AnyChars, <<"{0A}Ns 1{0A}", "b{0A}Ns 1{0A}", " b{0A}Ni 1{0A}">>),
  anyPlace |-> Pool(AnyPre, AnyChars, AnySuf),
  notes    |-> Pool(NotePre, NoteWords, NoteSuf),
  options  |-> Pool(Before(AllMaps, New), Options, <<"{0A}", " t.png{0A}">>),
  optionsFew |-> Pool(Before(<<"map_Kd", "decal", "bump", "refl">>, New), OptionsFew, <<"{0A}", " t{0A}Ns 1{0A}">>),
  headlessAll |-> Pool(None, Ended0(Every), None),
  every    |-> Pool(<<"", New>>, Ended0(Every) \o <<"Ns{0A}", "zz 1{0A}">>, None),
  nameChars |-> Pool(NamePre, NameChars, <<"{0A}Ns 1{0A}", " t{0A}">>),
  numChars |-> Pool(NumPre, NumChars, <<"{0A}">>),
  numEdge  |-> Pool(Before(EdgePre, New), Edge, <<"{0A}", " 4{0A}", " 5 6{0A}", "#x{0A}", "">>),
  chars1   |-> Pool(<<"", New>>, Chars1, None),
  chars2   |-> Pool(<<New \o "Ka ", New \o "map_Kd ", New \o "d ">>, Chars2, None),
  odd      |-> Pool(Begins, Odd, <<"", "{0A}Ns 1">>),
  args     |-> Pool(Before(KeyWordsAll, New), Args, <<"{0A}Ns 1{0A}">>),
  mapArgs  |-> Pool(Before(MapKeys, New), MapArgs, <<" t{0A}", "">>),
  inner    |-> Pool(<<New>> \o Before(KeyWordsAll, New), Before(InnerWords, " ") \o <<" 1", " t">>, <<"{0A}Ns 1{0A}">>),
  unknown  |-> Pool(Before(Unknown, New) \o Before(Unknown, "") \o Before(Unknown, New \o "Ns 1{0A}") \o Before(Unknown, New \o "map_Ka t{0A}"), Args, <<"{0A}", "{0A}Ns 1{0A}">>),
  badAmid  |-> Pool(<<"", New>> \o Before(GoodLines, New) \o GoodLines, BadLines \o GoodLines, None \o FewGood),
  headless |-> Pool(<<"", "# c{0A}", "{0A}">>, GoodLines \o FewBad, None),
  badLong  |-> Pool(<<"", New>>, FewGood \o FewBad, None),
  switch   |-> Pool(SwitchPre, SwitchWords, <<"{0A}", " {0A}Ns 1{0A}", " t{0A}", "#c", " on{0A}">>)
]
=============================================================================
