------------------------------ MODULE MtlAlpha ------------------------------
(***************************************************************************)
(* Alphabets of material-file lines for MtlMC and MtlLayout: one statement *)
(* per entry.                                                              *)
(***************************************************************************)
EXTENDS Sequences, Integers

Pre(ks, args) == [n \in 1..(Len(ks) * Len(args)) |->
                    ks[(n - 1) \div Len(args) + 1] \o " " \o args[((n - 1) % Len(args)) + 1]]

Colours == << "Ka", "Kd", "Ks", "Ke", "Tf" >>
ColourArgs == << "0.1 0.2 0.3", "0 0 0", "1 1 1", "1 0 0", "0.5 0.5 0.5", "-1 2 300", "2 -0.5 1e3", "0.3 0.2 0.1", "1. .5 +2", "1e38 1e39 2147483648",
   "spectral f.rfl", "spectral f.rfl 0", "spectral f.rfl 1", "spectral f.rfl 0.5", "spectral f.rfl -2", "spectral f.rfl 1e2", "spectral g 2.5", "SPECTRAL F.RFL 3", "spectral 1x.rfl 4", "Spectral /a/b.rfl",
   "xyz 0.5", "xyz 0", "xyz 1", "xyz 0.1 0.2", "xyz 1 0", "xyz 0 1", "xyz 0.1 0.2 0.3", "xyz 0.3 0 0", "xyz 0 0 0.7", "xyz 1 1 1", "xyz -1 -2 -3", "xyz -1", "xyz 2 5", "xyz 300 200 100", "XYZ 1 2 3", "Xyz 0.25 0.5" >>
ColoursWide == << "newmtl a", "newmtl b" >> \o Pre(Colours, ColourArgs) \o << "KA 1 2 3", "kd 4 5 6", "kS 7 8 9", "KE xyz 1", "tF spectral q" >>
ColoursCore == << "newmtl a", "newmtl b", "Ka 1 2 3", "Ka xyz 4", "Kd 5 6 7", "Ks xyz 1 2", "Ke spectral f 3", "Tf 0 0 0" >>

Scalars == << "Ns", "Tr", "Ni", "sharpness", "d", "d -halo" >>
ScalarArgs == << "0", "1", "-1", "0.5", "10", "1000", "2.5", "-0.25", "1e2", "1.5E-3", ".5", "5.", "+3", "100.0", "2147483648", "-2147483649", "1e39", "0.1", "1.001", "60", "99999999999" >>
Illums == << "illum 0", "illum 1", "illum 2", "illum 3", "illum 4", "illum 5", "illum 6", "illum 7", "illum 8", "illum 9", "illum 10", "illum 11", "illum 255", "illum 256", "illum 257",
             "illum 65535", "illum 65536", "illum 2147483647", "illum +2", "illum 007", "ILLUM 1" >>
Aats == << "map_aat on", "map_aat off", "map_aat ON", "map_aat OFF", "map_aat On", "map_aat oN", "map_aat Off", "map_aat ofF", "MAP_AAT on", "Map_aat off" >>
ScalarsWide == << "newmtl a", "newmtl b" >> \o Pre(Scalars, ScalarArgs) \o Illums \o Aats \o << "NS 5", "tr 6", "nI 7", "Sharpness 8", "D 9", "D -HALO 10", "d -Halo 11" >>
ScalarsCore == << "newmtl a", "Ns 1", "Tr 2", "Ni 3", "sharpness 4", "d 5", "d -halo 6", "illum 7", "map_aat on", "map_aat off" >>

Maps == << "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl" >>
OneOption == << "-blendu on", "-blendu off", "-blendv on", "-blendv off", "-clamp on", "-clamp off", "-cc on", "-cc off", "-imfchan r", "-imfchan l", "-imfchan z",
   "-mm 0 1", "-mm 0.5 2", "-mm -1 0", "-mm 1 1", "-o 1", "-o 1 2", "-o 1 2 3", "-o 0", "-o 0 0", "-o 0 0 0", "-o -0.5 0.5 0", "-s 1", "-s 1 1", "-s 1 1 1", "-s 4", "-s 4 5", "-s 4 5 6", "-s 0 0 0",
   "-t 7", "-t 7 8", "-t 7 8 9", "-t 0", "-t 0 0", "-t 0 0 0", "-t 1e2 .5 2.", "-texres 0", "-texres 1", "-texres 512", "-texres -3", "-texres 2147483647", "-texres 65536",
   "-bm 0", "-bm 1", "-bm 0.5", "-bm -2", "-bm 3.5", "-type sphere", "-type cube_top", "-type cube_left", "-type Cube_Right", "-type SPHERE", "-imfchan R", "-type x" >>
OptionFirst == [i \in DOMAIN OneOption |-> OneOption[i] \o " t.png"]
OptionLast  == [i \in DOMAIN OneOption |-> "t.png " \o OneOption[i]]
Files == << "t.png", "t", "T.PNG", "a/b/c.tga", "/abs.png", "..{5C}c.png", "1x.png", "2.5d.png", "-x.png", "--", "+.png", ".hidden", "..", "a#b.png", "a-clamp.png", "on", "off", "on.png", "1e5x", "{65E5}{672C}.png", "{E9}", "{212A}a",
            "a,b", "'q.png'", "{22}q{22}", "(1).png", "x{A0}y", "{85}", "e{301}", "./t.png", "a/../t.png", "a//t.png", "a/./t.png", "C:{5C}t.png", "%20.png", "t.PNG.png", "t.", ".t", "none", "null", "NULL", "default", "t.png.", "T", "very_long_file_name_0123456789_0123456789_0123456789_0123456789_0123456789.png" >>
(* Options alone, before and after the file, and only the file. *)
MapsWide == << "newmtl a" >> \o Pre(Maps, OptionFirst) \o Pre(Maps, OptionLast) \o Pre(Maps, OneOption) \o Pre(Maps, Files)
Blends == << "-blendu on -blendv off -clamp on -cc off -imfchan m -mm 0.1 0.9 -o 1 2 3 -s 4 5 6 -t 7 8 9 -texres 10 -bm 11 -type sphere t.png",
   "t.png -type sphere -bm 11 -texres 10 -t 7 8 9 -s 4 5 6 -o 1 2 3 -mm 0.1 0.9 -imfchan m -cc off -clamp on -blendv off -blendu on",
   "-o 1 -s 2 -t 3 t.png", "-t 3 -s 2 -o 1 t.png", "-o 1 2 -s 3 4 -t 5 6 t.png", "-s 3 4 5 -o 1 t.png", "-o 1 -o 2 3 t.png", "-o 2 3 4 -o 1 t.png", "-s 1 2 3 -s 4 5 6 t.png", "-s 1 2 3 -s 4 t.png", "-t 1 -t 2 t.png", "-t 9 8 7 -t 6 5 t.png",
   "-blendu on -blendu off t.png", "-blendu off -blendu on t.png", "-blendv on -blendv off t.png", "-blendv off -blendv on t.png", "-clamp on -clamp off t.png", "-clamp off -clamp on t.png", "-cc on -cc off t.png", "-cc off -cc on t.png",
   "-mm 1 2 -mm 3 4 t.png", "-texres 1 -texres 2 t.png", "-imfchan r -imfchan g t.png", "-bm 1 -bm 2 t.png", "-bm 2 -bm 1 -bm 3 t.png", "-type sphere -type cube_top t.png", "-type a -type b -type c t.png", "-bm 1 t.png -bm 2", "-type a t.png -type b",
   "-blendu on -blendv on t.png", "-blendu off -blendv on t.png", "-blendu on -blendv off t.png", "-clamp on -cc on t.png", "-cc on -clamp off t.png", "-mm 1 2 -texres 3 t.png", "-bm 4 -imfchan b t.png", "-type sphere -cc on t.png", "-o 1 -mm 2 3 t.png", "-mm 2 3 -o 1 t.png",
   "-BLENDU ON -BlendV Off -CLAMP oN t.png", "-CC On -ImfChan M -MM 1 2 t.png", "-O 1 2 -S 3 -T 4 5 6 -TexRes 7 t.png", "-BM 2 -TYPE Sphere t.png",
   "-blendu oN t.png", "-blendv ON t.png", "-clamp On t.png", "-cc ON t.png", "-blendu OFF t.png", "-blendv oFF t.png", "-clamp Off t.png", "-cc ofF t.png",
   "-imfchan on t.png", "-type on off.png", "-type off", "-imfchan -x t.png" >>
MapsCombined == << "newmtl a", "newmtl b" >> \o Pre(Maps, Blends)
MapsCore == << "newmtl a", "map_Ka -cc on a.png", "map_Kd -s 1 b.png", "map_Ks c.png", "map_Ns -imfchan r d.png", "map_d e.png -o 1 2 3", "disp -clamp on f.png", "decal g.png", "map_disp -t 1 h.png" >>
BumpRefl == << "newmtl a", "bump -bm 2 t.png", "bump t.png", "bump -imfchan r t.png -s 1 2", "refl -type sphere t.png", "refl t.png", "refl -cc on -type cube_top u.png", "map_Ka z.png", "decal y.png" >>
OnOff == << "on", "off", "ON", "OFF", "On", "Off", "oN", "oFf", "ofF", "OfF" >>
SwitchOptions == << "-blendu", "-blendv", "-clamp", "-cc" >>
Switches == << "newmtl a" >> \o Pre(<<"map_aat">>, OnOff) \o
            Pre(Maps, [i \in 1..40 |-> SwitchOptions[(i - 1) \div 10 + 1] \o " " \o OnOff[((i - 1) % 10) + 1] \o " t.png"])

NamesAll == << "a", "A", "1", "-1", "+1", "007", "1.5", ".5", "5.", "1e5", "-", "--", "+", ".", "..", "/", "a/b", "newmtl", "NEWMTL", "Ka", "kd", "d", "illum", "map_Kd", "-clamp", "-o", "xyz", "spectral", "on", "off", "default", "v",
   "x#y", "a#", "2147483648", "1x", "0x10", "3d", "1e", "1.2.3", "Material.001", "na{EF}ve", "{65E5}{672C}", "{212A}", "{1F600}", "{130}", "{17F}", "{A0}x", "{3000}", "{FEFF}a", "{2028}b", "{85}c", "{0B}d", "{0C}", "{00}", "{7F}", "{22}q{22}", "'q'", "{5C}", "{7B}b{7D}",
   "(c)", "[d]", "$e", "%20", "&", "*", "@", "!", "?", ":", ";", ",", "=", "|", "~", "`", "^", "_", "bump", "refl", "-halo", "-type", "map_aat", "longer_than_any_keyword_and_then_some_more_to_be_sure",
   "a/../b", "./a", "a/./b", "a//b", "a/", "C:{5C}x", "ns:name", "a:b:c", "{22}a", "a{22}", "a=b", "a;b", "a,b", "$HOME", "a{5C}nb", "a*", "a.", "a..b", "null", "NULL", "none", "None", "nil", "undefined", "true", "unnamed", "Default", "DefaultMaterial", "__default__", "EOF", "end", "eof", "[1]", "@a", "a##b", "1.0.0", "0", "00", "-0", "inf", "nan", "1e400", "{661}" >>
NamesWide == Pre(<<"newmtl">>, NamesAll) \o << "Ns 1", "newmtl z" >>
NamesCore == << "newmtl 1", "newmtl -o", "newmtl Ka", "newmtl a", "newmtl A", "newmtl 1.5e2", "Ns 1", "Kd 1 1 1" >>
FilesWide == << "newmtl a" >> \o Pre(Maps, Files) \o Pre(<<"Ka spectral", "map_Kd -imfchan", "refl -type">>, Files)

(* One of everything. *)
AllKinds == << "newmtl a", "newmtl b", "newmtl a", "Ka 1 2 3", "Kd xyz 4", "Ks spectral f 5", "Ke 6 7 8", "Tf 9 9 9", "Ka 3 2 1", "Ns 1", "Ns 2", "Tr 2", "Ni 3", "sharpness 4", "d 5", "d -halo 6", "illum 7", "illum 0", "map_aat on", "map_aat off",
  "map_Ka a.png", "map_Kd -o 1 b.png", "map_Ks -cc on c.png", "map_Ns d.png", "map_d e.png", "disp f.png", "map_disp g.png", "decal -imfchan r h.png", "bump -bm 2 i.png", "refl -type sphere j.png", "map_Ka -clamp on k.png", "bump l.png", "refl m.png" >>
SectionCore == << "newmtl a", "newmtl b", "newmtl a", "Ka 1 2 3", "Ka 4 5 6", "d 1", "Ns 2", "map_Kd t.png", "bump u.png" >>

(* Every map in several forms: a later statement replaces an earlier one whole. *)
MapForms == << "a.png", "-o 1 2 -clamp on b.png", "-blendu off -blendv on -s 1 -t 2 3 4 -mm 5 6 -texres 7 -cc on -imfchan m -bm 8 -type sphere c.png" >>
MapTwice == << "newmtl a", "newmtl b" >> \o Pre(Maps, MapForms)
(* Every map again with the same file, with one option or without. *)
SameFile == << "t.png", "-blendu off t.png", "-blendv off t.png", "-clamp on t.png", "-cc on t.png", "-imfchan l t.png", "-mm 1 2 t.png", "-o 1 t.png", "-o 1 2 3 t.png", "-s 4 t.png", "-s 4 5 6 t.png",
              "-t 7 t.png", "-t 7 8 9 t.png", "-texres 10 t.png", "-bm 11 t.png", "-type sphere t.png", "-type Cube_Top t.png", "-clamp on", "-o 1" >>
MapSame == << "newmtl a", "newmtl b" >> \o Pre(Maps, SameFile)
(* Every statement in two or three forms. *)
Twice == << "newmtl a", "newmtl b" >> \o Pre(Colours, <<"0 0 0", "1 2 3", "spectral f", "spectral g 0", "xyz 1", "xyz 0 1 2">>) \o Pre(<<"Ns", "Tr", "Ni", "sharpness", "d", "d -halo">>, <<"0", "1", "2.5">>)
          \o <<"illum 0", "illum 1", "illum 3", "map_aat on", "map_aat off">> \o Pre(Maps, MapForms)

(* Names that are nearly the same. *)
AlikeNames == << "newmtl wood", "newmtl wood.001", "newmtl Wood", "newmtl woo", "newmtl wood_copy", "newmtl WOOD", "Ka 1 2 3", "Kd 4 5 6", "Ns 1", "map_Kd wood", "d 0.5" >>

Alphabets == [
  alikeNames |-> AlikeNames,
  mapTwice |-> MapTwice, mapSame |-> MapSame, twice |-> Twice,
  coloursWide |-> ColoursWide, coloursCore |-> ColoursCore,
  scalarsWide |-> ScalarsWide, scalarsCore |-> ScalarsCore,
  mapsWide |-> MapsWide, mapsCombined |-> MapsCombined, mapsCore |-> MapsCore, bumpRefl |-> BumpRefl,
  switches |-> Switches, namesWide |-> NamesWide, namesCore |-> NamesCore, filesWide |-> FilesWide,
  allKinds |-> AllKinds, sectionCore |-> SectionCore,
  everything |-> ColoursWide \o ScalarsWide \o MapsWide \o MapsCombined \o NamesWide \o FilesWide
]
=============================================================================
