------------------------------ MODULE AnyChar ------------------------------
(***************************************************************************)
(* Every ASCII character, and characters from all over Unicode: blanks,    *)
(* digits, signs and letters that are not those of ASCII, letters that     *)
(* change into ASCII ones with their case, first and last code points of   *)
(* every length of encoding.                                               *)
(***************************************************************************)
EXTENDS Sequences

Printable == << " ", "!", "{22}", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", 
   ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", 
   "W", "X", "Y", "Z", "[", "{5C}", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", 
   "s", "t", "u", "v", "w", "x", "y", "z", "{7B}", "|", "{7D}", "~" >>
Control == << "{00}", "{01}", "{02}", "{03}", "{04}", "{05}", "{06}", "{07}", "{08}", "{09}", "{0A}", "{0B}", "{0C}", "{0D}", "{0E}", "{0F}", "{10}", 
   "{11}", "{12}", "{13}", "{14}", "{15}", "{16}", "{17}", "{18}", "{19}", "{1A}", "{1B}", "{1C}", "{1D}", "{1E}", "{1F}", "{7F}" >>
Wide == << "{80}", "{85}", "{A0}", "{AD}", "{AB}", "{BC}", "{C0}", "{DF}", "{E9}", "{FF}", "{130}", "{131}", "{17F}", "{1C5}", "{2BC}", "{2C6}", 
   "{300}", "{37E}", "{3A9}", "{3BF}", "{3C9}", "{430}", "{440}", "{5D0}", "{660}", "{661}", "{966}", "{ABC}", "{1680}", "{1E9E}", "{2000}", 
   "{2003}", "{200B}", "{200D}", "{200E}", "{2010}", "{2013}", "{2028}", "{2029}", "{202F}", "{2032}", "{2044}", "{205F}", "{2060}", "{2116}", 
   "{2126}", "{212A}", "{212B}", "{2160}", "{2212}", "{2215}", "{2460}", "{3000}", "{3001}", "{3042}", "{65E5}", "{AC00}", "{D7FF}", "{E000}", 
   "{F900}", "{FB00}", "{FE00}", "{FEFF}", "{FF03}", "{FF0B}", "{FF0D}", "{FF0E}", "{FF0F}", "{FF10}", "{FF11}", "{FF23}", "{FF4F}", "{FFFD}", 
   "{FFFF}", "{10000}", "{10400}", "{1D7CE}", "{1F600}", "{20000}", "{10FFFF}" >>
AnyChars == Printable \o Control \o Wide
=============================================================================
