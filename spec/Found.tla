------------------------------- MODULE Found -------------------------------
(***************************************************************************)
(* Words, numbers and amounts that occur in the library's source            *)
(* (tools/harvest.py): inputs that mean something special to the code, if   *)
(* any do.  They are inputs only; what the library has to answer to them    *)
(* is said by the rest of the specification.                               *)
(***************************************************************************)
EXTENDS Sequences, Integers, SequencesExt, IOUtils, Json

FoundIn == IF "FOUND" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.FOUND)
           ELSE [words |-> <<"default">>, values |-> <<"1">>, sizes |-> <<5>>, many |-> <<5>>]
FoundWords  == FoundIn.words    \* as encoded strings
FoundValues == FoundIn.values   \* as number literals
FoundSizes  == Range(FoundIn.sizes)
FoundMany   == Range(FoundIn.many)

(* s, n times. *)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
(* Each of ss from 0 to n times; and the first of two some times, then the  *)
(* second.                                                                 *)
Repeats(ss, n)  == [i \in 1..(Len(ss) * (n + 1)) |-> Times(ss[(i - 1) \div (n + 1) + 1], (i - 1) % (n + 1))]
Then(s1, s2, n) == [i \in 1..(n * n) |-> Times(s1, (i - 1) \div n + 1) \o Times(s2, ((i - 1) % n) + 1)]
=============================================================================
