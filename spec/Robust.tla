-------------------------------- MODULE Robust --------------------------------
(* An archive whose bytes are changed by any sequence of mutations, and a     *)
(* session on whatever it then is.  Nothing is prescribed about the answers   *)
(* except that every call returns one: a result or an error.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS Format, MaxMuts, Calls
VARIABLES muts, ph, pending, answered
vars == <<muts, ph, pending, answered>>

Values == {"zero", "one", "ones", "max", "high", "neg", "blank", "text", "self", "other", "dots", "slash", "long", "bit", "less", "more"}
Fields == CASE Format = "tar" -> {"name", "mode", "uid", "gid", "size", "mtime", "chksum", "type", "link", "magic", "prefix", "sparse", "data", "pax", "any"}
            [] Format = "ar" -> {"magic", "name", "time", "uid", "gid", "mode", "size", "end", "data", "any"}
            [] Format = "erofs" -> {"super", "blkszbits", "rootnid", "metaaddr", "features", "format", "imode", "isize", "iaddr", "ixattr", "nlink", "inode",
                                    "dnid", "dnameoff", "dtype", "dname", "any", "word"}
Shapes == {"cut", "grow", "dup", "drop", "swap", "noise", "zeros", "shift"}
\* where: which of the entries, inodes or blocks; fix: checksums are made right afterwards
Mutations == [op : {"set"}, f : Fields, v : Values, at : 0..3, fix : BOOLEAN]
             \cup [op : Shapes, f : {"-"}, v : {"-"}, at : 0..3, fix : BOOLEAN]

Init == muts = <<>> /\ ph = "make" /\ pending = {} /\ answered = [c \in {} |-> "-"]
Mutate(m) == ph = "make" /\ Len(muts) < MaxMuts /\ muts' = Append(muts, m) /\ UNCHANGED <<ph, pending, answered>>
Open == ph = "make" /\ muts # <<>> /\ \E r \in {"refused", "open"} : ph' = r /\ UNCHANGED <<muts, pending, answered>>
Call(c) == ph = "open" /\ c \notin pending \cup DOMAIN answered /\ pending' = pending \cup {c} /\ UNCHANGED <<muts, ph, answered>>
Return(c, r) == c \in pending /\ pending' = pending \ {c} /\ answered' = [x \in DOMAIN answered \cup {c} |-> IF x = c THEN r ELSE answered[x]] /\ UNCHANGED <<muts, ph>>
\* every call is made, each returns
End == ph = "open" /\ DOMAIN answered = Calls /\ ph' = "done" /\ UNCHANGED <<muts, pending, answered>>
\* one mutation each, then the session
Next == (\E m \in Mutations : Mutate(m)) \/ Open \/ (\E c \in Calls : Call(c) \/ \E r \in {"result", "error"} : Return(c, r)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the design can always answer: a session that has begun ends, whatever the bytes are
Ends == (ph \in {"refused", "done"}) \/ ENABLED Next
Emit == IF ph = "make" /\ ph' \notin {"make", "refused"} THEN EmitLine(ToJson(muts)) ELSE TRUE

\* random scripts
Rnd(S) == RandomElement(S)
SimNext == \/ ph = "make" /\ Len(muts) < MaxMuts /\ \E m \in {Rnd(Mutations)} : Mutate(m)
           \/ ph = "make" /\ muts # <<>> /\ (Len(muts) >= MaxMuts \/ Rnd(1..3) = 1) /\ ph' = "open" /\ UNCHANGED <<muts, pending, answered>>
SimSpec == Init /\ [][SimNext]_vars
================================================================================
