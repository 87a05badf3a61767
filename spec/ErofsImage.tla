------------------------------ MODULE ErofsImage ------------------------------
(* Where the parts of an EROFS image lie: the address arithmetic of the      *)
(* format for one examined node and the root directory that names it.        *)
(* Positions are pairs (block, offset), so images of many terabytes cost     *)
(* nothing; the driver reads them through a sparse reader.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS BitsSet, Metas, RootSlots, Kinds, NidBlocks, Quots, RawBlocks,
          Highs        \* 1: the driver adds 2^31 to the data blocks (rh) or the metadata area (mh)
VARIABLES img, done

Bs(bits) == 2 ^ bits
Per(bits) == Bs(bits) \div 32                        \* inode slots per block
Slots(bits) == {0, 1, Per(bits) \div 2 - 1, Per(bits) - 2, Per(bits) - 1}
Tails(bits) == {0, 1, 31, 32, 33, 100, Bs(bits) - 65, Bs(bits) - 64, Bs(bits) - 63, Bs(bits) - 33, Bs(bits) - 32, Bs(bits) - 31, Bs(bits) - 1}
ISize(form) == IF form = "compact" THEN 32 ELSE 64

At(b, o) == [b |-> b, o |-> o]
Norm(bits, a) == At(a.b + (a.o \div Bs(bits)), a.o % Bs(bits))
Plus(bits, a, n) == Norm(bits, At(a.b, a.o + n))
Before(x, y) == x.b < y.b \/ (x.b = y.b /\ x.o <= y.o)      \* x <= y
\* [x1, x2) and [y1, y2) are disjoint
Apart(x1, x2, y1, y2) == Before(x2, y1) \/ Before(y2, x1)

SbAt(m) == Norm(m.bits, At(0, 1024))
InodeAt(m) == At(m.meta + m.nb, m.ns * 32)
RootAt(m) == Norm(m.bits, At(m.meta + (m.root \div Per(m.bits)), (m.root % Per(m.bits)) * 32))
TailAt(m) == Plus(m.bits, InodeAt(m), ISize(m.form))
InodeEnd(m) == IF m.layout = "inline" THEN Plus(m.bits, TailAt(m), m.t) ELSE TailAt(m)
\* the content: segments of the image in order
Segments(m) == LET body == [b |-> m.raw, o |-> 0, q |-> m.q, n |-> 0]
                   rest == [b |-> m.raw + m.q, o |-> 0, q |-> 0, n |-> m.t]
                   tail == [b |-> TailAt(m).b, o |-> TailAt(m).o, q |-> 0, n |-> m.t] IN
               (IF m.q > 0 THEN <<body>> ELSE <<>>) \o (IF m.t = 0 THEN <<>> ELSE IF m.layout = "inline" THEN <<tail>> ELSE <<rest>>)

\* where no conforming producer would put things
RootDir(m) == m.raw + m.q + 3          \* block of the root directory's entries
Valid(m) ==
    /\ (m.kind = "link" => m.q * Bs(m.bits) + m.t <= 4095 /\ m.q + m.t > 0)
    /\ (m.layout = "inline" => m.t > 0 /\ TailAt(m).o + m.t <= Bs(m.bits))
    /\ (m.form = "compact" \/ m.ns < Per(m.bits) - 1 \/ TRUE)        \* a long inode may reach into the next block
    /\ LET sb == SbAt(m)  sbe == Plus(m.bits, sb, 128)
           i == InodeAt(m)  ie == InodeEnd(m)
           r == RootAt(m)  re == Plus(m.bits, r, 64) IN
       /\ Apart(sb, sbe, i, ie) /\ Apart(sb, sbe, r, re) /\ Apart(i, ie, r, re)
       /\ \A k \in 1..Len(Segments(m)) :
            LET s == Segments(m)[k]  a == At(s.b, s.o)  e == Plus(m.bits, At(s.b + s.q, s.o), s.n) IN
            Apart(a, e, sb, sbe) /\ Apart(a, e, r, re) /\ (k = 1 /\ m.layout = "plain" => Apart(a, e, i, ie))
       /\ Apart(At(RootDir(m), 0), At(RootDir(m) + 1, 0), sb, sbe) /\ Apart(At(RootDir(m), 0), At(RootDir(m) + 1, 0), i, ie)
       /\ Apart(At(RootDir(m), 0), At(RootDir(m) + 1, 0), r, re)

Images == UNION {[bits : {b}, meta : Metas, root : RootSlots, kind : Kinds, nb : NidBlocks, ns : Slots(b), form : {"compact", "extended"},
                  layout : {"plain", "inline"}, q : Quots, t : Tails(b), raw : RawBlocks, rh : Highs, mh : Highs] : b \in BitsSet}
None == [bits |-> 0]
Init == img = None /\ done = FALSE
Choose == ~done /\ done' = TRUE /\ img' \in {m \in Images : Valid(m)}
Pick(S) == RandomElement(S)
Draw(d) == LET b == Pick(BitsSet) IN
           [bits |-> b, meta |-> Pick(Metas), root |-> Pick(RootSlots), kind |-> Pick(Kinds), nb |-> Pick(NidBlocks), ns |-> Pick(Slots(b)),
            form |-> Pick({"compact", "extended"}), layout |-> Pick({"plain", "inline"}), q |-> Pick(Quots), t |-> Pick(Tails(b)), raw |-> Pick(RawBlocks), rh |-> Pick(Highs), mh |-> Pick(Highs)]
ChooseRandom == ~done /\ \E m \in {Draw(img)} : IF Valid(m) THEN img' = m /\ done' = TRUE ELSE UNCHANGED <<img, done>>
Spec == Init /\ [][Choose]_<<img, done>>
SimSpec == Init /\ [][ChooseRandom]_<<img, done>>
Emit == IF done' /\ ~done THEN EmitLine(ToJson([m |-> img', inode |-> InodeAt(img'), rootat |-> RootAt(img'), dir |-> RootDir(img'), segs |-> Segments(img')])) ELSE TRUE

\* --- facts --------------------------------------------------------------------
SizeRight == done => LET S == Segments(img) IN
    (IF Len(S) > 0 THEN S[1].q ELSE 0) = img.q /\ (IF Len(S) > 0 THEN S[Len(S)].n ELSE 0) = img.t
TailInBlock == (done /\ img.layout = "inline") => TailAt(img).o + img.t <= Bs(img.bits)
Aligned == done => InodeAt(img).o % 32 = 0 /\ RootAt(img).o % 32 = 0 /\ InodeAt(img).o < Bs(img.bits)
================================================================================
