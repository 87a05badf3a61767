---------------------------- MODULE TarGen ----------------------------
(* Archives (sequences of entries) with the tree each must open to.        *)
EXTENDS Tar, Json, LineOut, IOUtils
CONSTANTS MaxEntries, EmitAll
VARIABLES es, tab, done
gvars == <<es, tab, done>>

GInit == es = <<>> /\ tab = Empty /\ done = FALSE
Take(e) == es' = Append(es, e) /\ tab' = Add(tab, e)
Append1 == /\ ~done /\ Len(es) < MaxEntries
           /\ \E e \in {x \in EntriesAt(Len(es) + 1) : ~Clash(tab, x)} : Take(e)
           /\ UNCHANGED done
\* random behaviours: the kind first, hard links mostly to paths that exist
Pick == LET i == Len(es) + 1
            k == RandomElement(1..12)
            kind == CASE k \in 1..4 -> "reg" [] k \in 5..6 -> "dir" [] k \in 7..8 -> "sym" [] k \in 9..11 -> "hard" [] k = 12 -> "global"
            all == {x \in EntriesAt(i) : x.k = kind /\ ~Clash(tab, x) /\ (kind = "dir" \/ \A q \in DOMAIN tab : x.p \notin Proper(q))}
            good == IF kind = "hard" /\ RandomElement(1..20) > 1
                    THEN {x \in all : x.to \in DOMAIN tab /\ x.to # x.p /\ ~IsDirEntry(tab[x.to])} ELSE all IN
        IF good # {} THEN RandomElement(good) ELSE Entry("root", <<>>, i, <<>>)
AppendRandom == ~done /\ Len(es) < MaxEntries /\ \E e \in {Pick} : Take(e) /\ UNCHANGED done
Finish == ~EmitAll /\ ~done /\ Len(es) = MaxEntries /\ done' = TRUE /\ UNCHANGED <<es, tab>>
GSpec == GInit /\ [][Append1 \/ Finish]_gvars
SimSpec == GInit /\ [][AppendRandom \/ Finish]_gvars

\* archives whose meaning is not specified: entries below something that is no directory,
\* directories replaced while they have entries, hard links to directories
OddAppend == /\ ~done /\ Len(es) < MaxEntries /\ \E e \in EntriesAt(Len(es) + 1) : Take(e)
             /\ UNCHANGED done
OddSpec == GInit /\ [][OddAppend]_gvars
OddSim == GInit /\ [][\/ ~done /\ Len(es) < MaxEntries /\ \E e \in {RandomElement(EntriesAt(Len(es) + 1))} : Take(e) /\ UNCHANGED done
                      \/ Finish]_gvars
OddEmit == IF (EmitAll /\ es' # es) \/ (done' /\ ~done)
           THEN IF MeaningOf(tab', Clashes(es')).r = "any" THEN EmitLine(ToJson([es |-> es', open |-> "any", tree |-> {}])) ELSE TRUE
           ELSE TRUE

Emit == IF (EmitAll /\ es' # es) \/ (done' /\ ~done)
        THEN LET m == MeaningOf(tab', FALSE) IN
             IF m.r = "any" THEN TRUE
             ELSE EmitLine(ToJson([es |-> es', open |-> m.r, tree |-> m.tree]))
        ELSE TRUE

\* checked on the specification itself
Real(j) == es[j].k \notin {"root", "global"}
Incremental == tab = Table(es)
ParentsPresent == \A p \in DOMAIN tab : Proper(p) \subseteq DOMAIN tab
NothingElse == \A p \in DOMAIN tab : \E j \in 1..Len(es) : Real(j) /\ (es[j].p = p \/ p \in Proper(es[j].p))
LastDecides == \A p \in DOMAIN tab : tab[p].k # "implied" =>
                  \A j \in 1..Len(es) : (Real(j) /\ es[j].p = p) => j <= tab[p].i
DirKeepsItsOwn == \A j \in 1..Len(es) : (es[j].k = "dir" /\ ~\E l \in j + 1..Len(es) : es[l].p = es[j].p /\ Real(l))
                     => tab[es[j].p].i = j
=======================================================================
