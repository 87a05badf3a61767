----------------------------- MODULE Tar -----------------------------
(* What a tar archive means: a machine that reads entries in order and    *)
(* builds a table from paths to nodes, and the tree the table stands for.  *)
(* Contents, metadata and link targets are tokens numbered after their     *)
(* entry, so every entry is distinguishable.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Paths,      \* sequences of name tokens
          Absent      \* paths no entry ever has (targets of broken hard links)

Proper(p) == {SubSeq(p, 1, i) : i \in 1..Len(p) - 1}
Empty == <<>>      \* the empty table

\* entries: [k, p, i, to]; i is the entry's number, to the target of a hard link
Entry(k, p, i, to) == [k |-> k, p |-> p, i |-> i, to |-> to]
EntriesAt(i) ==
    {Entry(k, p, i, <<>>) : k \in {"reg", "dir", "sym"}, p \in Paths}
    \cup {Entry("hard", p, i, t) : p \in Paths, t \in Paths \cup Absent}
    \cup {Entry("global", <<>>, i, <<>>), Entry("root", <<>>, i, <<>>)}

Implied == [k |-> "implied", p |-> <<>>, i |-> 0, to |-> <<>>]
IsDirEntry(x) == x.k \in {"dir", "implied"}

\* Reading one entry: missing parents appear, the entry replaces what its path had before.
Add(tab, e) ==
    IF e.k \in {"global", "root"} THEN tab
    ELSE [q \in DOMAIN tab \cup Proper(e.p) \cup {e.p} |->
            IF q = e.p THEN e
            ELSE IF q \in Proper(e.p) /\ (q \notin DOMAIN tab \/ ~IsDirEntry(tab[q])) THEN Implied
            ELSE tab[q]]

\* An entry below something that is no directory: what it means is not specified.
Clash(tab, e) == \E q \in Proper(e.p) : q \in DOMAIN tab /\ ~IsDirEntry(tab[q])

RECURSIVE Table(_), Clashes(_)
Table(es) == IF es = <<>> THEN Empty ELSE Add(Table(SubSeq(es, 1, Len(es) - 1)), es[Len(es)])
Clashes(es) == IF es = <<>> THEN FALSE
               ELSE LET r == SubSeq(es, 1, Len(es) - 1) IN Clashes(r) \/ Clash(Table(r), es[Len(es)])

\* Where a chain of hard links leads.
RECURSIVE Lead(_, _, _)
Lead(tab, p, seen) ==
    IF p \notin DOMAIN tab THEN [r |-> "missing"]
    ELSE IF tab[p].k # "hard" THEN [r |-> "ok", e |-> tab[p]]
    ELSE IF p \in seen THEN [r |-> "cycle"]
    ELSE Lead(tab, tab[p].to, seen \cup {p})

Leads(tab, p) == Lead(tab, p, {})
Broken(tab) == \E p \in DOMAIN tab : Leads(tab, p).r # "ok"
WellFormed(tab) ==
    /\ \A p \in DOMAIN tab : \A q \in Proper(p) : IsDirEntry(tab[q])
    /\ \A p \in DOMAIN tab : (tab[p].k = "hard" /\ Leads(tab, p).r = "ok") => ~IsDirEntry(Leads(tab, p).e)

\* The tree of a table: kind, number of the entry that gives content, metadata and target.
TreeOf(tab) == {[p |-> p,
                 k |-> LET e == Leads(tab, p).e IN
                       CASE e.k = "reg" -> "file" [] e.k = "sym" -> "link" [] OTHER -> "dir",
                 i |-> Leads(tab, p).e.i] : p \in DOMAIN tab}

\* "ok" with the tree, "refuse", or "any" where nothing is specified
MeaningOf(tab, clash) ==
    IF clash \/ ~WellFormed(tab) THEN [r |-> "any", tree |-> {}]
    ELSE IF Broken(tab) THEN [r |-> "refuse", tree |-> {}]
    ELSE [r |-> "ok", tree |-> TreeOf(tab)]
Meaning(es) == MeaningOf(Table(es), Clashes(es))
=======================================================================
