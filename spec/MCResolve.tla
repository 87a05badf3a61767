------------------------------ MODULE MCResolve ------------------------------
EXTENDS ResolveGen
MCSlots == << <<"l">>, <<"d", "m">>, <<"d", "e", "n">> >>
MCPlain == [p \in {<<>>, <<"d">>, <<"d", "e">>, <<"f">>, <<"d", "f">>, <<"d", "e", "g">>} |->
              IF p \in {<<>>, <<"d">>, <<"d", "e">>} THEN Dir ELSE File]
Few == {T(FALSE, <<"f">>), T(FALSE, <<"e">>), T(FALSE, <<"d">>), T(FALSE, <<"..", "f">>), T(FALSE, <<"..">>), T(FALSE, <<"m">>),
        T(FALSE, <<"e", "n">>), T(FALSE, <<"..", "..", "l">>), T(FALSE, <<"d", "m">>), T(TRUE, <<>>), T(TRUE, <<"d", "e">>),
        T(TRUE, <<"l", "..", "f">>), T(TRUE, <<"d", "m", "f">>), T(FALSE, <<"n">>), T(FALSE, <<"zz">>), T(FALSE, <<>>)}
Many == Few \cup {T(FALSE, <<".">>), T(FALSE, <<"g">>), T(FALSE, <<"e", "g">>), T(FALSE, <<"d", "e">>), T(FALSE, <<"..", "..">>),
        T(FALSE, <<"..", "..", "..", "f">>), T(FALSE, <<"l">>), T(FALSE, <<"..", "m">>), T(FALSE, <<"d", "", "e">>), T(FALSE, <<"d", "">>),
        T(FALSE, <<"f", "">>), T(FALSE, <<"f", "..", "f">>), T(FALSE, <<"zz", "..", "f">>), T(TRUE, <<"..", "f">>), T(TRUE, <<"l">>),
        T(TRUE, <<"d", "e", "n", "g">>), T(TRUE, <<"zz">>), T(FALSE, <<".", "f">>), T(TRUE, <<"d", "e", "..", "m">>)}
FewLens == {1, 2, 39, 40, 41}
AllLens == 1..43
MCRoot == [p \in {<<>>} |-> Dir]
L2(i) == ToString(i)
ChainSlots == [i \in 1..43 |-> IF i % 3 = 0 THEN <<"d", L2(i)>> ELSE <<L2(i)>>]
ChainPlain == [p \in {<<>>, <<"d">>, <<"f">>} |-> IF p = <<"f">> THEN File ELSE Dir]
===============================================================================
