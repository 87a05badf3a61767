------------------------- MODULE MCMemDir -------------------------
\* MemFs, directory handles read in batches (M03)
EXTENDS MemFsGen
MCPaths == {<<>>, <<"a">>, <<"a", "b">>, <<"c">>, <<"d">>}
MCPathsSim == MCPaths \cup {<<"a", "e">>, <<"a", "f">>, <<"a", "g">>, <<"g">>}
\* many entries
MCPathsWide == {<<>>, <<"a">>, <<"z">>} \cup {<<"a", "n" \o ToString(k)>> : k \in 1..30} \cup {<<"m" \o ToString(k)>> : k \in 1..10}
MCBad == {}
MCDLen == [x \in Datas |-> 1]
====================================================================
