------------------------- MODULE MCMemTree -------------------------
\* MemFs, tree operations only (M01): a chain of three names and a sibling
EXTENDS MemFsGen
MCPaths == {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"d">>}
\* deep, and with names that recur
MCPathsDeep == MCPaths \cup {<<"a", "b", "c", "d">>, <<"a", "b", "c", "d", "e">>, <<"a", "b", "c", "d", "e", "f">>,
                            <<"a", "a">>, <<"a", "a", "a">>, <<"a", "b", "a">>, <<"d", "a">>, <<"d", "b">>}
MCBad == {<<"!">>}
MCDLen == [x \in Datas |-> 1]
====================================================================
