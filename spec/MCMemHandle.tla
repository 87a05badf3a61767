------------------------- MODULE MCMemHandle -------------------------
\* MemFs, two handles over two files that are rewritten meanwhile (M02)
EXTENDS MemFsGen
MCPaths == {<<"f">>, <<"g">>}
MCBad == {}
MCDLen == [x \in Datas |-> CASE x = "d0" -> 0 [] x = "d1" -> 1 [] x = "d2" -> 2 [] x = "d3" -> 3]
====================================================================
