------------------------- MODULE MCMemConc -------------------------
EXTENDS MemFsConc
AB == <<"a", "b">>
MCOps == {NOp("write", <<"a">>, "d1", "p1"), NOp("write", AB, "d1", "p1"), NOp("write", AB, "d2", "p2"),
          NOp("mkdir", <<"a">>, "", "q1"), NOp("mkdir", AB, "", "q2"), NOp("stat", AB, "", ""), NOp("stat", <<"a">>, "", "")}
MCThreads == {1, 2, 3}
Two == {1, 2}
MCPrograms == [MCThreads -> {<<o>> : o \in MCOps}] 
MCProgramsLong == [Two -> {<<o, r>> : o \in MCOps, r \in MCOps}]
====================================================================
