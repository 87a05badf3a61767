------------------------- MODULE MCTarDamage -------------------------
EXTENDS TarDamage
MCPaths == {<<"a">>, <<"b">>, <<"a", "b">>}
MCPathsBig == {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "a">>, <<"b", "a">>}
MCAbsent == {<<"z">>}
======================================================================
