------------------------- MODULE MCTar -------------------------
EXTENDS TarGen
MCPaths == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "a">>}
MCPathsBig == {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "c">>, <<"a", "d">>, <<"a", "b", "a">>, <<"a", "b", "e">>, <<"b", "a">>, <<"b", "a", "b", "a">>}
MCAbsent == {<<"z">>}
================================================================
