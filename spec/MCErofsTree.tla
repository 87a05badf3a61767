---- MODULE MCErofsTree ----
EXTENDS ErofsTree
====
