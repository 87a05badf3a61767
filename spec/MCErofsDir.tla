---- MODULE MCErofsDir ----
EXTENDS ErofsDir
============================
