---- MODULE MCErofsImage ----
EXTENDS ErofsImage
====
