---- MODULE MCAr ----
EXTENDS Ar
====
