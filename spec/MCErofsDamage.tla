---- MODULE MCErofsDamage ----
EXTENDS ErofsDamage
====
