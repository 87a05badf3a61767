---- MODULE MCConvert ----
EXTENDS Convert
===========================
