---- MODULE MCHandles ----
EXTENDS Handles
===========================
