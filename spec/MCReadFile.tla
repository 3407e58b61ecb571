---- MODULE MCReadFile ----
EXTENDS ReadFile
====
