---- MODULE MCPoolB ----
EXTENDS PoolCAS
P == << <<"g","r">>, <<"g","g","r","r">>, <<"g","r","g">> >>
====
