---- MODULE MCPoolNoAba ----
EXTENDS PoolCAS
P == << <<"g","r">>, <<"g","g","r","g","r">> >>
====
