---- MODULE MCPoolA ----
EXTENDS PoolCAS
P == << <<"g","r","g","r">>, <<"g","g","r","r">>, <<"g","r">> >>
====
