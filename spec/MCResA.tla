---- MODULE MCResA ----
EXTENDS ResourceCAS
P == << <<"get","rel">>, <<"get","rel">>, <<"rep","rep">> >>
====
