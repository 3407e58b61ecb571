---- MODULE MCResReuse ----
EXTENDS ResourceCAS
P == << <<"get","rel">>, <<"get","rel">>, <<"rep","rep">> >>
====
