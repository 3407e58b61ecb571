---- MODULE MCResNoEmpty ----
EXTENDS ResourceCAS
P == << <<"get","rel">>, <<"rep">> >>
====
