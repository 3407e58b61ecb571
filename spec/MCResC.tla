---- MODULE MCResC ----
EXTENDS ResourceCAS
P == << <<"get","rel">>, <<"get","rel">>, <<"rep">>, <<"rep">> >>
====
