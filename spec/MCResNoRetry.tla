---- MODULE MCResNoRetry ----
EXTENDS ResourceCAS
P == << <<"rep">>, <<"rep">> >>
====
