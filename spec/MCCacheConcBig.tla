---- MODULE MCCacheConcBig ----
EXTENDS CacheConc
G(k) == <<"get", k>>
R == <<"rel", 0>>
P == << <<G(0),R,G(1),R,G(2),R>>, <<G(1),G(0),R,R,G(2),R>>, <<G(2),R,G(0),R>>, <<G(3),R>> >>
====
