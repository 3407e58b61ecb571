---- MODULE MCCacheNoLock ----
EXTENDS CacheConc
G(k) == <<"get", k>>
R == <<"rel", 0>>
P == << <<G(0),R>>, <<G(0),R>> >>
====
