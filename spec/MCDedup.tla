------------------------------ MODULE MCDedup -------------------------------
EXTENDS Dedup
D(t, s) == [t |-> t, src |-> s]
Two == << <<D(1, 1), D(2, 1)>>, <<D(1, 2), D(1, 1)>> >>
Small == << <<D(1, 1)>>, <<D(1, 2)>> >>
Three == << <<D(1, 1), D(0, 1), D(3, 1)>>, <<D(2, 2), D(1, 1)>>, <<D(2, 1), D(1, 2)>> >>
Four == << <<D(1, 1), D(2, 1), D(1, 1)>>, <<D(2, 2), D(1, 1)>>, <<D(2, 1), D(1, 2)>>, <<D(1, 1), D(2, 1)>> >>
=============================================================================
