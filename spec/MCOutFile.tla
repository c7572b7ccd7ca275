----------------------------- MODULE MCOutFile ------------------------------
EXTENDS OutFile
AllTargets == {"file", "nested", "noext", "dir", "dirx"}
FewTargets == {"file", "noext", "dir"}
Sizes == <<3, 1, 2>>
=============================================================================
