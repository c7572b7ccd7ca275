----------------------------- MODULE MCHfResume -----------------------------
EXTENDS HfResume
OneSplit == <<5>>
TwoSplits == <<3, 4>>
Tiny == <<3>>
Larger == <<7, 1>>
WithEmpty == <<0, 3>>
=============================================================================
