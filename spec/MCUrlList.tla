----------------------------- MODULE MCUrlList ------------------------------
EXTENDS UrlList
L3 == <<1, 3, 2>>
L4 == <<2, 1, 4, 2>>
=============================================================================
