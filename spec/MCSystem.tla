------------------------------ MODULE MCSystem ------------------------------
EXTENDS System
MSpec == SInit /\ [][SNext]_svars
\* the best value only falls
Falls == [][best' <= best]_svars
=============================================================================
