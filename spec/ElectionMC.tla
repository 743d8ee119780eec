---------------------------- MODULE ElectionMC ----------------------------
EXTENDS Election
=============================================================================
