------------------------------- MODULE MC_C01 -------------------------------
EXTENDS MC_Sections
MCBodies == << << 1 >>, << 2, 3 >>, << 255, 0, 4 >> >>
=============================================================================
