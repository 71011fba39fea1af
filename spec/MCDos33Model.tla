---------------------------- MODULE MCDos33Model ----------------------------
EXTENDS Dos33Model, TLC
\* Sector numbers are interchangeable except for the catalog's: data placement
\* is restricted to first-fit order to keep the model small.
MCCat == <<2, 1>>
=============================================================================
