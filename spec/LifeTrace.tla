----------------------------- MODULE LifeTrace -----------------------------
EXTENDS Life, Lin
============================================================================
