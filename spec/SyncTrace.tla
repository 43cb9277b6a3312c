----------------------------- MODULE SyncTrace -----------------------------
EXTENDS Sync, Lin
============================================================================
