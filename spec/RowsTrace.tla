------------------------------ MODULE RowsTrace ------------------------------
EXTENDS Rows, Lin
=============================================================================
