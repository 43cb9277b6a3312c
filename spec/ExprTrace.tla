------------------------------ MODULE ExprTrace ------------------------------
EXTENDS Expr, SeqTrace
=============================================================================
