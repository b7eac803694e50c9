------------------------------ MODULE Attempts ------------------------------
\* the value of x, or d when x has no value (evaluated by Try.java)
Attempt(x, d) == x
=============================================================================
