"""pv: a small deductive verifier for the Python code in /repo/src/jwkest.

It executes the abstract syntax trees of the functions as they stand in /repo
symbolically, for all inputs, against contracts kept in /verif/specs.
"""
