"""PyAbs: a small abstract interpreter for the Python subset used by ccsds_ndm.

It never imports or executes code of the analysed project: it reads the source
text, builds the AST and evaluates it over abstract values (see values.py).
"""
