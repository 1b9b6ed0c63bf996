"""Harness: what the analysed library is expected to do, and the comparison with what
the abstract interpretation of its source says it does."""
