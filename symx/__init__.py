"""Symbolic execution of structuralcodes with an SMT back end."""
