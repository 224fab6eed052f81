"""Deterministic simulation with fault injection for the JADN library.  See /verif/DESIGN.md."""
