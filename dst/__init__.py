"""Deterministic simulation of ebranlard/wiz with fault injection.  See /verif/DESIGN.md."""
