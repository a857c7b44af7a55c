"""Deterministic simulator for pypsrp (see /verif/DESIGN.md)."""
