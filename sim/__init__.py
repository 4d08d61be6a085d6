"""Deterministic simulation of QuOCS (see /verif/DESIGN.md)."""
