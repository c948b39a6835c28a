"""Deterministic simulation of the opinf package (see /verif/DESIGN.md)."""
