"""Deterministic simulation of LEAP: see ../DESIGN.md."""
