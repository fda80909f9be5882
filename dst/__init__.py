"""Deterministic simulation with fault injection for do-mpc."""
