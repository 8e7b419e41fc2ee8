"""Deterministic simulation with fault injection for kMCpy."""
