"""Deterministic simulation of cls1 with fault injection (see DESIGN.md)."""
