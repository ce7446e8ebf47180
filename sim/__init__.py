"""Deterministic simulator for openearth/aeolis-python (see DESIGN.md)."""
