"""Deterministic simulation of rkopenmdao with fault injection."""
