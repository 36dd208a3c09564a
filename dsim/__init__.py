"""Deterministic simulation of jax-sgmc's host side (see /verif/DESIGN.md)."""
