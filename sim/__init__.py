"""Deterministic simulation of yaocptool. See /verif/DESIGN.md."""
