"""Property-based checks of plaquette, see /verif/DESIGN.md."""
