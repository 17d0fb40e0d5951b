"""Bounded exhaustive model checking of pyvista-gridder (see DESIGN.md)."""
