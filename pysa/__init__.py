"""Abstract interpreter for the Python sources of the executor (see DESIGN.md)."""
