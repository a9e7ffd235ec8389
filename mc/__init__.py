"""Model-checking framework for asyncz (see DESIGN.md)."""
