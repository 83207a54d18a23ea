"""A deductive verifier for the Python of this repository: see DESIGN.md."""
