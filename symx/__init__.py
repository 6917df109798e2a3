"""symx: a small symbolic executor for numpy-based Python code (see ../DESIGN.md)."""
