"""pyvc: a verification-condition generator for the Python dialect of pysqlsync (see DESIGN.md)."""
