"""pyvc: a contract-based VC generator for the Python functions of /repo (see ../DESIGN.md)."""
