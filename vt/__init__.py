"""Runtime-monitoring harness for python-omemo (see ../DESIGN.md)."""
