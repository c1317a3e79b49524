"""Runtime-monitoring framework for lamberthub (see /verif/DESIGN.md)."""
