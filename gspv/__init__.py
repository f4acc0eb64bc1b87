"""Runtime monitors for vispy/GSP.  See /verif/DESIGN.md."""
