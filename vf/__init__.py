"""Runtime-monitoring machinery for fv3gfs-util.  See /verif/DESIGN.md."""
