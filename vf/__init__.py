"""Runtime-monitoring machinery for senarvi/theanolm (see DESIGN.md)."""
