"""Static value-flow analysis of the tranquilo source tree (stdlib only)."""
