"""Symbolic executor for the real Prosimos code (z3-backed value proxies + path re-execution)."""
