"""Proxy-based symbolic execution of the real Python code with z3 as the deciding step."""
