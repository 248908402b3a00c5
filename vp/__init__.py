"""Machinery shared by all checks."""
