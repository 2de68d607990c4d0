"""Symbolic executor for Python source (AST-instrumented, z3-backed). See DESIGN.md."""
