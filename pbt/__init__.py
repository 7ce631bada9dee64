"""A small, dependency-free property-based testing engine (see engine.py)."""
