"""Bounded exhaustive exploration of PyKrige against reference models."""
