"""Bounded exhaustive exploration of netomaton: real executions checked against reference models."""
