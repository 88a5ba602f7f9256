"""Shared machinery of the checks: exhaustive case runner, reference models, scheduler."""
