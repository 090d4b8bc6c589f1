"""Builds the framework (every check rebuilds what changed)."""
import check
check.build()
