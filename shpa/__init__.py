"""Repository-specific static analysis for shepherd-datalib."""
