"""Static analysis of the thewalrus sources (standard library only)."""
