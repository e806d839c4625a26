"""Nothing is ever plotted here; the extractor merely imports pyplot."""
