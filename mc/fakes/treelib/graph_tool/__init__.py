"""Stand-in for the part of graph-tool that switss uses (graph-tool is not installed here)."""
