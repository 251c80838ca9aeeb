"""Runtime monitors for alignedTextGrid: workloads, hooks and oracles (see DESIGN.md)."""
