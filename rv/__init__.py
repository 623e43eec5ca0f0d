"""Runtime-verification framework for u9n/elgas: workloads, monitors, oracles."""
