"""Runtime-monitoring framework for sldrtools: workload drivers, execution monitors and oracles."""
