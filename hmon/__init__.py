"""Runtime monitors for harold: oracles, workload generators and the runner."""
