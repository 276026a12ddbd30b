"""Runtime monitors for naima: workloads, observation and oracles."""
