"""Runtime-monitoring harness for rebulk."""
