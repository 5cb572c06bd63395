"""Static analyzer for bluedynamics/node. Nothing of /repo is imported or run."""
