"""Static analysis of reactive-python/reactpy: project model, lowering, dataflow, rules."""
