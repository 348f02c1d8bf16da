"""Model-based verification of twisted/epsilon: TLA+ specifications bound to the code."""
