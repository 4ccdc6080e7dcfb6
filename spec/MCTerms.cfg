SPECIFICATION Spec
INVARIANT Injective Positive Numeric SessionFirst KeysDiffer Chains
CHECK_DEADLOCK FALSE
