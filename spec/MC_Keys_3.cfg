SPECIFICATION Spec
CONSTANT Vals = {"x", "y", "None"}
INVARIANTS Total Asymmetric Transitive Typed Override Sorted
