SPECIFICATION Spec
CONSTANT Vals = {"x", "None"}
INVARIANTS Total Asymmetric Transitive Typed Override Sorted
