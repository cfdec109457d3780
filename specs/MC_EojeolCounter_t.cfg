SPECIFICATION Spec
CONSTANT MaxSents = 5
INVARIANTS InvExact CountsAreReal CoverageInRange CoverageMeans Emit
