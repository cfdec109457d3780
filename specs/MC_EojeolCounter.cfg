SPECIFICATION Spec
CONSTANT MaxSents = 3
INVARIANTS InvExact CountsAreReal CoverageInRange CoverageMeans Emit
