SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Fuel = 3000
