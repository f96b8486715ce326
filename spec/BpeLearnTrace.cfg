SPECIFICATION Spec
CONSTANT Uni <- UniTable
CHECK_DEADLOCK FALSE
