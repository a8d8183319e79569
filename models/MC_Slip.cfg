SPECIFICATION Spec
CONSTANTS
 MaxHops = 2
 Heights = {4200, 6144}
 Speeds = {0, 7168}
INVARIANTS EnergyKept LandingOnTheGround ApexIsTheTop LandingKeepsTheBody StanceKeepsEnergy
PROPERTIES TimeForward FootPinned
CHECK_DEADLOCK FALSE
