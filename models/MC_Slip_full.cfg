SPECIFICATION Spec
CONSTANTS
 MaxHops = 2
 Heights = {3900, 4200, 5120, 6144, 7168}
 Speeds = {0, 2048, 6144, 8192, 12288}
INVARIANTS EnergyKept LandingOnTheGround ApexIsTheTop LandingKeepsTheBody StanceKeepsEnergy
PROPERTIES TimeForward FootPinned
CHECK_DEADLOCK FALSE
