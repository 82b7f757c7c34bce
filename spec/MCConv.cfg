CONSTANTS SpaceIdx = {1} Sizes = {3, 4}
 Ks = {2} Strides = {2} Pads = {0, 1} Dils = {1} Modes = {"zeros"}
INIT Init
NEXT Next
INVARIANT AlignedCommutes
CHECK_DEADLOCK FALSE
