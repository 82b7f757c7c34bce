CONSTANTS SpaceIdx = {1, 3, 4} Sizes = {3, 4}
 Ks = {2, 3} Strides = {1, 2} Pads = {0, 1} Dils = {1} Modes = {"zeros"}
INIT Init
NEXT Next
INVARIANT AlignedCommutes
CHECK_DEADLOCK FALSE
