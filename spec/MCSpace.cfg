INIT Init
NEXT Next
CONSTANTS Ns = {1, 2, 3, 4, 6, 8} Hs = {1, 2, 3, 4, 5}
INVARIANTS Action Invertible PixelsPermuted PixelAction Restrictions
CHECK_DEADLOCK FALSE
