INIT Init
NEXT Next
CONSTANTS Ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16} Hs = {1, 2, 3, 4, 5, 6, 7}
INVARIANTS Action Invertible PixelsPermuted PixelAction Restrictions
CHECK_DEADLOCK FALSE
