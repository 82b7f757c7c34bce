CONSTANTS Vals = {0, 1}
 Fault = "none"
 MaxLayers = 5
 Kinds = {"f64", "f16"}
INIT Init
NEXT Next
INVARIANTS DependsOnlyOnArguments ConversionIsLocal StoreNeverConverted
CHECK_DEADLOCK FALSE
