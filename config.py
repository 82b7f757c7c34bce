PROPS = {
 "P01": dict(judge="J01", models=[("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=100),
 "P02": dict(judge="J02", models=[("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=100),
 "P03": dict(judge="J03", models=[("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=100,
             gen=dict(module="GenRep", cfg="GenRep", quick=["-simulate", "num=500", "-depth", "12"], thorough=["-simulate", "num=8000", "-depth", "12"])),
 "P04": dict(judge="J04", models=[("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=60),
 "P05": dict(judge="J05", models=[("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=100),
 "P06": dict(judge="J06", models=[("MCSpace", "MCSpace", "MCSpaceT"), ("MCAlgebra", "MCAlgebra", "MCAlgebraT")], min_events=100,
             gen=dict(module="GenRestr", cfg="GenRestr", quick=["-simulate", "num=400", "-depth", "12"], thorough=["-simulate", "num=6000", "-depth", "12"])),
 "P07": dict(judge="J07", models=[("MCSpace", "MCSpace", "MCSpaceT")], min_events=100),
 "P08": dict(judge="J08", models=[("MCKernel", "MCKernel", "MCKernelT")], min_events=400),
 "P09": dict(judge="J09", models=[("MCKernel", "MCKernel", "MCKernelT")], min_events=400),
 "P10": dict(judge="J10", models=[("MCCache", "MCCache", "MCCacheT")], min_events=400,
             gen=dict(module="GenCache", cfg="GenCache", quick=[], thorough=[])),
 "P11": dict(judge="J11", models=[("MCConv", "MCConv", "MCConvT")], min_events=400),
 "P12": dict(judge="J12", models=[("MCLife", "MCLife", "MCLifeT")], min_events=400,
             gen=dict(module="GenLife", cfg="GenLife", quick=["-simulate", "num=800", "-depth", "12"], thorough=["-simulate", "num=8000", "-depth", "12"])),
 "P13": dict(judge="J13", models=[("MCFields", "MCFields", "MCFieldsT")], min_events=400),
 "P14": dict(judge="J14", models=[("MCFields", "MCFields", "MCFieldsT")], min_events=400),
 "P15": dict(judge="J15", models=[("MCBN", "MCBN", "MCBNT"), ("MCBNA", "MCBNA", "MCBNAT")], min_events=400,
             gen=dict(module="GenBN", cfg="GenBN", quick=["-simulate", "num=800", "-depth", "11"], thorough=["-simulate", "num=10000", "-depth", "11"])),
 "P16": dict(judge="J16", models=[("MCDrop", "MCDrop", "MCDropT"), ("MCDrop", "MCDropP", "MCDropPT")], min_events=400,
             gen=dict(module="GenDrop", cfg="GenDrop", quick=["-simulate", "num=400", "-depth", "10"], thorough=["-simulate", "num=6000", "-depth", "10"])),
 "P17": dict(judge="J17", models=[("MCShape", "MCShape", "MCShapeT")], min_events=400),
 "P18": dict(judge="J18", models=[("MCGT", "MCGT", "MCGTT")], min_events=400,
             gen=dict(module="GenGT", cfg="GenGT", quick=["-simulate", "num=600", "-depth", "14"], thorough=["-simulate", "num=8000", "-depth", "14"])),
 "P19": dict(judge="J19", models=[("MCFT", "MCFT", "MCFTT")], min_events=400,
             gen=dict(module="GenFT", cfg="GenFT", quick=["-simulate", "num=600", "-depth", "14"], thorough=["-simulate", "num=8000", "-depth", "14"])),
 "P20": dict(judge="J20", models=[("MCCont", "MCCont", "MCContT")], min_events=400,
             gen=dict(module="GenCont", cfg="GenCont", quick=["-simulate", "num=600", "-depth", "18"], thorough=["-simulate", "num=8000", "-depth", "18"])),
 "P21": dict(judge="J21", models=[("MCNet", "MCNet", "MCNetT")], min_events=400,
             gen=dict(module="GenNet", cfg="GenNet", quick=["-simulate", "num=240", "-depth", "13"], thorough=["-simulate", "num=4000", "-depth", "13"])),
 "P22": dict(judge="J22", models=[("MCLayout", "MCLayout", "MCLayoutT")], min_events=400),
}
