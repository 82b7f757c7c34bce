-------------------------------- MODULE Trig --------------------------------
(* Fixed-point trigonometry.  Angles are integers counting 1/5040 of a turn  *)
(* (5040 is divisible by every rotation order used), values are scaled by S. *)
EXTENDS Integers, Sequences
Turn == 5040
S == 10000
CosTab == <<
  10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 9999, 9999, 9999, 9999, 9999, 9998, 9998, 9998, 9998, 9997, 9997, 9997,
  9997, 9996, 9996, 9996, 9995, 9995, 9994, 9994, 9993, 9993, 9993, 9992, 9992, 9991, 9990, 9990, 9989, 9989, 9988, 9988, 9987,
  9986, 9986, 9985, 9984, 9984, 9983, 9982, 9981, 9981, 9980, 9979, 9978, 9977, 9977, 9976, 9975, 9974, 9973, 9972, 9971, 9970,
  9969, 9968, 9967, 9966, 9965, 9964, 9963, 9962, 9961, 9960, 9959, 9957, 9956, 9955, 9954, 9953, 9952, 9950, 9949, 9948, 9947,
  9945, 9944, 9943, 9941, 9940, 9939, 9937, 9936, 9934, 9933, 9931, 9930, 9928, 9927, 9925, 9924, 9922, 9921, 9919, 9918, 9916,
  9914, 9913, 9911, 9909, 9908, 9906, 9904, 9903, 9901, 9899, 9897, 9896, 9894, 9892, 9890, 9888, 9886, 9885, 9883, 9881, 9879,
  9877, 9875, 9873, 9871, 9869, 9867, 9865, 9863, 9861, 9859, 9857, 9855, 9852, 9850, 9848, 9846, 9844, 9842, 9839, 9837, 9835,
  9833, 9830, 9828, 9826, 9823, 9821, 9819, 9816, 9814, 9811, 9809, 9807, 9804, 9802, 9799, 9797, 9794, 9792, 9789, 9787, 9784,
  9781, 9779, 9776, 9774, 9771, 9768, 9766, 9763, 9760, 9758, 9755, 9752, 9749, 9746, 9744, 9741, 9738, 9735, 9732, 9729, 9727,
  9724, 9721, 9718, 9715, 9712, 9709, 9706, 9703, 9700, 9697, 9694, 9691, 9688, 9685, 9681, 9678, 9675, 9672, 9669, 9666, 9662,
  9659, 9656, 9653, 9650, 9646, 9643, 9640, 9636, 9633, 9630, 9626, 9623, 9619, 9616, 9613, 9609, 9606, 9602, 9599, 9595, 9592,
  9588, 9585, 9581, 9578, 9574, 9570, 9567, 9563, 9559, 9556, 9552, 9548, 9545, 9541, 9537, 9533, 9530, 9526, 9522, 9518, 9514,
  9511, 9507, 9503, 9499, 9495, 9491, 9487, 9483, 9479, 9475, 9471, 9467, 9463, 9459, 9455, 9451, 9447, 9443, 9439, 9435, 9431,
  9426, 9422, 9418, 9414, 9410, 9405, 9401, 9397, 9393, 9388, 9384, 9380, 9375, 9371, 9367, 9362, 9358, 9354, 9349, 9345, 9340,
  9336, 9331, 9327, 9322, 9318, 9313, 9309, 9304, 9300, 9295, 9290, 9286, 9281, 9277, 9272, 9267, 9262, 9258, 9253, 9248, 9244,
  9239, 9234, 9229, 9224, 9220, 9215, 9210, 9205, 9200, 9195, 9190, 9185, 9181, 9176, 9171, 9166, 9161, 9156, 9151, 9146, 9141,
  9135, 9130, 9125, 9120, 9115, 9110, 9105, 9100, 9094, 9089, 9084, 9079, 9074, 9068, 9063, 9058, 9053, 9047, 9042, 9037, 9031,
  9026, 9020, 9015, 9010, 9004, 8999, 8993, 8988, 8982, 8977, 8971, 8966, 8960, 8955, 8949, 8944, 8938, 8933, 8927, 8921, 8916,
  8910, 8904, 8899, 8893, 8887, 8882, 8876, 8870, 8864, 8859, 8853, 8847, 8841, 8835, 8829, 8824, 8818, 8812, 8806, 8800, 8794,
  8788, 8782, 8776, 8770, 8764, 8758, 8752, 8746, 8740, 8734, 8728, 8722, 8716, 8710, 8704, 8697, 8691, 8685, 8679, 8673, 8666,
  8660, 8654, 8648, 8641, 8635, 8629, 8623, 8616, 8610, 8604, 8597, 8591, 8584, 8578, 8572, 8565, 8559, 8552, 8546, 8539, 8533,
  8526, 8520, 8513, 8507, 8500, 8494, 8487, 8480, 8474, 8467, 8461, 8454, 8447, 8441, 8434, 8427, 8420, 8414, 8407, 8400, 8393,
  8387, 8380, 8373, 8366, 8359, 8353, 8346, 8339, 8332, 8325, 8318, 8311, 8304, 8297, 8290, 8283, 8276, 8269, 8262, 8255, 8248,
  8241, 8234, 8227, 8220, 8213, 8206, 8199, 8192, 8184, 8177, 8170, 8163, 8156, 8148, 8141, 8134, 8127, 8119, 8112, 8105, 8097,
  8090, 8083, 8075, 8068, 8061, 8053, 8046, 8039, 8031, 8024, 8016, 8009, 8001, 7994, 7986, 7979, 7971, 7964, 7956, 7949, 7941,
  7934, 7926, 7918, 7911, 7903, 7895, 7888, 7880, 7872, 7865, 7857, 7849, 7842, 7834, 7826, 7818, 7811, 7803, 7795, 7787, 7779,
  7771, 7764, 7756, 7748, 7740, 7732, 7724, 7716, 7708, 7700, 7692, 7684, 7676, 7668, 7660, 7652, 7644, 7636, 7628, 7620, 7612,
  7604, 7596, 7588, 7580, 7572, 7563, 7555, 7547, 7539, 7531, 7523, 7514, 7506, 7498, 7490, 7481, 7473, 7465, 7456, 7448, 7440,
  7431, 7423, 7415, 7406, 7398, 7390, 7381, 7373, 7364, 7356, 7347, 7339, 7331, 7322, 7314, 7305, 7297, 7288, 7279, 7271, 7262,
  7254, 7245, 7237, 7228, 7219, 7211, 7202, 7193, 7185, 7176, 7167, 7159, 7150, 7141, 7133, 7124, 7115, 7106, 7097, 7089, 7080,
  7071, 7062, 7053, 7045, 7036, 7027, 7018, 7009, 7000, 6991, 6982, 6973, 6964, 6956, 6947, 6938, 6929, 6920, 6911, 6902, 6893,
  6884, 6874, 6865, 6856, 6847, 6838, 6829, 6820, 6811, 6802, 6793, 6783, 6774, 6765, 6756, 6747, 6737, 6728, 6719, 6710, 6701,
  6691, 6682, 6673, 6663, 6654, 6645, 6636, 6626, 6617, 6608, 6598, 6589, 6579, 6570, 6561, 6551, 6542, 6532, 6523, 6513, 6504,
  6494, 6485, 6476, 6466, 6456, 6447, 6437, 6428, 6418, 6409, 6399, 6390, 6380, 6370, 6361, 6351, 6342, 6332, 6322, 6313, 6303,
  6293, 6284, 6274, 6264, 6254, 6245, 6235, 6225, 6215, 6206, 6196, 6186, 6176, 6166, 6157, 6147, 6137, 6127, 6117, 6107, 6098,
  6088, 6078, 6068, 6058, 6048, 6038, 6028, 6018, 6008, 5998, 5988, 5978, 5968, 5958, 5948, 5938, 5928, 5918, 5908, 5898, 5888,
  5878, 5868, 5858, 5848, 5837, 5827, 5817, 5807, 5797, 5787, 5777, 5766, 5756, 5746, 5736, 5726, 5715, 5705, 5695, 5685, 5674,
  5664, 5654, 5643, 5633, 5623, 5613, 5602, 5592, 5582, 5571, 5561, 5551, 5540, 5530, 5519, 5509, 5499, 5488, 5478, 5467, 5457,
  5446, 5436, 5425, 5415, 5405, 5394, 5384, 5373, 5362, 5352, 5341, 5331, 5320, 5310, 5299, 5289, 5278, 5267, 5257, 5246, 5236,
  5225, 5214, 5204, 5193, 5182, 5172, 5161, 5150, 5140, 5129, 5118, 5108, 5097, 5086, 5075, 5065, 5054, 5043, 5032, 5022, 5011,
  5000, 4989, 4978, 4968, 4957, 4946, 4935, 4924, 4913, 4903, 4892, 4881, 4870, 4859, 4848, 4837, 4826, 4815, 4804, 4793, 4783,
  4772, 4761, 4750, 4739, 4728, 4717, 4706, 4695, 4684, 4673, 4662, 4651, 4640, 4629, 4617, 4606, 4595, 4584, 4573, 4562, 4551,
  4540, 4529, 4518, 4507, 4495, 4484, 4473, 4462, 4451, 4440, 4428, 4417, 4406, 4395, 4384, 4373, 4361, 4350, 4339, 4328, 4316,
  4305, 4294, 4283, 4271, 4260, 4249, 4237, 4226, 4215, 4204, 4192, 4181, 4170, 4158, 4147, 4136, 4124, 4113, 4102, 4090, 4079,
  4067, 4056, 4045, 4033, 4022, 4010, 3999, 3987, 3976, 3965, 3953, 3942, 3930, 3919, 3907, 3896, 3884, 3873, 3861, 3850, 3838,
  3827, 3815, 3804, 3792, 3781, 3769, 3758, 3746, 3735, 3723, 3711, 3700, 3688, 3677, 3665, 3653, 3642, 3630, 3619, 3607, 3595,
  3584, 3572, 3560, 3549, 3537, 3525, 3514, 3502, 3490, 3479, 3467, 3455, 3444, 3432, 3420, 3408, 3397, 3385, 3373, 3362, 3350,
  3338, 3326, 3315, 3303, 3291, 3279, 3267, 3256, 3244, 3232, 3220, 3208, 3197, 3185, 3173, 3161, 3149, 3138, 3126, 3114, 3102,
  3090, 3078, 3066, 3055, 3043, 3031, 3019, 3007, 2995, 2983, 2971, 2959, 2948, 2936, 2924, 2912, 2900, 2888, 2876, 2864, 2852,
  2840, 2828, 2816, 2804, 2792, 2780, 2768, 2756, 2744, 2732, 2720, 2708, 2696, 2684, 2672, 2660, 2648, 2636, 2624, 2612, 2600,
  2588, 2576, 2564, 2552, 2540, 2528, 2516, 2504, 2492, 2480, 2468, 2455, 2443, 2431, 2419, 2407, 2395, 2383, 2371, 2359, 2347,
  2334, 2322, 2310, 2298, 2286, 2274, 2262, 2250, 2237, 2225, 2213, 2201, 2189, 2177, 2164, 2152, 2140, 2128, 2116, 2103, 2091,
  2079, 2067, 2055, 2043, 2030, 2018, 2006, 1994, 1981, 1969, 1957, 1945, 1933, 1920, 1908, 1896, 1884, 1871, 1859, 1847, 1835,
  1822, 1810, 1798, 1786, 1773, 1761, 1749, 1736, 1724, 1712, 1700, 1687, 1675, 1663, 1650, 1638, 1626, 1614, 1601, 1589, 1577,
  1564, 1552, 1540, 1527, 1515, 1503, 1490, 1478, 1466, 1453, 1441, 1429, 1416, 1404, 1392, 1379, 1367, 1355, 1342, 1330, 1318,
  1305, 1293, 1281, 1268, 1256, 1243, 1231, 1219, 1206, 1194, 1182, 1169, 1157, 1144, 1132, 1120, 1107, 1095, 1082, 1070, 1058,
  1045, 1033, 1020, 1008, 996, 983, 971, 958, 946, 934, 921, 909, 896, 884, 872, 859, 847, 834, 822, 809, 797,
  785, 772, 760, 747, 735, 722, 710, 698, 685, 673, 660, 648, 635, 623, 610, 598, 586, 573, 561, 548, 536,
  523, 511, 498, 486, 474, 461, 449, 436, 424, 411, 399, 386, 374, 361, 349, 337, 324, 312, 299, 287, 274,
  262, 249, 237, 224, 212, 199, 187, 175, 162, 150, 137, 125, 112, 100, 87, 75, 62, 50, 37, 25, 12,
  0
  >>
Cos(u) ==
  LET v == u % Turn IN
    IF v <= 1260 THEN CosTab[v + 1]
    ELSE IF v <= 2520 THEN -CosTab[2521 - v]
    ELSE IF v <= 3780 THEN -CosTab[v - 2519]
    ELSE CosTab[5041 - v]
Sin(u) == Cos(u - 1260)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
=============================================================================
