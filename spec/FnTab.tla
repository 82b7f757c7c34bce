------------------------------- MODULE FnTab --------------------------------
(* Values of real functions at i/8, i = -64 .. 64, times 10000.              *)
EXTENDS Integers
SigTab == <<3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 12, 13, 15, 17, 19, 22, 25, 28, 32, 36, 41, 46, 52, 59, 67, 76, 86, 97, 110, 124, 141, 159, 180, 203, 230, 260, 293, 331, 373, 421, 474, 534, 601, 675, 759, 851, 953, 1067, 1192, 1330, 1480, 1645, 1824, 2018, 2227, 2451, 2689, 2942, 3208, 3486, 3775, 4073, 4378, 4688, 5000, 5312, 5622, 5927, 6225, 6514, 6792, 7058, 7311, 7549, 7773, 7982, 8176, 8355, 8520, 8670, 8808, 8933, 9047, 9149, 9241, 9325, 9399, 9466, 9526, 9579, 9627, 9669, 9707, 9740, 9770, 9797, 9820, 9841, 9859, 9876, 9890, 9903, 9914, 9924, 9933, 9941, 9948, 9954, 9959, 9964, 9968, 9972, 9975, 9978, 9981, 9983, 9985, 9987, 9988, 9990, 9991, 9992, 9993, 9994, 9994, 9995, 9996, 9996, 9997>>
TanhTab == <<-10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -10000, -9999, -9999, -9999, -9999, -9999, -9998, -9998, -9997, -9996, -9995, -9993, -9991, -9989, -9986, -9982, -9977, -9970, -9961, -9951, -9937, -9919, -9896, -9866, -9828, -9780, -9719, -9640, -9540, -9414, -9253, -9051, -8798, -8483, -8093, -7616, -7039, -6351, -5546, -4621, -3584, -2449, -1244, 0, 1244, 2449, 3584, 4621, 5546, 6351, 7039, 7616, 8093, 8483, 8798, 9051, 9253, 9414, 9540, 9640, 9719, 9780, 9828, 9866, 9896, 9919, 9937, 9951, 9961, 9970, 9977, 9982, 9986, 9989, 9991, 9993, 9995, 9996, 9997, 9998, 9998, 9999, 9999, 9999, 9999, 9999, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000>>
ExpTab == <<3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 12, 13, 15, 17, 19, 22, 25, 28, 32, 36, 41, 46, 52, 59, 67, 76, 87, 98, 111, 126, 143, 162, 183, 208, 235, 266, 302, 342, 388, 439, 498, 564, 639, 724, 821, 930, 1054, 1194, 1353, 1534, 1738, 1969, 2231, 2528, 2865, 3247, 3679, 4169, 4724, 5353, 6065, 6873, 7788, 8825, 10000, 11331, 12840, 14550, 16487, 18682, 21170, 23989, 27183, 30802, 34903, 39551, 44817, 50784, 57546, 65208, 73891, 83729, 94877, 107510, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825, 121825>>
=============================================================================
