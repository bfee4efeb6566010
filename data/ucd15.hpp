// generated by tools/gen_ucd.pl from Perl's Unicode 15.0.0
#pragma once
#include <cstdint>
namespace ucd {
inline constexpr uint32_t Uppercase[] = {65,91,192,215,216,223,256,257,258,259,260,261,262,263,264,265,266,267,268,269,270,271,272,273,274,275,276,277,278,279,280,281,282,283,284,285,286,287,288,289,290,291,292,293,294,295,296,297,298,299,300,301,302,303,304,305,306,307,308,309,310,311,313,314,315,316,317,318,319,320,321,322,323,324,325,326,327,328,330,331,332,333,334,335,336,337,338,339,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,358,359,360,361,362,363,364,365,366,367,368,369,370,371,372,373,374,375,376,378,379,380,381,382,385,387,388,389,390,392,393,396,398,402,403,405,406,409,412,414,415,417,418,419,420,421,422,424,425,426,428,429,430,432,433,436,437,438,439,441,444,445,452,453,455,456,458,459,461,462,463,464,465,466,467,468,469,470,471,472,473,474,475,476,478,479,480,481,482,483,484,485,486,487,488,489,490,491,492,493,494,495,497,498,500,501,502,505,506,507,508,509,510,511,512,513,514,515,516,517,518,519,520,521,522,523,524,525,526,527,528,529,530,531,532,533,534,535,536,537,538,539,540,541,542,543,544,545,546,547,548,549,550,551,552,553,554,555,556,557,558,559,560,561,562,563,570,572,573,575,577,578,579,583,584,585,586,587,588,589,590,591,880,881,882,883,886,887,895,896,902,903,904,907,908,909,910,912,913,930,931,940,975,976,978,981,984,985,986,987,988,989,990,991,992,993,994,995,996,997,998,999,1000,1001,1002,1003,1004,1005,1006,1007,1012,1013,1015,1016,1017,1019,1021,1072,1120,1121,1122,1123,1124,1125,1126,1127,1128,1129,1130,1131,1132,1133,1134,1135,1136,1137,1138,1139,1140,1141,1142,1143,1144,1145,1146,1147,1148,1149,1150,1151,1152,1153,1162,1163,1164,1165,1166,1167,1168,1169,1170,1171,1172,1173,1174,1175,1176,1177,1178,1179,1180,1181,1182,1183,1184,1185,1186,1187,1188,1189,1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,1202,1203,1204,1205,1206,1207,1208,1209,1210,1211,1212,1213,1214,1215,1216,1218,1219,1220,1221,1222,1223,1224,1225,1226,1227,1228,1229,1230,1232,1233,1234,1235,1236,1237,1238,1239,1240,1241,1242,1243,1244,1245,1246,1247,1248,1249,1250,1251,1252,1253,1254,1255,1256,1257,1258,1259,1260,1261,1262,1263,1264,1265,1266,1267,1268,1269,1270,1271,1272,1273,1274,1275,1276,1277,1278,1279,1280,1281,1282,1283,1284,1285,1286,1287,1288,1289,1290,1291,1292,1293,1294,1295,1296,1297,1298,1299,1300,1301,1302,1303,1304,1305,1306,1307,1308,1309,1310,1311,1312,1313,1314,1315,1316,1317,1318,1319,1320,1321,1322,1323,1324,1325,1326,1327,1329,1367,4256,4294,4295,4296,4301,4302,5024,5110,7312,7355,7357,7360,7680,7681,7682,7683,7684,7685,7686,7687,7688,7689,7690,7691,7692,7693,7694,7695,7696,7697,7698,7699,7700,7701,7702,7703,7704,7705,7706,7707,7708,7709,7710,7711,7712,7713,7714,7715,7716,7717,7718,7719,7720,7721,7722,7723,7724,7725,7726,7727,7728,7729,7730,7731,7732,7733,7734,7735,7736,7737,7738,7739,7740,7741,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7752,7753,7754,7755,7756,7757,7758,7759,7760,7761,7762,7763,7764,7765,7766,7767,7768,7769,7770,7771,7772,7773,7774,7775,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7790,7791,7792,7793,7794,7795,7796,7797,7798,7799,7800,7801,7802,7803,7804,7805,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7828,7829,7838,7839,7840,7841,7842,7843,7844,7845,7846,7847,7848,7849,7850,7851,7852,7853,7854,7855,7856,7857,7858,7859,7860,7861,7862,7863,7864,7865,7866,7867,7868,7869,7870,7871,7872,7873,7874,7875,7876,7877,7878,7879,7880,7881,7882,7883,7884,7885,7886,7887,7888,7889,7890,7891,7892,7893,7894,7895,7896,7897,7898,7899,7900,7901,7902,7903,7904,7905,7906,7907,7908,7909,7910,7911,7912,7913,7914,7915,7916,7917,7918,7919,7920,7921,7922,7923,7924,7925,7926,7927,7928,7929,7930,7931,7932,7933,7934,7935,7944,7952,7960,7966,7976,7984,7992,8000,8008,8014,8025,8026,8027,8028,8029,8030,8031,8032,8040,8048,8120,8124,8136,8140,8152,8156,8168,8173,8184,8188,8450,8451,8455,8456,8459,8462,8464,8467,8469,8470,8473,8478,8484,8485,8486,8487,8488,8489,8490,8494,8496,8500,8510,8512,8517,8518,8544,8560,8579,8580,9398,9424,11264,11312,11360,11361,11362,11365,11367,11368,11369,11370,11371,11372,11373,11377,11378,11379,11381,11382,11390,11393,11394,11395,11396,11397,11398,11399,11400,11401,11402,11403,11404,11405,11406,11407,11408,11409,11410,11411,11412,11413,11414,11415,11416,11417,11418,11419,11420,11421,11422,11423,11424,11425,11426,11427,11428,11429,11430,11431,11432,11433,11434,11435,11436,11437,11438,11439,11440,11441,11442,11443,11444,11445,11446,11447,11448,11449,11450,11451,11452,11453,11454,11455,11456,11457,11458,11459,11460,11461,11462,11463,11464,11465,11466,11467,11468,11469,11470,11471,11472,11473,11474,11475,11476,11477,11478,11479,11480,11481,11482,11483,11484,11485,11486,11487,11488,11489,11490,11491,11499,11500,11501,11502,11506,11507,42560,42561,42562,42563,42564,42565,42566,42567,42568,42569,42570,42571,42572,42573,42574,42575,42576,42577,42578,42579,42580,42581,42582,42583,42584,42585,42586,42587,42588,42589,42590,42591,42592,42593,42594,42595,42596,42597,42598,42599,42600,42601,42602,42603,42604,42605,42624,42625,42626,42627,42628,42629,42630,42631,42632,42633,42634,42635,42636,42637,42638,42639,42640,42641,42642,42643,42644,42645,42646,42647,42648,42649,42650,42651,42786,42787,42788,42789,42790,42791,42792,42793,42794,42795,42796,42797,42798,42799,42802,42803,42804,42805,42806,42807,42808,42809,42810,42811,42812,42813,42814,42815,42816,42817,42818,42819,42820,42821,42822,42823,42824,42825,42826,42827,42828,42829,42830,42831,42832,42833,42834,42835,42836,42837,42838,42839,42840,42841,42842,42843,42844,42845,42846,42847,42848,42849,42850,42851,42852,42853,42854,42855,42856,42857,42858,42859,42860,42861,42862,42863,42873,42874,42875,42876,42877,42879,42880,42881,42882,42883,42884,42885,42886,42887,42891,42892,42893,42894,42896,42897,42898,42899,42902,42903,42904,42905,42906,42907,42908,42909,42910,42911,42912,42913,42914,42915,42916,42917,42918,42919,42920,42921,42922,42927,42928,42933,42934,42935,42936,42937,42938,42939,42940,42941,42942,42943,42944,42945,42946,42947,42948,42952,42953,42954,42960,42961,42966,42967,42968,42969,42997,42998,65313,65339,66560,66600,66736,66772,66928,66939,66940,66955,66956,66963,66964,66966,68736,68787,71840,71872,93760,93792,119808,119834,119860,119886,119912,119938,119964,119965,119966,119968,119970,119971,119973,119975,119977,119981,119982,119990,120016,120042,120068,120070,120071,120075,120077,120085,120086,120093,120120,120122,120123,120127,120128,120133,120134,120135,120138,120145,120172,120198,120224,120250,120276,120302,120328,120354,120380,120406,120432,120458,120488,120513,120546,120571,120604,120629,120662,120687,120720,120745,120778,120779,125184,125218,127280,127306,127312,127338,127344,127370,0xFFFFFFFF};
inline constexpr uint32_t Lowercase[] = {97,123,170,171,181,182,186,187,223,247,248,256,257,258,259,260,261,262,263,264,265,266,267,268,269,270,271,272,273,274,275,276,277,278,279,280,281,282,283,284,285,286,287,288,289,290,291,292,293,294,295,296,297,298,299,300,301,302,303,304,305,306,307,308,309,310,311,313,314,315,316,317,318,319,320,321,322,323,324,325,326,327,328,330,331,332,333,334,335,336,337,338,339,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,358,359,360,361,362,363,364,365,366,367,368,369,370,371,372,373,374,375,376,378,379,380,381,382,385,387,388,389,390,392,393,396,398,402,403,405,406,409,412,414,415,417,418,419,420,421,422,424,425,426,428,429,430,432,433,436,437,438,439,441,443,445,448,454,455,457,458,460,461,462,463,464,465,466,467,468,469,470,471,472,473,474,475,476,478,479,480,481,482,483,484,485,486,487,488,489,490,491,492,493,494,495,497,499,500,501,502,505,506,507,508,509,510,511,512,513,514,515,516,517,518,519,520,521,522,523,524,525,526,527,528,529,530,531,532,533,534,535,536,537,538,539,540,541,542,543,544,545,546,547,548,549,550,551,552,553,554,555,556,557,558,559,560,561,562,563,570,572,573,575,577,578,579,583,584,585,586,587,588,589,590,591,660,661,697,704,706,736,741,837,838,881,882,883,884,887,888,890,894,912,913,940,975,976,978,981,984,985,986,987,988,989,990,991,992,993,994,995,996,997,998,999,1000,1001,1002,1003,1004,1005,1006,1007,1012,1013,1014,1016,1017,1019,1021,1072,1120,1121,1122,1123,1124,1125,1126,1127,1128,1129,1130,1131,1132,1133,1134,1135,1136,1137,1138,1139,1140,1141,1142,1143,1144,1145,1146,1147,1148,1149,1150,1151,1152,1153,1154,1163,1164,1165,1166,1167,1168,1169,1170,1171,1172,1173,1174,1175,1176,1177,1178,1179,1180,1181,1182,1183,1184,1185,1186,1187,1188,1189,1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,1202,1203,1204,1205,1206,1207,1208,1209,1210,1211,1212,1213,1214,1215,1216,1218,1219,1220,1221,1222,1223,1224,1225,1226,1227,1228,1229,1230,1232,1233,1234,1235,1236,1237,1238,1239,1240,1241,1242,1243,1244,1245,1246,1247,1248,1249,1250,1251,1252,1253,1254,1255,1256,1257,1258,1259,1260,1261,1262,1263,1264,1265,1266,1267,1268,1269,1270,1271,1272,1273,1274,1275,1276,1277,1278,1279,1280,1281,1282,1283,1284,1285,1286,1287,1288,1289,1290,1291,1292,1293,1294,1295,1296,1297,1298,1299,1300,1301,1302,1303,1304,1305,1306,1307,1308,1309,1310,1311,1312,1313,1314,1315,1316,1317,1318,1319,1320,1321,1322,1323,1324,1325,1326,1327,1328,1376,1417,4304,4347,4348,4352,5112,5118,7296,7305,7424,7616,7681,7682,7683,7684,7685,7686,7687,7688,7689,7690,7691,7692,7693,7694,7695,7696,7697,7698,7699,7700,7701,7702,7703,7704,7705,7706,7707,7708,7709,7710,7711,7712,7713,7714,7715,7716,7717,7718,7719,7720,7721,7722,7723,7724,7725,7726,7727,7728,7729,7730,7731,7732,7733,7734,7735,7736,7737,7738,7739,7740,7741,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7752,7753,7754,7755,7756,7757,7758,7759,7760,7761,7762,7763,7764,7765,7766,7767,7768,7769,7770,7771,7772,7773,7774,7775,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7790,7791,7792,7793,7794,7795,7796,7797,7798,7799,7800,7801,7802,7803,7804,7805,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7828,7829,7838,7839,7840,7841,7842,7843,7844,7845,7846,7847,7848,7849,7850,7851,7852,7853,7854,7855,7856,7857,7858,7859,7860,7861,7862,7863,7864,7865,7866,7867,7868,7869,7870,7871,7872,7873,7874,7875,7876,7877,7878,7879,7880,7881,7882,7883,7884,7885,7886,7887,7888,7889,7890,7891,7892,7893,7894,7895,7896,7897,7898,7899,7900,7901,7902,7903,7904,7905,7906,7907,7908,7909,7910,7911,7912,7913,7914,7915,7916,7917,7918,7919,7920,7921,7922,7923,7924,7925,7926,7927,7928,7929,7930,7931,7932,7933,7934,7935,7944,7952,7958,7968,7976,7984,7992,8000,8006,8016,8024,8032,8040,8048,8062,8064,8072,8080,8088,8096,8104,8112,8117,8118,8120,8126,8127,8130,8133,8134,8136,8144,8148,8150,8152,8160,8168,8178,8181,8182,8184,8305,8306,8319,8320,8336,8349,8458,8459,8462,8464,8467,8468,8495,8496,8500,8501,8505,8506,8508,8510,8518,8522,8526,8527,8560,8576,8580,8581,9424,9450,11312,11360,11361,11362,11365,11367,11368,11369,11370,11371,11372,11373,11377,11378,11379,11381,11382,11390,11393,11394,11395,11396,11397,11398,11399,11400,11401,11402,11403,11404,11405,11406,11407,11408,11409,11410,11411,11412,11413,11414,11415,11416,11417,11418,11419,11420,11421,11422,11423,11424,11425,11426,11427,11428,11429,11430,11431,11432,11433,11434,11435,11436,11437,11438,11439,11440,11441,11442,11443,11444,11445,11446,11447,11448,11449,11450,11451,11452,11453,11454,11455,11456,11457,11458,11459,11460,11461,11462,11463,11464,11465,11466,11467,11468,11469,11470,11471,11472,11473,11474,11475,11476,11477,11478,11479,11480,11481,11482,11483,11484,11485,11486,11487,11488,11489,11490,11491,11493,11500,11501,11502,11503,11507,11508,11520,11558,11559,11560,11565,11566,42561,42562,42563,42564,42565,42566,42567,42568,42569,42570,42571,42572,42573,42574,42575,42576,42577,42578,42579,42580,42581,42582,42583,42584,42585,42586,42587,42588,42589,42590,42591,42592,42593,42594,42595,42596,42597,42598,42599,42600,42601,42602,42603,42604,42605,42606,42625,42626,42627,42628,42629,42630,42631,42632,42633,42634,42635,42636,42637,42638,42639,42640,42641,42642,42643,42644,42645,42646,42647,42648,42649,42650,42651,42654,42787,42788,42789,42790,42791,42792,42793,42794,42795,42796,42797,42798,42799,42802,42803,42804,42805,42806,42807,42808,42809,42810,42811,42812,42813,42814,42815,42816,42817,42818,42819,42820,42821,42822,42823,42824,42825,42826,42827,42828,42829,42830,42831,42832,42833,42834,42835,42836,42837,42838,42839,42840,42841,42842,42843,42844,42845,42846,42847,42848,42849,42850,42851,42852,42853,42854,42855,42856,42857,42858,42859,42860,42861,42862,42863,42873,42874,42875,42876,42877,42879,42880,42881,42882,42883,42884,42885,42886,42887,42888,42892,42893,42894,42895,42897,42898,42899,42902,42903,42904,42905,42906,42907,42908,42909,42910,42911,42912,42913,42914,42915,42916,42917,42918,42919,42920,42921,42922,42927,42928,42933,42934,42935,42936,42937,42938,42939,42940,42941,42942,42943,42944,42945,42946,42947,42948,42952,42953,42954,42955,42961,42962,42963,42964,42965,42966,42967,42968,42969,42970,42994,42997,42998,42999,43000,43003,43824,43867,43868,43882,43888,43968,64256,64263,64275,64280,65345,65371,66600,66640,66776,66812,66967,66978,66979,66994,66995,67002,67003,67005,67456,67457,67459,67462,67463,67505,67506,67515,68800,68851,71872,71904,93792,93824,119834,119860,119886,119893,119894,119912,119938,119964,119990,119994,119995,119996,119997,120004,120005,120016,120042,120068,120094,120120,120146,120172,120198,120224,120250,120276,120302,120328,120354,120380,120406,120432,120458,120486,120514,120539,120540,120546,120572,120597,120598,120604,120630,120655,120656,120662,120688,120713,120714,120720,120746,120771,120772,120778,120779,120780,122624,122634,122635,122655,122661,122667,122928,122990,125218,125252,0xFFFFFFFF};
inline constexpr uint32_t Alphabetic[] = {65,91,97,123,170,171,181,182,186,187,192,215,216,247,248,706,710,722,736,741,748,749,750,751,837,838,880,885,886,888,890,894,895,896,902,903,904,907,908,909,910,930,931,1014,1015,1154,1162,1328,1329,1367,1369,1370,1376,1417,1456,1470,1471,1472,1473,1475,1476,1478,1479,1480,1488,1515,1519,1523,1552,1563,1568,1624,1625,1632,1646,1748,1749,1757,1761,1769,1773,1776,1786,1789,1791,1792,1808,1856,1869,1970,1994,2027,2036,2038,2042,2043,2048,2072,2074,2093,2112,2137,2144,2155,2160,2184,2185,2191,2208,2250,2260,2272,2275,2282,2288,2364,2365,2381,2382,2385,2389,2404,2417,2436,2437,2445,2447,2449,2451,2473,2474,2481,2482,2483,2486,2490,2493,2501,2503,2505,2507,2509,2510,2511,2519,2520,2524,2526,2527,2532,2544,2546,2556,2557,2561,2564,2565,2571,2575,2577,2579,2601,2602,2609,2610,2612,2613,2615,2616,2618,2622,2627,2631,2633,2635,2637,2641,2642,2649,2653,2654,2655,2672,2678,2689,2692,2693,2702,2703,2706,2707,2729,2730,2737,2738,2740,2741,2746,2749,2758,2759,2762,2763,2765,2768,2769,2784,2788,2809,2813,2817,2820,2821,2829,2831,2833,2835,2857,2858,2865,2866,2868,2869,2874,2877,2885,2887,2889,2891,2893,2902,2904,2908,2910,2911,2916,2929,2930,2946,2948,2949,2955,2958,2961,2962,2966,2969,2971,2972,2973,2974,2976,2979,2981,2984,2987,2990,3002,3006,3011,3014,3017,3018,3021,3024,3025,3031,3032,3072,3085,3086,3089,3090,3113,3114,3130,3133,3141,3142,3145,3146,3149,3157,3159,3160,3163,3165,3166,3168,3172,3200,3204,3205,3213,3214,3217,3218,3241,3242,3252,3253,3258,3261,3269,3270,3273,3274,3277,3285,3287,3293,3295,3296,3300,3313,3316,3328,3341,3342,3345,3346,3387,3389,3397,3398,3401,3402,3405,3406,3407,3412,3416,3423,3428,3450,3456,3457,3460,3461,3479,3482,3506,3507,3516,3517,3518,3520,3527,3535,3541,3542,3543,3544,3552,3570,3572,3585,3643,3648,3655,3661,3662,3713,3715,3716,3717,3718,3723,3724,3748,3749,3750,3751,3770,3771,3774,3776,3781,3782,3783,3789,3790,3804,3808,3840,3841,3904,3912,3913,3949,3953,3972,3976,3992,3993,4029,4096,4151,4152,4153,4155,4160,4176,4240,4250,4254,4256,4294,4295,4296,4301,4302,4304,4347,4348,4681,4682,4686,4688,4695,4696,4697,4698,4702,4704,4745,4746,4750,4752,4785,4786,4790,4792,4799,4800,4801,4802,4806,4808,4823,4824,4881,4882,4886,4888,4955,4992,5008,5024,5110,5112,5118,5121,5741,5743,5760,5761,5787,5792,5867,5870,5881,5888,5908,5919,5940,5952,5972,5984,5997,5998,6001,6002,6004,6016,6068,6070,6089,6103,6104,6108,6109,6176,6265,6272,6315,6320,6390,6400,6431,6432,6444,6448,6457,6480,6510,6512,6517,6528,6572,6576,6602,6656,6684,6688,6751,6753,6773,6823,6824,6847,6849,6860,6863,6912,6964,6965,6980,6981,6989,7040,7082,7084,7088,7098,7142,7143,7154,7168,7223,7245,7248,7258,7294,7296,7305,7312,7355,7357,7360,7401,7405,7406,7412,7413,7415,7418,7419,7424,7616,7655,7669,7680,7958,7960,7966,7968,8006,8008,8014,8016,8024,8025,8026,8027,8028,8029,8030,8031,8062,8064,8117,8118,8125,8126,8127,8130,8133,8134,8141,8144,8148,8150,8156,8160,8173,8178,8181,8182,8189,8305,8306,8319,8320,8336,8349,8450,8451,8455,8456,8458,8468,8469,8470,8473,8478,8484,8485,8486,8487,8488,8489,8490,8494,8495,8506,8508,8512,8517,8522,8526,8527,8544,8585,9398,9450,11264,11493,11499,11503,11506,11508,11520,11558,11559,11560,11565,11566,11568,11624,11631,11632,11648,11671,11680,11687,11688,11695,11696,11703,11704,11711,11712,11719,11720,11727,11728,11735,11736,11743,11744,11776,11823,11824,12293,12296,12321,12330,12337,12342,12344,12349,12353,12439,12445,12448,12449,12539,12540,12544,12549,12592,12593,12687,12704,12736,12784,12800,13312,19904,19968,42125,42192,42238,42240,42509,42512,42528,42538,42540,42560,42607,42612,42620,42623,42736,42775,42784,42786,42889,42891,42955,42960,42962,42963,42964,42965,42970,42994,43014,43015,43048,43072,43124,43136,43204,43205,43206,43250,43256,43259,43260,43261,43264,43274,43307,43312,43347,43360,43389,43392,43443,43444,43456,43471,43472,43488,43504,43514,43519,43520,43575,43584,43598,43616,43639,43642,43711,43712,43713,43714,43715,43739,43742,43744,43760,43762,43766,43777,43783,43785,43791,43793,43799,43808,43815,43816,43823,43824,43867,43868,43882,43888,44011,44032,55204,55216,55239,55243,55292,63744,64110,64112,64218,64256,64263,64275,64280,64285,64297,64298,64311,64312,64317,64318,64319,64320,64322,64323,64325,64326,64434,64467,64830,64848,64912,64914,64968,65008,65020,65136,65141,65142,65277,65313,65339,65345,65371,65382,65471,65474,65480,65482,65488,65490,65496,65498,65501,65536,65548,65549,65575,65576,65595,65596,65598,65599,65614,65616,65630,65664,65787,65856,65909,66176,66205,66208,66257,66304,66336,66349,66379,66384,66427,66432,66462,66464,66500,66504,66512,66513,66518,66560,66718,66736,66772,66776,66812,66816,66856,66864,66916,66928,66939,66940,66955,66956,66963,66964,66966,66967,66978,66979,66994,66995,67002,67003,67005,67072,67383,67392,67414,67424,67432,67456,67462,67463,67505,67506,67515,67584,67590,67592,67593,67594,67638,67639,67641,67644,67645,67647,67670,67680,67703,67712,67743,67808,67827,67828,67830,67840,67862,67872,67898,67968,68024,68030,68032,68096,68100,68101,68103,68108,68116,68117,68120,68121,68150,68192,68221,68224,68253,68288,68296,68297,68325,68352,68406,68416,68438,68448,68467,68480,68498,68608,68681,68736,68787,68800,68851,68864,68904,69248,69290,69291,69293,69296,69298,69376,69405,69415,69416,69424,69446,69488,69506,69552,69573,69600,69623,69632,69702,69745,69750,69760,69817,69826,69827,69840,69865,69888,69939,69956,69960,69968,70003,70006,70007,70016,70080,70081,70085,70094,70096,70106,70107,70108,70109,70144,70162,70163,70197,70199,70200,70206,70210,70272,70279,70280,70281,70282,70286,70287,70302,70303,70313,70320,70377,70400,70404,70405,70413,70415,70417,70419,70441,70442,70449,70450,70452,70453,70458,70461,70469,70471,70473,70475,70477,70480,70481,70487,70488,70493,70500,70656,70722,70723,70726,70727,70731,70751,70754,70784,70850,70852,70854,70855,70856,71040,71094,71096,71103,71128,71134,71168,71231,71232,71233,71236,71237,71296,71350,71352,71353,71424,71451,71453,71467,71488,71495,71680,71737,71840,71904,71935,71943,71945,71946,71948,71956,71957,71959,71960,71990,71991,71993,71995,71997,71999,72003,72096,72104,72106,72152,72154,72160,72161,72162,72163,72165,72192,72243,72245,72255,72272,72344,72349,72350,72368,72441,72704,72713,72714,72759,72760,72767,72768,72769,72818,72848,72850,72872,72873,72887,72960,72967,72968,72970,72971,73015,73018,73019,73020,73022,73023,73026,73027,73028,73030,73032,73056,73062,73063,73065,73066,73103,73104,73106,73107,73111,73112,73113,73440,73463,73472,73489,73490,73531,73534,73537,73648,73649,73728,74650,74752,74863,74880,75076,77712,77809,77824,78896,78913,78919,82944,83527,92160,92729,92736,92767,92784,92863,92880,92910,92928,92976,92992,92996,93027,93048,93053,93072,93760,93824,93952,94027,94031,94088,94095,94112,94176,94178,94179,94180,94192,94194,94208,100344,100352,101590,101632,101641,110576,110580,110581,110588,110589,110591,110592,110883,110898,110899,110928,110931,110933,110934,110948,110952,110960,111356,113664,113771,113776,113789,113792,113801,113808,113818,113822,113823,119808,119893,119894,119965,119966,119968,119970,119971,119973,119975,119977,119981,119982,119994,119995,119996,119997,120004,120005,120070,120071,120075,120077,120085,120086,120093,120094,120122,120123,120127,120128,120133,120134,120135,120138,120145,120146,120486,120488,120513,120514,120539,120540,120571,120572,120597,120598,120629,120630,120655,120656,120687,120688,120713,120714,120745,120746,120771,120772,120780,122624,122655,122661,122667,122880,122887,122888,122905,122907,122914,122915,122917,122918,122923,122928,122990,123023,123024,123136,123181,123191,123198,123214,123215,123536,123566,123584,123628,124112,124140,124896,124903,124904,124908,124909,124911,124912,124927,124928,125125,125184,125252,125255,125256,125259,125260,126464,126468,126469,126496,126497,126499,126500,126501,126503,126504,126505,126515,126516,126520,126521,126522,126523,126524,126530,126531,126535,126536,126537,126538,126539,126540,126541,126544,126545,126547,126548,126549,126551,126552,126553,126554,126555,126556,126557,126558,126559,126560,126561,126563,126564,126565,126567,126571,126572,126579,126580,126584,126585,126589,126590,126591,126592,126602,126603,126620,126625,126628,126629,126634,126635,126652,127280,127306,127312,127338,127344,127370,131072,173792,173824,177978,177984,178206,178208,183970,183984,191457,194560,195102,196608,201547,201552,205744,0xFFFFFFFF};
inline constexpr uint32_t White_Space[] = {9,14,32,33,133,134,160,161,5760,5761,8192,8203,8232,8234,8239,8240,8287,8288,12288,12289,0xFFFFFFFF};
inline constexpr uint32_t XID_Start[] = {65,91,97,123,170,171,181,182,186,187,192,215,216,247,248,706,710,722,736,741,748,749,750,751,880,885,886,888,891,894,895,896,902,903,904,907,908,909,910,930,931,1014,1015,1154,1162,1328,1329,1367,1369,1370,1376,1417,1488,1515,1519,1523,1568,1611,1646,1648,1649,1748,1749,1750,1765,1767,1774,1776,1786,1789,1791,1792,1808,1809,1810,1840,1869,1958,1969,1970,1994,2027,2036,2038,2042,2043,2048,2070,2074,2075,2084,2085,2088,2089,2112,2137,2144,2155,2160,2184,2185,2191,2208,2250,2308,2362,2365,2366,2384,2385,2392,2402,2417,2433,2437,2445,2447,2449,2451,2473,2474,2481,2482,2483,2486,2490,2493,2494,2510,2511,2524,2526,2527,2530,2544,2546,2556,2557,2565,2571,2575,2577,2579,2601,2602,2609,2610,2612,2613,2615,2616,2618,2649,2653,2654,2655,2674,2677,2693,2702,2703,2706,2707,2729,2730,2737,2738,2740,2741,2746,2749,2750,2768,2769,2784,2786,2809,2810,2821,2829,2831,2833,2835,2857,2858,2865,2866,2868,2869,2874,2877,2878,2908,2910,2911,2914,2929,2930,2947,2948,2949,2955,2958,2961,2962,2966,2969,2971,2972,2973,2974,2976,2979,2981,2984,2987,2990,3002,3024,3025,3077,3085,3086,3089,3090,3113,3114,3130,3133,3134,3160,3163,3165,3166,3168,3170,3200,3201,3205,3213,3214,3217,3218,3241,3242,3252,3253,3258,3261,3262,3293,3295,3296,3298,3313,3315,3332,3341,3342,3345,3346,3387,3389,3390,3406,3407,3412,3415,3423,3426,3450,3456,3461,3479,3482,3506,3507,3516,3517,3518,3520,3527,3585,3633,3634,3635,3648,3655,3713,3715,3716,3717,3718,3723,3724,3748,3749,3750,3751,3761,3762,3763,3773,3774,3776,3781,3782,3783,3804,3808,3840,3841,3904,3912,3913,3949,3976,3981,4096,4139,4159,4160,4176,4182,4186,4190,4193,4194,4197,4199,4206,4209,4213,4226,4238,4239,4256,4294,4295,4296,4301,4302,4304,4347,4348,4681,4682,4686,4688,4695,4696,4697,4698,4702,4704,4745,4746,4750,4752,4785,4786,4790,4792,4799,4800,4801,4802,4806,4808,4823,4824,4881,4882,4886,4888,4955,4992,5008,5024,5110,5112,5118,5121,5741,5743,5760,5761,5787,5792,5867,5870,5881,5888,5906,5919,5938,5952,5970,5984,5997,5998,6001,6016,6068,6103,6104,6108,6109,6176,6265,6272,6313,6314,6315,6320,6390,6400,6431,6480,6510,6512,6517,6528,6572,6576,6602,6656,6679,6688,6741,6823,6824,6917,6964,6981,6989,7043,7073,7086,7088,7098,7142,7168,7204,7245,7248,7258,7294,7296,7305,7312,7355,7357,7360,7401,7405,7406,7412,7413,7415,7418,7419,7424,7616,7680,7958,7960,7966,7968,8006,8008,8014,8016,8024,8025,8026,8027,8028,8029,8030,8031,8062,8064,8117,8118,8125,8126,8127,8130,8133,8134,8141,8144,8148,8150,8156,8160,8173,8178,8181,8182,8189,8305,8306,8319,8320,8336,8349,8450,8451,8455,8456,8458,8468,8469,8470,8472,8478,8484,8485,8486,8487,8488,8489,8490,8506,8508,8512,8517,8522,8526,8527,8544,8585,11264,11493,11499,11503,11506,11508,11520,11558,11559,11560,11565,11566,11568,11624,11631,11632,11648,11671,11680,11687,11688,11695,11696,11703,11704,11711,11712,11719,11720,11727,11728,11735,11736,11743,12293,12296,12321,12330,12337,12342,12344,12349,12353,12439,12445,12448,12449,12539,12540,12544,12549,12592,12593,12687,12704,12736,12784,12800,13312,19904,19968,42125,42192,42238,42240,42509,42512,42528,42538,42540,42560,42607,42623,42654,42656,42736,42775,42784,42786,42889,42891,42955,42960,42962,42963,42964,42965,42970,42994,43010,43011,43014,43015,43019,43020,43043,43072,43124,43138,43188,43250,43256,43259,43260,43261,43263,43274,43302,43312,43335,43360,43389,43396,43443,43471,43472,43488,43493,43494,43504,43514,43519,43520,43561,43584,43587,43588,43596,43616,43639,43642,43643,43646,43696,43697,43698,43701,43703,43705,43710,43712,43713,43714,43715,43739,43742,43744,43755,43762,43765,43777,43783,43785,43791,43793,43799,43808,43815,43816,43823,43824,43867,43868,43882,43888,44003,44032,55204,55216,55239,55243,55292,63744,64110,64112,64218,64256,64263,64275,64280,64285,64286,64287,64297,64298,64311,64312,64317,64318,64319,64320,64322,64323,64325,64326,64434,64467,64606,64612,64830,64848,64912,64914,64968,65008,65018,65137,65138,65139,65140,65143,65144,65145,65146,65147,65148,65149,65150,65151,65277,65313,65339,65345,65371,65382,65438,65440,65471,65474,65480,65482,65488,65490,65496,65498,65501,65536,65548,65549,65575,65576,65595,65596,65598,65599,65614,65616,65630,65664,65787,65856,65909,66176,66205,66208,66257,66304,66336,66349,66379,66384,66422,66432,66462,66464,66500,66504,66512,66513,66518,66560,66718,66736,66772,66776,66812,66816,66856,66864,66916,66928,66939,66940,66955,66956,66963,66964,66966,66967,66978,66979,66994,66995,67002,67003,67005,67072,67383,67392,67414,67424,67432,67456,67462,67463,67505,67506,67515,67584,67590,67592,67593,67594,67638,67639,67641,67644,67645,67647,67670,67680,67703,67712,67743,67808,67827,67828,67830,67840,67862,67872,67898,67968,68024,68030,68032,68096,68097,68112,68116,68117,68120,68121,68150,68192,68221,68224,68253,68288,68296,68297,68325,68352,68406,68416,68438,68448,68467,68480,68498,68608,68681,68736,68787,68800,68851,68864,68900,69248,69290,69296,69298,69376,69405,69415,69416,69424,69446,69488,69506,69552,69573,69600,69623,69635,69688,69745,69747,69749,69750,69763,69808,69840,69865,69891,69927,69956,69957,69959,69960,69968,70003,70006,70007,70019,70067,70081,70085,70106,70107,70108,70109,70144,70162,70163,70188,70207,70209,70272,70279,70280,70281,70282,70286,70287,70302,70303,70313,70320,70367,70405,70413,70415,70417,70419,70441,70442,70449,70450,70452,70453,70458,70461,70462,70480,70481,70493,70498,70656,70709,70727,70731,70751,70754,70784,70832,70852,70854,70855,70856,71040,71087,71128,71132,71168,71216,71236,71237,71296,71339,71352,71353,71424,71451,71488,71495,71680,71724,71840,71904,71935,71943,71945,71946,71948,71956,71957,71959,71960,71984,71999,72000,72001,72002,72096,72104,72106,72145,72161,72162,72163,72164,72192,72193,72203,72243,72250,72251,72272,72273,72284,72330,72349,72350,72368,72441,72704,72713,72714,72751,72768,72769,72818,72848,72960,72967,72968,72970,72971,73009,73030,73031,73056,73062,73063,73065,73066,73098,73112,73113,73440,73459,73474,73475,73476,73489,73490,73524,73648,73649,73728,74650,74752,74863,74880,75076,77712,77809,77824,78896,78913,78919,82944,83527,92160,92729,92736,92767,92784,92863,92880,92910,92928,92976,92992,92996,93027,93048,93053,93072,93760,93824,93952,94027,94032,94033,94099,94112,94176,94178,94179,94180,94208,100344,100352,101590,101632,101641,110576,110580,110581,110588,110589,110591,110592,110883,110898,110899,110928,110931,110933,110934,110948,110952,110960,111356,113664,113771,113776,113789,113792,113801,113808,113818,119808,119893,119894,119965,119966,119968,119970,119971,119973,119975,119977,119981,119982,119994,119995,119996,119997,120004,120005,120070,120071,120075,120077,120085,120086,120093,120094,120122,120123,120127,120128,120133,120134,120135,120138,120145,120146,120486,120488,120513,120514,120539,120540,120571,120572,120597,120598,120629,120630,120655,120656,120687,120688,120713,120714,120745,120746,120771,120772,120780,122624,122655,122661,122667,122928,122990,123136,123181,123191,123198,123214,123215,123536,123566,123584,123628,124112,124140,124896,124903,124904,124908,124909,124911,124912,124927,124928,125125,125184,125252,125259,125260,126464,126468,126469,126496,126497,126499,126500,126501,126503,126504,126505,126515,126516,126520,126521,126522,126523,126524,126530,126531,126535,126536,126537,126538,126539,126540,126541,126544,126545,126547,126548,126549,126551,126552,126553,126554,126555,126556,126557,126558,126559,126560,126561,126563,126564,126565,126567,126571,126572,126579,126580,126584,126585,126589,126590,126591,126592,126602,126603,126620,126625,126628,126629,126634,126635,126652,131072,173792,173824,177978,177984,178206,178208,183970,183984,191457,194560,195102,196608,201547,201552,205744,0xFFFFFFFF};
inline constexpr uint32_t XID_Continue[] = {48,58,65,91,95,96,97,123,170,171,181,182,183,184,186,187,192,215,216,247,248,706,710,722,736,741,748,749,750,751,768,885,886,888,891,894,895,896,902,907,908,909,910,930,931,1014,1015,1154,1155,1160,1162,1328,1329,1367,1369,1370,1376,1417,1425,1470,1471,1472,1473,1475,1476,1478,1479,1480,1488,1515,1519,1523,1552,1563,1568,1642,1646,1748,1749,1757,1759,1769,1770,1789,1791,1792,1808,1867,1869,1970,1984,2038,2042,2043,2045,2046,2048,2094,2112,2140,2144,2155,2160,2184,2185,2191,2200,2274,2275,2404,2406,2416,2417,2436,2437,2445,2447,2449,2451,2473,2474,2481,2482,2483,2486,2490,2492,2501,2503,2505,2507,2511,2519,2520,2524,2526,2527,2532,2534,2546,2556,2557,2558,2559,2561,2564,2565,2571,2575,2577,2579,2601,2602,2609,2610,2612,2613,2615,2616,2618,2620,2621,2622,2627,2631,2633,2635,2638,2641,2642,2649,2653,2654,2655,2662,2678,2689,2692,2693,2702,2703,2706,2707,2729,2730,2737,2738,2740,2741,2746,2748,2758,2759,2762,2763,2766,2768,2769,2784,2788,2790,2800,2809,2816,2817,2820,2821,2829,2831,2833,2835,2857,2858,2865,2866,2868,2869,2874,2876,2885,2887,2889,2891,2894,2901,2904,2908,2910,2911,2916,2918,2928,2929,2930,2946,2948,2949,2955,2958,2961,2962,2966,2969,2971,2972,2973,2974,2976,2979,2981,2984,2987,2990,3002,3006,3011,3014,3017,3018,3022,3024,3025,3031,3032,3046,3056,3072,3085,3086,3089,3090,3113,3114,3130,3132,3141,3142,3145,3146,3150,3157,3159,3160,3163,3165,3166,3168,3172,3174,3184,3200,3204,3205,3213,3214,3217,3218,3241,3242,3252,3253,3258,3260,3269,3270,3273,3274,3278,3285,3287,3293,3295,3296,3300,3302,3312,3313,3316,3328,3341,3342,3345,3346,3397,3398,3401,3402,3407,3412,3416,3423,3428,3430,3440,3450,3456,3457,3460,3461,3479,3482,3506,3507,3516,3517,3518,3520,3527,3530,3531,3535,3541,3542,3543,3544,3552,3558,3568,3570,3572,3585,3643,3648,3663,3664,3674,3713,3715,3716,3717,3718,3723,3724,3748,3749,3750,3751,3774,3776,3781,3782,3783,3784,3791,3792,3802,3804,3808,3840,3841,3864,3866,3872,3882,3893,3894,3895,3896,3897,3898,3902,3912,3913,3949,3953,3973,3974,3992,3993,4029,4038,4039,4096,4170,4176,4254,4256,4294,4295,4296,4301,4302,4304,4347,4348,4681,4682,4686,4688,4695,4696,4697,4698,4702,4704,4745,4746,4750,4752,4785,4786,4790,4792,4799,4800,4801,4802,4806,4808,4823,4824,4881,4882,4886,4888,4955,4957,4960,4969,4978,4992,5008,5024,5110,5112,5118,5121,5741,5743,5760,5761,5787,5792,5867,5870,5881,5888,5910,5919,5941,5952,5972,5984,5997,5998,6001,6002,6004,6016,6100,6103,6104,6108,6110,6112,6122,6155,6158,6159,6170,6176,6265,6272,6315,6320,6390,6400,6431,6432,6444,6448,6460,6470,6510,6512,6517,6528,6572,6576,6602,6608,6619,6656,6684,6688,6751,6752,6781,6783,6794,6800,6810,6823,6824,6832,6846,6847,6863,6912,6989,6992,7002,7019,7028,7040,7156,7168,7224,7232,7242,7245,7294,7296,7305,7312,7355,7357,7360,7376,7379,7380,7419,7424,7958,7960,7966,7968,8006,8008,8014,8016,8024,8025,8026,8027,8028,8029,8030,8031,8062,8064,8117,8118,8125,8126,8127,8130,8133,8134,8141,8144,8148,8150,8156,8160,8173,8178,8181,8182,8189,8255,8257,8276,8277,8305,8306,8319,8320,8336,8349,8400,8413,8417,8418,8421,8433,8450,8451,8455,8456,8458,8468,8469,8470,8472,8478,8484,8485,8486,8487,8488,8489,8490,8506,8508,8512,8517,8522,8526,8527,8544,8585,11264,11493,11499,11508,11520,11558,11559,11560,11565,11566,11568,11624,11631,11632,11647,11671,11680,11687,11688,11695,11696,11703,11704,11711,11712,11719,11720,11727,11728,11735,11736,11743,11744,11776,12293,12296,12321,12336,12337,12342,12344,12349,12353,12439,12441,12443,12445,12448,12449,12539,12540,12544,12549,12592,12593,12687,12704,12736,12784,12800,13312,19904,19968,42125,42192,42238,42240,42509,42512,42540,42560,42608,42612,42622,42623,42738,42775,42784,42786,42889,42891,42955,42960,42962,42963,42964,42965,42970,42994,43048,43052,43053,43072,43124,43136,43206,43216,43226,43232,43256,43259,43260,43261,43310,43312,43348,43360,43389,43392,43457,43471,43482,43488,43519,43520,43575,43584,43598,43600,43610,43616,43639,43642,43715,43739,43742,43744,43760,43762,43767,43777,43783,43785,43791,43793,43799,43808,43815,43816,43823,43824,43867,43868,43882,43888,44011,44012,44014,44016,44026,44032,55204,55216,55239,55243,55292,63744,64110,64112,64218,64256,64263,64275,64280,64285,64297,64298,64311,64312,64317,64318,64319,64320,64322,64323,64325,64326,64434,64467,64606,64612,64830,64848,64912,64914,64968,65008,65018,65024,65040,65056,65072,65075,65077,65101,65104,65137,65138,65139,65140,65143,65144,65145,65146,65147,65148,65149,65150,65151,65277,65296,65306,65313,65339,65343,65344,65345,65371,65382,65471,65474,65480,65482,65488,65490,65496,65498,65501,65536,65548,65549,65575,65576,65595,65596,65598,65599,65614,65616,65630,65664,65787,65856,65909,66045,66046,66176,66205,66208,66257,66272,66273,66304,66336,66349,66379,66384,66427,66432,66462,66464,66500,66504,66512,66513,66518,66560,66718,66720,66730,66736,66772,66776,66812,66816,66856,66864,66916,66928,66939,66940,66955,66956,66963,66964,66966,66967,66978,66979,66994,66995,67002,67003,67005,67072,67383,67392,67414,67424,67432,67456,67462,67463,67505,67506,67515,67584,67590,67592,67593,67594,67638,67639,67641,67644,67645,67647,67670,67680,67703,67712,67743,67808,67827,67828,67830,67840,67862,67872,67898,67968,68024,68030,68032,68096,68100,68101,68103,68108,68116,68117,68120,68121,68150,68152,68155,68159,68160,68192,68221,68224,68253,68288,68296,68297,68327,68352,68406,68416,68438,68448,68467,68480,68498,68608,68681,68736,68787,68800,68851,68864,68904,68912,68922,69248,69290,69291,69293,69296,69298,69373,69405,69415,69416,69424,69457,69488,69510,69552,69573,69600,69623,69632,69703,69734,69750,69759,69819,69826,69827,69840,69865,69872,69882,69888,69941,69942,69952,69956,69960,69968,70004,70006,70007,70016,70085,70089,70093,70094,70107,70108,70109,70144,70162,70163,70200,70206,70210,70272,70279,70280,70281,70282,70286,70287,70302,70303,70313,70320,70379,70384,70394,70400,70404,70405,70413,70415,70417,70419,70441,70442,70449,70450,70452,70453,70458,70459,70469,70471,70473,70475,70478,70480,70481,70487,70488,70493,70500,70502,70509,70512,70517,70656,70731,70736,70746,70750,70754,70784,70854,70855,70856,70864,70874,71040,71094,71096,71105,71128,71134,71168,71233,71236,71237,71248,71258,71296,71353,71360,71370,71424,71451,71453,71468,71472,71482,71488,71495,71680,71739,71840,71914,71935,71943,71945,71946,71948,71956,71957,71959,71960,71990,71991,71993,71995,72004,72016,72026,72096,72104,72106,72152,72154,72162,72163,72165,72192,72255,72263,72264,72272,72346,72349,72350,72368,72441,72704,72713,72714,72759,72760,72769,72784,72794,72818,72848,72850,72872,72873,72887,72960,72967,72968,72970,72971,73015,73018,73019,73020,73022,73023,73032,73040,73050,73056,73062,73063,73065,73066,73103,73104,73106,73107,73113,73120,73130,73440,73463,73472,73489,73490,73531,73534,73539,73552,73562,73648,73649,73728,74650,74752,74863,74880,75076,77712,77809,77824,78896,78912,78934,82944,83527,92160,92729,92736,92767,92768,92778,92784,92863,92864,92874,92880,92910,92912,92917,92928,92983,92992,92996,93008,93018,93027,93048,93053,93072,93760,93824,93952,94027,94031,94088,94095,94112,94176,94178,94179,94181,94192,94194,94208,100344,100352,101590,101632,101641,110576,110580,110581,110588,110589,110591,110592,110883,110898,110899,110928,110931,110933,110934,110948,110952,110960,111356,113664,113771,113776,113789,113792,113801,113808,113818,113821,113823,118528,118574,118576,118599,119141,119146,119149,119155,119163,119171,119173,119180,119210,119214,119362,119365,119808,119893,119894,119965,119966,119968,119970,119971,119973,119975,119977,119981,119982,119994,119995,119996,119997,120004,120005,120070,120071,120075,120077,120085,120086,120093,120094,120122,120123,120127,120128,120133,120134,120135,120138,120145,120146,120486,120488,120513,120514,120539,120540,120571,120572,120597,120598,120629,120630,120655,120656,120687,120688,120713,120714,120745,120746,120771,120772,120780,120782,120832,121344,121399,121403,121453,121461,121462,121476,121477,121499,121504,121505,121520,122624,122655,122661,122667,122880,122887,122888,122905,122907,122914,122915,122917,122918,122923,122928,122990,123023,123024,123136,123181,123184,123198,123200,123210,123214,123215,123536,123567,123584,123642,124112,124154,124896,124903,124904,124908,124909,124911,124912,124927,124928,125125,125136,125143,125184,125260,125264,125274,126464,126468,126469,126496,126497,126499,126500,126501,126503,126504,126505,126515,126516,126520,126521,126522,126523,126524,126530,126531,126535,126536,126537,126538,126539,126540,126541,126544,126545,126547,126548,126549,126551,126552,126553,126554,126555,126556,126557,126558,126559,126560,126561,126563,126564,126565,126567,126571,126572,126579,126580,126584,126585,126589,126590,126591,126592,126602,126603,126620,126625,126628,126629,126634,126635,126652,130032,130042,131072,173792,173824,177978,177984,178206,178208,183970,183984,191457,194560,195102,196608,201547,201552,205744,917760,918000,0xFFFFFFFF};
inline constexpr uint32_t Join_Control[] = {8204,8206,0xFFFFFFFF};
inline constexpr struct { uint32_t from; char gc[3]; } Gc[] = {{0,"Cc"},{32,"Zs"},{33,"Po"},{36,"Sc"},{37,"Po"},{40,"Ps"},{41,"Pe"},{42,"Po"},{43,"Sm"},{44,"Po"},{45,"Pd"},{46,"Po"},{48,"Nd"},{58,"Po"},{60,"Sm"},{63,"Po"},{65,"Lu"},{91,"Ps"},{92,"Po"},{93,"Pe"},{94,"Sk"},{95,"Pc"},{96,"Sk"},{97,"Ll"},{123,"Ps"},{124,"Sm"},{125,"Pe"},{126,"Sm"},{127,"Cc"},{160,"Zs"},{161,"Po"},{162,"Sc"},{166,"So"},{167,"Po"},{168,"Sk"},{169,"So"},{170,"Lo"},{171,"Pi"},{172,"Sm"},{173,"Cf"},{174,"So"},{175,"Sk"},{176,"So"},{177,"Sm"},{178,"No"},{180,"Sk"},{181,"Ll"},{182,"Po"},{184,"Sk"},{185,"No"},{186,"Lo"},{187,"Pf"},{188,"No"},{191,"Po"},{192,"Lu"},{215,"Sm"},{216,"Lu"},{223,"Ll"},{247,"Sm"},{248,"Ll"},{256,"Lu"},{257,"Ll"},{258,"Lu"},{259,"Ll"},{260,"Lu"},{261,"Ll"},{262,"Lu"},{263,"Ll"},{264,"Lu"},{265,"Ll"},{266,"Lu"},{267,"Ll"},{268,"Lu"},{269,"Ll"},{270,"Lu"},{271,"Ll"},{272,"Lu"},{273,"Ll"},{274,"Lu"},{275,"Ll"},{276,"Lu"},{277,"Ll"},{278,"Lu"},{279,"Ll"},{280,"Lu"},{281,"Ll"},{282,"Lu"},{283,"Ll"},{284,"Lu"},{285,"Ll"},{286,"Lu"},{287,"Ll"},{288,"Lu"},{289,"Ll"},{290,"Lu"},{291,"Ll"},{292,"Lu"},{293,"Ll"},{294,"Lu"},{295,"Ll"},{296,"Lu"},{297,"Ll"},{298,"Lu"},{299,"Ll"},{300,"Lu"},{301,"Ll"},{302,"Lu"},{303,"Ll"},{304,"Lu"},{305,"Ll"},{306,"Lu"},{307,"Ll"},{308,"Lu"},{309,"Ll"},{310,"Lu"},{311,"Ll"},{313,"Lu"},{314,"Ll"},{315,"Lu"},{316,"Ll"},{317,"Lu"},{318,"Ll"},{319,"Lu"},{320,"Ll"},{321,"Lu"},{322,"Ll"},{323,"Lu"},{324,"Ll"},{325,"Lu"},{326,"Ll"},{327,"Lu"},{328,"Ll"},{330,"Lu"},{331,"Ll"},{332,"Lu"},{333,"Ll"},{334,"Lu"},{335,"Ll"},{336,"Lu"},{337,"Ll"},{338,"Lu"},{339,"Ll"},{340,"Lu"},{341,"Ll"},{342,"Lu"},{343,"Ll"},{344,"Lu"},{345,"Ll"},{346,"Lu"},{347,"Ll"},{348,"Lu"},{349,"Ll"},{350,"Lu"},{351,"Ll"},{352,"Lu"},{353,"Ll"},{354,"Lu"},{355,"Ll"},{356,"Lu"},{357,"Ll"},{358,"Lu"},{359,"Ll"},{360,"Lu"},{361,"Ll"},{362,"Lu"},{363,"Ll"},{364,"Lu"},{365,"Ll"},{366,"Lu"},{367,"Ll"},{368,"Lu"},{369,"Ll"},{370,"Lu"},{371,"Ll"},{372,"Lu"},{373,"Ll"},{374,"Lu"},{375,"Ll"},{376,"Lu"},{378,"Ll"},{379,"Lu"},{380,"Ll"},{381,"Lu"},{382,"Ll"},{385,"Lu"},{387,"Ll"},{388,"Lu"},{389,"Ll"},{390,"Lu"},{392,"Ll"},{393,"Lu"},{396,"Ll"},{398,"Lu"},{402,"Ll"},{403,"Lu"},{405,"Ll"},{406,"Lu"},{409,"Ll"},{412,"Lu"},{414,"Ll"},{415,"Lu"},{417,"Ll"},{418,"Lu"},{419,"Ll"},{420,"Lu"},{421,"Ll"},{422,"Lu"},{424,"Ll"},{425,"Lu"},{426,"Ll"},{428,"Lu"},{429,"Ll"},{430,"Lu"},{432,"Ll"},{433,"Lu"},{436,"Ll"},{437,"Lu"},{438,"Ll"},{439,"Lu"},{441,"Ll"},{443,"Lo"},{444,"Lu"},{445,"Ll"},{448,"Lo"},{452,"Lu"},{453,"Lt"},{454,"Ll"},{455,"Lu"},{456,"Lt"},{457,"Ll"},{458,"Lu"},{459,"Lt"},{460,"Ll"},{461,"Lu"},{462,"Ll"},{463,"Lu"},{464,"Ll"},{465,"Lu"},{466,"Ll"},{467,"Lu"},{468,"Ll"},{469,"Lu"},{470,"Ll"},{471,"Lu"},{472,"Ll"},{473,"Lu"},{474,"Ll"},{475,"Lu"},{476,"Ll"},{478,"Lu"},{479,"Ll"},{480,"Lu"},{481,"Ll"},{482,"Lu"},{483,"Ll"},{484,"Lu"},{485,"Ll"},{486,"Lu"},{487,"Ll"},{488,"Lu"},{489,"Ll"},{490,"Lu"},{491,"Ll"},{492,"Lu"},{493,"Ll"},{494,"Lu"},{495,"Ll"},{497,"Lu"},{498,"Lt"},{499,"Ll"},{500,"Lu"},{501,"Ll"},{502,"Lu"},{505,"Ll"},{506,"Lu"},{507,"Ll"},{508,"Lu"},{509,"Ll"},{510,"Lu"},{511,"Ll"},{512,"Lu"},{513,"Ll"},{514,"Lu"},{515,"Ll"},{516,"Lu"},{517,"Ll"},{518,"Lu"},{519,"Ll"},{520,"Lu"},{521,"Ll"},{522,"Lu"},{523,"Ll"},{524,"Lu"},{525,"Ll"},{526,"Lu"},{527,"Ll"},{528,"Lu"},{529,"Ll"},{530,"Lu"},{531,"Ll"},{532,"Lu"},{533,"Ll"},{534,"Lu"},{535,"Ll"},{536,"Lu"},{537,"Ll"},{538,"Lu"},{539,"Ll"},{540,"Lu"},{541,"Ll"},{542,"Lu"},{543,"Ll"},{544,"Lu"},{545,"Ll"},{546,"Lu"},{547,"Ll"},{548,"Lu"},{549,"Ll"},{550,"Lu"},{551,"Ll"},{552,"Lu"},{553,"Ll"},{554,"Lu"},{555,"Ll"},{556,"Lu"},{557,"Ll"},{558,"Lu"},{559,"Ll"},{560,"Lu"},{561,"Ll"},{562,"Lu"},{563,"Ll"},{570,"Lu"},{572,"Ll"},{573,"Lu"},{575,"Ll"},{577,"Lu"},{578,"Ll"},{579,"Lu"},{583,"Ll"},{584,"Lu"},{585,"Ll"},{586,"Lu"},{587,"Ll"},{588,"Lu"},{589,"Ll"},{590,"Lu"},{591,"Ll"},{660,"Lo"},{661,"Ll"},{688,"Lm"},{706,"Sk"},{710,"Lm"},{722,"Sk"},{736,"Lm"},{741,"Sk"},{748,"Lm"},{749,"Sk"},{750,"Lm"},{751,"Sk"},{768,"Mn"},{880,"Lu"},{881,"Ll"},{882,"Lu"},{883,"Ll"},{884,"Lm"},{885,"Sk"},{886,"Lu"},{887,"Ll"},{888,"Cn"},{890,"Lm"},{891,"Ll"},{894,"Po"},{895,"Lu"},{896,"Cn"},{900,"Sk"},{902,"Lu"},{903,"Po"},{904,"Lu"},{907,"Cn"},{908,"Lu"},{909,"Cn"},{910,"Lu"},{912,"Ll"},{913,"Lu"},{930,"Cn"},{931,"Lu"},{940,"Ll"},{975,"Lu"},{976,"Ll"},{978,"Lu"},{981,"Ll"},{984,"Lu"},{985,"Ll"},{986,"Lu"},{987,"Ll"},{988,"Lu"},{989,"Ll"},{990,"Lu"},{991,"Ll"},{992,"Lu"},{993,"Ll"},{994,"Lu"},{995,"Ll"},{996,"Lu"},{997,"Ll"},{998,"Lu"},{999,"Ll"},{1000,"Lu"},{1001,"Ll"},{1002,"Lu"},{1003,"Ll"},{1004,"Lu"},{1005,"Ll"},{1006,"Lu"},{1007,"Ll"},{1012,"Lu"},{1013,"Ll"},{1014,"Sm"},{1015,"Lu"},{1016,"Ll"},{1017,"Lu"},{1019,"Ll"},{1021,"Lu"},{1072,"Ll"},{1120,"Lu"},{1121,"Ll"},{1122,"Lu"},{1123,"Ll"},{1124,"Lu"},{1125,"Ll"},{1126,"Lu"},{1127,"Ll"},{1128,"Lu"},{1129,"Ll"},{1130,"Lu"},{1131,"Ll"},{1132,"Lu"},{1133,"Ll"},{1134,"Lu"},{1135,"Ll"},{1136,"Lu"},{1137,"Ll"},{1138,"Lu"},{1139,"Ll"},{1140,"Lu"},{1141,"Ll"},{1142,"Lu"},{1143,"Ll"},{1144,"Lu"},{1145,"Ll"},{1146,"Lu"},{1147,"Ll"},{1148,"Lu"},{1149,"Ll"},{1150,"Lu"},{1151,"Ll"},{1152,"Lu"},{1153,"Ll"},{1154,"So"},{1155,"Mn"},{1160,"Me"},{1162,"Lu"},{1163,"Ll"},{1164,"Lu"},{1165,"Ll"},{1166,"Lu"},{1167,"Ll"},{1168,"Lu"},{1169,"Ll"},{1170,"Lu"},{1171,"Ll"},{1172,"Lu"},{1173,"Ll"},{1174,"Lu"},{1175,"Ll"},{1176,"Lu"},{1177,"Ll"},{1178,"Lu"},{1179,"Ll"},{1180,"Lu"},{1181,"Ll"},{1182,"Lu"},{1183,"Ll"},{1184,"Lu"},{1185,"Ll"},{1186,"Lu"},{1187,"Ll"},{1188,"Lu"},{1189,"Ll"},{1190,"Lu"},{1191,"Ll"},{1192,"Lu"},{1193,"Ll"},{1194,"Lu"},{1195,"Ll"},{1196,"Lu"},{1197,"Ll"},{1198,"Lu"},{1199,"Ll"},{1200,"Lu"},{1201,"Ll"},{1202,"Lu"},{1203,"Ll"},{1204,"Lu"},{1205,"Ll"},{1206,"Lu"},{1207,"Ll"},{1208,"Lu"},{1209,"Ll"},{1210,"Lu"},{1211,"Ll"},{1212,"Lu"},{1213,"Ll"},{1214,"Lu"},{1215,"Ll"},{1216,"Lu"},{1218,"Ll"},{1219,"Lu"},{1220,"Ll"},{1221,"Lu"},{1222,"Ll"},{1223,"Lu"},{1224,"Ll"},{1225,"Lu"},{1226,"Ll"},{1227,"Lu"},{1228,"Ll"},{1229,"Lu"},{1230,"Ll"},{1232,"Lu"},{1233,"Ll"},{1234,"Lu"},{1235,"Ll"},{1236,"Lu"},{1237,"Ll"},{1238,"Lu"},{1239,"Ll"},{1240,"Lu"},{1241,"Ll"},{1242,"Lu"},{1243,"Ll"},{1244,"Lu"},{1245,"Ll"},{1246,"Lu"},{1247,"Ll"},{1248,"Lu"},{1249,"Ll"},{1250,"Lu"},{1251,"Ll"},{1252,"Lu"},{1253,"Ll"},{1254,"Lu"},{1255,"Ll"},{1256,"Lu"},{1257,"Ll"},{1258,"Lu"},{1259,"Ll"},{1260,"Lu"},{1261,"Ll"},{1262,"Lu"},{1263,"Ll"},{1264,"Lu"},{1265,"Ll"},{1266,"Lu"},{1267,"Ll"},{1268,"Lu"},{1269,"Ll"},{1270,"Lu"},{1271,"Ll"},{1272,"Lu"},{1273,"Ll"},{1274,"Lu"},{1275,"Ll"},{1276,"Lu"},{1277,"Ll"},{1278,"Lu"},{1279,"Ll"},{1280,"Lu"},{1281,"Ll"},{1282,"Lu"},{1283,"Ll"},{1284,"Lu"},{1285,"Ll"},{1286,"Lu"},{1287,"Ll"},{1288,"Lu"},{1289,"Ll"},{1290,"Lu"},{1291,"Ll"},{1292,"Lu"},{1293,"Ll"},{1294,"Lu"},{1295,"Ll"},{1296,"Lu"},{1297,"Ll"},{1298,"Lu"},{1299,"Ll"},{1300,"Lu"},{1301,"Ll"},{1302,"Lu"},{1303,"Ll"},{1304,"Lu"},{1305,"Ll"},{1306,"Lu"},{1307,"Ll"},{1308,"Lu"},{1309,"Ll"},{1310,"Lu"},{1311,"Ll"},{1312,"Lu"},{1313,"Ll"},{1314,"Lu"},{1315,"Ll"},{1316,"Lu"},{1317,"Ll"},{1318,"Lu"},{1319,"Ll"},{1320,"Lu"},{1321,"Ll"},{1322,"Lu"},{1323,"Ll"},{1324,"Lu"},{1325,"Ll"},{1326,"Lu"},{1327,"Ll"},{1328,"Cn"},{1329,"Lu"},{1367,"Cn"},{1369,"Lm"},{1370,"Po"},{1376,"Ll"},{1417,"Po"},{1418,"Pd"},{1419,"Cn"},{1421,"So"},{1423,"Sc"},{1424,"Cn"},{1425,"Mn"},{1470,"Pd"},{1471,"Mn"},{1472,"Po"},{1473,"Mn"},{1475,"Po"},{1476,"Mn"},{1478,"Po"},{1479,"Mn"},{1480,"Cn"},{1488,"Lo"},{1515,"Cn"},{1519,"Lo"},{1523,"Po"},{1525,"Cn"},{1536,"Cf"},{1542,"Sm"},{1545,"Po"},{1547,"Sc"},{1548,"Po"},{1550,"So"},{1552,"Mn"},{1563,"Po"},{1564,"Cf"},{1565,"Po"},{1568,"Lo"},{1600,"Lm"},{1601,"Lo"},{1611,"Mn"},{1632,"Nd"},{1642,"Po"},{1646,"Lo"},{1648,"Mn"},{1649,"Lo"},{1748,"Po"},{1749,"Lo"},{1750,"Mn"},{1757,"Cf"},{1758,"So"},{1759,"Mn"},{1765,"Lm"},{1767,"Mn"},{1769,"So"},{1770,"Mn"},{1774,"Lo"},{1776,"Nd"},{1786,"Lo"},{1789,"So"},{1791,"Lo"},{1792,"Po"},{1806,"Cn"},{1807,"Cf"},{1808,"Lo"},{1809,"Mn"},{1810,"Lo"},{1840,"Mn"},{1867,"Cn"},{1869,"Lo"},{1958,"Mn"},{1969,"Lo"},{1970,"Cn"},{1984,"Nd"},{1994,"Lo"},{2027,"Mn"},{2036,"Lm"},{2038,"So"},{2039,"Po"},{2042,"Lm"},{2043,"Cn"},{2045,"Mn"},{2046,"Sc"},{2048,"Lo"},{2070,"Mn"},{2074,"Lm"},{2075,"Mn"},{2084,"Lm"},{2085,"Mn"},{2088,"Lm"},{2089,"Mn"},{2094,"Cn"},{2096,"Po"},{2111,"Cn"},{2112,"Lo"},{2137,"Mn"},{2140,"Cn"},{2142,"Po"},{2143,"Cn"},{2144,"Lo"},{2155,"Cn"},{2160,"Lo"},{2184,"Sk"},{2185,"Lo"},{2191,"Cn"},{2192,"Cf"},{2194,"Cn"},{2200,"Mn"},{2208,"Lo"},{2249,"Lm"},{2250,"Mn"},{2274,"Cf"},{2275,"Mn"},{2307,"Mc"},{2308,"Lo"},{2362,"Mn"},{2363,"Mc"},{2364,"Mn"},{2365,"Lo"},{2366,"Mc"},{2369,"Mn"},{2377,"Mc"},{2381,"Mn"},{2382,"Mc"},{2384,"Lo"},{2385,"Mn"},{2392,"Lo"},{2402,"Mn"},{2404,"Po"},{2406,"Nd"},{2416,"Po"},{2417,"Lm"},{2418,"Lo"},{2433,"Mn"},{2434,"Mc"},{2436,"Cn"},{2437,"Lo"},{2445,"Cn"},{2447,"Lo"},{2449,"Cn"},{2451,"Lo"},{2473,"Cn"},{2474,"Lo"},{2481,"Cn"},{2482,"Lo"},{2483,"Cn"},{2486,"Lo"},{2490,"Cn"},{2492,"Mn"},{2493,"Lo"},{2494,"Mc"},{2497,"Mn"},{2501,"Cn"},{2503,"Mc"},{2505,"Cn"},{2507,"Mc"},{2509,"Mn"},{2510,"Lo"},{2511,"Cn"},{2519,"Mc"},{2520,"Cn"},{2524,"Lo"},{2526,"Cn"},{2527,"Lo"},{2530,"Mn"},{2532,"Cn"},{2534,"Nd"},{2544,"Lo"},{2546,"Sc"},{2548,"No"},{2554,"So"},{2555,"Sc"},{2556,"Lo"},{2557,"Po"},{2558,"Mn"},{2559,"Cn"},{2561,"Mn"},{2563,"Mc"},{2564,"Cn"},{2565,"Lo"},{2571,"Cn"},{2575,"Lo"},{2577,"Cn"},{2579,"Lo"},{2601,"Cn"},{2602,"Lo"},{2609,"Cn"},{2610,"Lo"},{2612,"Cn"},{2613,"Lo"},{2615,"Cn"},{2616,"Lo"},{2618,"Cn"},{2620,"Mn"},{2621,"Cn"},{2622,"Mc"},{2625,"Mn"},{2627,"Cn"},{2631,"Mn"},{2633,"Cn"},{2635,"Mn"},{2638,"Cn"},{2641,"Mn"},{2642,"Cn"},{2649,"Lo"},{2653,"Cn"},{2654,"Lo"},{2655,"Cn"},{2662,"Nd"},{2672,"Mn"},{2674,"Lo"},{2677,"Mn"},{2678,"Po"},{2679,"Cn"},{2689,"Mn"},{2691,"Mc"},{2692,"Cn"},{2693,"Lo"},{2702,"Cn"},{2703,"Lo"},{2706,"Cn"},{2707,"Lo"},{2729,"Cn"},{2730,"Lo"},{2737,"Cn"},{2738,"Lo"},{2740,"Cn"},{2741,"Lo"},{2746,"Cn"},{2748,"Mn"},{2749,"Lo"},{2750,"Mc"},{2753,"Mn"},{2758,"Cn"},{2759,"Mn"},{2761,"Mc"},{2762,"Cn"},{2763,"Mc"},{2765,"Mn"},{2766,"Cn"},{2768,"Lo"},{2769,"Cn"},{2784,"Lo"},{2786,"Mn"},{2788,"Cn"},{2790,"Nd"},{2800,"Po"},{2801,"Sc"},{2802,"Cn"},{2809,"Lo"},{2810,"Mn"},{2816,"Cn"},{2817,"Mn"},{2818,"Mc"},{2820,"Cn"},{2821,"Lo"},{2829,"Cn"},{2831,"Lo"},{2833,"Cn"},{2835,"Lo"},{2857,"Cn"},{2858,"Lo"},{2865,"Cn"},{2866,"Lo"},{2868,"Cn"},{2869,"Lo"},{2874,"Cn"},{2876,"Mn"},{2877,"Lo"},{2878,"Mc"},{2879,"Mn"},{2880,"Mc"},{2881,"Mn"},{2885,"Cn"},{2887,"Mc"},{2889,"Cn"},{2891,"Mc"},{2893,"Mn"},{2894,"Cn"},{2901,"Mn"},{2903,"Mc"},{2904,"Cn"},{2908,"Lo"},{2910,"Cn"},{2911,"Lo"},{2914,"Mn"},{2916,"Cn"},{2918,"Nd"},{2928,"So"},{2929,"Lo"},{2930,"No"},{2936,"Cn"},{2946,"Mn"},{2947,"Lo"},{2948,"Cn"},{2949,"Lo"},{2955,"Cn"},{2958,"Lo"},{2961,"Cn"},{2962,"Lo"},{2966,"Cn"},{2969,"Lo"},{2971,"Cn"},{2972,"Lo"},{2973,"Cn"},{2974,"Lo"},{2976,"Cn"},{2979,"Lo"},{2981,"Cn"},{2984,"Lo"},{2987,"Cn"},{2990,"Lo"},{3002,"Cn"},{3006,"Mc"},{3008,"Mn"},{3009,"Mc"},{3011,"Cn"},{3014,"Mc"},{3017,"Cn"},{3018,"Mc"},{3021,"Mn"},{3022,"Cn"},{3024,"Lo"},{3025,"Cn"},{3031,"Mc"},{3032,"Cn"},{3046,"Nd"},{3056,"No"},{3059,"So"},{3065,"Sc"},{3066,"So"},{3067,"Cn"},{3072,"Mn"},{3073,"Mc"},{3076,"Mn"},{3077,"Lo"},{3085,"Cn"},{3086,"Lo"},{3089,"Cn"},{3090,"Lo"},{3113,"Cn"},{3114,"Lo"},{3130,"Cn"},{3132,"Mn"},{3133,"Lo"},{3134,"Mn"},{3137,"Mc"},{3141,"Cn"},{3142,"Mn"},{3145,"Cn"},{3146,"Mn"},{3150,"Cn"},{3157,"Mn"},{3159,"Cn"},{3160,"Lo"},{3163,"Cn"},{3165,"Lo"},{3166,"Cn"},{3168,"Lo"},{3170,"Mn"},{3172,"Cn"},{3174,"Nd"},{3184,"Cn"},{3191,"Po"},{3192,"No"},{3199,"So"},{3200,"Lo"},{3201,"Mn"},{3202,"Mc"},{3204,"Po"},{3205,"Lo"},{3213,"Cn"},{3214,"Lo"},{3217,"Cn"},{3218,"Lo"},{3241,"Cn"},{3242,"Lo"},{3252,"Cn"},{3253,"Lo"},{3258,"Cn"},{3260,"Mn"},{3261,"Lo"},{3262,"Mc"},{3263,"Mn"},{3264,"Mc"},{3269,"Cn"},{3270,"Mn"},{3271,"Mc"},{3273,"Cn"},{3274,"Mc"},{3276,"Mn"},{3278,"Cn"},{3285,"Mc"},{3287,"Cn"},{3293,"Lo"},{3295,"Cn"},{3296,"Lo"},{3298,"Mn"},{3300,"Cn"},{3302,"Nd"},{3312,"Cn"},{3313,"Lo"},{3315,"Mc"},{3316,"Cn"},{3328,"Mn"},{3330,"Mc"},{3332,"Lo"},{3341,"Cn"},{3342,"Lo"},{3345,"Cn"},{3346,"Lo"},{3387,"Mn"},{3389,"Lo"},{3390,"Mc"},{3393,"Mn"},{3397,"Cn"},{3398,"Mc"},{3401,"Cn"},{3402,"Mc"},{3405,"Mn"},{3406,"Lo"},{3407,"So"},{3408,"Cn"},{3412,"Lo"},{3415,"Mc"},{3416,"No"},{3423,"Lo"},{3426,"Mn"},{3428,"Cn"},{3430,"Nd"},{3440,"No"},{3449,"So"},{3450,"Lo"},{3456,"Cn"},{3457,"Mn"},{3458,"Mc"},{3460,"Cn"},{3461,"Lo"},{3479,"Cn"},{3482,"Lo"},{3506,"Cn"},{3507,"Lo"},{3516,"Cn"},{3517,"Lo"},{3518,"Cn"},{3520,"Lo"},{3527,"Cn"},{3530,"Mn"},{3531,"Cn"},{3535,"Mc"},{3538,"Mn"},{3541,"Cn"},{3542,"Mn"},{3543,"Cn"},{3544,"Mc"},{3552,"Cn"},{3558,"Nd"},{3568,"Cn"},{3570,"Mc"},{3572,"Po"},{3573,"Cn"},{3585,"Lo"},{3633,"Mn"},{3634,"Lo"},{3636,"Mn"},{3643,"Cn"},{3647,"Sc"},{3648,"Lo"},{3654,"Lm"},{3655,"Mn"},{3663,"Po"},{3664,"Nd"},{3674,"Po"},{3676,"Cn"},{3713,"Lo"},{3715,"Cn"},{3716,"Lo"},{3717,"Cn"},{3718,"Lo"},{3723,"Cn"},{3724,"Lo"},{3748,"Cn"},{3749,"Lo"},{3750,"Cn"},{3751,"Lo"},{3761,"Mn"},{3762,"Lo"},{3764,"Mn"},{3773,"Lo"},{3774,"Cn"},{3776,"Lo"},{3781,"Cn"},{3782,"Lm"},{3783,"Cn"},{3784,"Mn"},{3791,"Cn"},{3792,"Nd"},{3802,"Cn"},{3804,"Lo"},{3808,"Cn"},{3840,"Lo"},{3841,"So"},{3844,"Po"},{3859,"So"},{3860,"Po"},{3861,"So"},{3864,"Mn"},{3866,"So"},{3872,"Nd"},{3882,"No"},{3892,"So"},{3893,"Mn"},{3894,"So"},{3895,"Mn"},{3896,"So"},{3897,"Mn"},{3898,"Ps"},{3899,"Pe"},{3900,"Ps"},{3901,"Pe"},{3902,"Mc"},{3904,"Lo"},{3912,"Cn"},{3913,"Lo"},{3949,"Cn"},{3953,"Mn"},{3967,"Mc"},{3968,"Mn"},{3973,"Po"},{3974,"Mn"},{3976,"Lo"},{3981,"Mn"},{3992,"Cn"},{3993,"Mn"},{4029,"Cn"},{4030,"So"},{4038,"Mn"},{4039,"So"},{4045,"Cn"},{4046,"So"},{4048,"Po"},{4053,"So"},{4057,"Po"},{4059,"Cn"},{4096,"Lo"},{4139,"Mc"},{4141,"Mn"},{4145,"Mc"},{4146,"Mn"},{4152,"Mc"},{4153,"Mn"},{4155,"Mc"},{4157,"Mn"},{4159,"Lo"},{4160,"Nd"},{4170,"Po"},{4176,"Lo"},{4182,"Mc"},{4184,"Mn"},{4186,"Lo"},{4190,"Mn"},{4193,"Lo"},{4194,"Mc"},{4197,"Lo"},{4199,"Mc"},{4206,"Lo"},{4209,"Mn"},{4213,"Lo"},{4226,"Mn"},{4227,"Mc"},{4229,"Mn"},{4231,"Mc"},{4237,"Mn"},{4238,"Lo"},{4239,"Mc"},{4240,"Nd"},{4250,"Mc"},{4253,"Mn"},{4254,"So"},{4256,"Lu"},{4294,"Cn"},{4295,"Lu"},{4296,"Cn"},{4301,"Lu"},{4302,"Cn"},{4304,"Ll"},{4347,"Po"},{4348,"Lm"},{4349,"Ll"},{4352,"Lo"},{4681,"Cn"},{4682,"Lo"},{4686,"Cn"},{4688,"Lo"},{4695,"Cn"},{4696,"Lo"},{4697,"Cn"},{4698,"Lo"},{4702,"Cn"},{4704,"Lo"},{4745,"Cn"},{4746,"Lo"},{4750,"Cn"},{4752,"Lo"},{4785,"Cn"},{4786,"Lo"},{4790,"Cn"},{4792,"Lo"},{4799,"Cn"},{4800,"Lo"},{4801,"Cn"},{4802,"Lo"},{4806,"Cn"},{4808,"Lo"},{4823,"Cn"},{4824,"Lo"},{4881,"Cn"},{4882,"Lo"},{4886,"Cn"},{4888,"Lo"},{4955,"Cn"},{4957,"Mn"},{4960,"Po"},{4969,"No"},{4989,"Cn"},{4992,"Lo"},{5008,"So"},{5018,"Cn"},{5024,"Lu"},{5110,"Cn"},{5112,"Ll"},{5118,"Cn"},{5120,"Pd"},{5121,"Lo"},{5741,"So"},{5742,"Po"},{5743,"Lo"},{5760,"Zs"},{5761,"Lo"},{5787,"Ps"},{5788,"Pe"},{5789,"Cn"},{5792,"Lo"},{5867,"Po"},{5870,"Nl"},{5873,"Lo"},{5881,"Cn"},{5888,"Lo"},{5906,"Mn"},{5909,"Mc"},{5910,"Cn"},{5919,"Lo"},{5938,"Mn"},{5940,"Mc"},{5941,"Po"},{5943,"Cn"},{5952,"Lo"},{5970,"Mn"},{5972,"Cn"},{5984,"Lo"},{5997,"Cn"},{5998,"Lo"},{6001,"Cn"},{6002,"Mn"},{6004,"Cn"},{6016,"Lo"},{6068,"Mn"},{6070,"Mc"},{6071,"Mn"},{6078,"Mc"},{6086,"Mn"},{6087,"Mc"},{6089,"Mn"},{6100,"Po"},{6103,"Lm"},{6104,"Po"},{6107,"Sc"},{6108,"Lo"},{6109,"Mn"},{6110,"Cn"},{6112,"Nd"},{6122,"Cn"},{6128,"No"},{6138,"Cn"},{6144,"Po"},{6150,"Pd"},{6151,"Po"},{6155,"Mn"},{6158,"Cf"},{6159,"Mn"},{6160,"Nd"},{6170,"Cn"},{6176,"Lo"},{6211,"Lm"},{6212,"Lo"},{6265,"Cn"},{6272,"Lo"},{6277,"Mn"},{6279,"Lo"},{6313,"Mn"},{6314,"Lo"},{6315,"Cn"},{6320,"Lo"},{6390,"Cn"},{6400,"Lo"},{6431,"Cn"},{6432,"Mn"},{6435,"Mc"},{6439,"Mn"},{6441,"Mc"},{6444,"Cn"},{6448,"Mc"},{6450,"Mn"},{6451,"Mc"},{6457,"Mn"},{6460,"Cn"},{6464,"So"},{6465,"Cn"},{6468,"Po"},{6470,"Nd"},{6480,"Lo"},{6510,"Cn"},{6512,"Lo"},{6517,"Cn"},{6528,"Lo"},{6572,"Cn"},{6576,"Lo"},{6602,"Cn"},{6608,"Nd"},{6618,"No"},{6619,"Cn"},{6622,"So"},{6656,"Lo"},{6679,"Mn"},{6681,"Mc"},{6683,"Mn"},{6684,"Cn"},{6686,"Po"},{6688,"Lo"},{6741,"Mc"},{6742,"Mn"},{6743,"Mc"},{6744,"Mn"},{6751,"Cn"},{6752,"Mn"},{6753,"Mc"},{6754,"Mn"},{6755,"Mc"},{6757,"Mn"},{6765,"Mc"},{6771,"Mn"},{6781,"Cn"},{6783,"Mn"},{6784,"Nd"},{6794,"Cn"},{6800,"Nd"},{6810,"Cn"},{6816,"Po"},{6823,"Lm"},{6824,"Po"},{6830,"Cn"},{6832,"Mn"},{6846,"Me"},{6847,"Mn"},{6863,"Cn"},{6912,"Mn"},{6916,"Mc"},{6917,"Lo"},{6964,"Mn"},{6965,"Mc"},{6966,"Mn"},{6971,"Mc"},{6972,"Mn"},{6973,"Mc"},{6978,"Mn"},{6979,"Mc"},{6981,"Lo"},{6989,"Cn"},{6992,"Nd"},{7002,"Po"},{7009,"So"},{7019,"Mn"},{7028,"So"},{7037,"Po"},{7039,"Cn"},{7040,"Mn"},{7042,"Mc"},{7043,"Lo"},{7073,"Mc"},{7074,"Mn"},{7078,"Mc"},{7080,"Mn"},{7082,"Mc"},{7083,"Mn"},{7086,"Lo"},{7088,"Nd"},{7098,"Lo"},{7142,"Mn"},{7143,"Mc"},{7144,"Mn"},{7146,"Mc"},{7149,"Mn"},{7150,"Mc"},{7151,"Mn"},{7154,"Mc"},{7156,"Cn"},{7164,"Po"},{7168,"Lo"},{7204,"Mc"},{7212,"Mn"},{7220,"Mc"},{7222,"Mn"},{7224,"Cn"},{7227,"Po"},{7232,"Nd"},{7242,"Cn"},{7245,"Lo"},{7248,"Nd"},{7258,"Lo"},{7288,"Lm"},{7294,"Po"},{7296,"Ll"},{7305,"Cn"},{7312,"Lu"},{7355,"Cn"},{7357,"Lu"},{7360,"Po"},{7368,"Cn"},{7376,"Mn"},{7379,"Po"},{7380,"Mn"},{7393,"Mc"},{7394,"Mn"},{7401,"Lo"},{7405,"Mn"},{7406,"Lo"},{7412,"Mn"},{7413,"Lo"},{7415,"Mc"},{7416,"Mn"},{7418,"Lo"},{7419,"Cn"},{7424,"Ll"},{7468,"Lm"},{7531,"Ll"},{7544,"Lm"},{7545,"Ll"},{7579,"Lm"},{7616,"Mn"},{7680,"Lu"},{7681,"Ll"},{7682,"Lu"},{7683,"Ll"},{7684,"Lu"},{7685,"Ll"},{7686,"Lu"},{7687,"Ll"},{7688,"Lu"},{7689,"Ll"},{7690,"Lu"},{7691,"Ll"},{7692,"Lu"},{7693,"Ll"},{7694,"Lu"},{7695,"Ll"},{7696,"Lu"},{7697,"Ll"},{7698,"Lu"},{7699,"Ll"},{7700,"Lu"},{7701,"Ll"},{7702,"Lu"},{7703,"Ll"},{7704,"Lu"},{7705,"Ll"},{7706,"Lu"},{7707,"Ll"},{7708,"Lu"},{7709,"Ll"},{7710,"Lu"},{7711,"Ll"},{7712,"Lu"},{7713,"Ll"},{7714,"Lu"},{7715,"Ll"},{7716,"Lu"},{7717,"Ll"},{7718,"Lu"},{7719,"Ll"},{7720,"Lu"},{7721,"Ll"},{7722,"Lu"},{7723,"Ll"},{7724,"Lu"},{7725,"Ll"},{7726,"Lu"},{7727,"Ll"},{7728,"Lu"},{7729,"Ll"},{7730,"Lu"},{7731,"Ll"},{7732,"Lu"},{7733,"Ll"},{7734,"Lu"},{7735,"Ll"},{7736,"Lu"},{7737,"Ll"},{7738,"Lu"},{7739,"Ll"},{7740,"Lu"},{7741,"Ll"},{7742,"Lu"},{7743,"Ll"},{7744,"Lu"},{7745,"Ll"},{7746,"Lu"},{7747,"Ll"},{7748,"Lu"},{7749,"Ll"},{7750,"Lu"},{7751,"Ll"},{7752,"Lu"},{7753,"Ll"},{7754,"Lu"},{7755,"Ll"},{7756,"Lu"},{7757,"Ll"},{7758,"Lu"},{7759,"Ll"},{7760,"Lu"},{7761,"Ll"},{7762,"Lu"},{7763,"Ll"},{7764,"Lu"},{7765,"Ll"},{7766,"Lu"},{7767,"Ll"},{7768,"Lu"},{7769,"Ll"},{7770,"Lu"},{7771,"Ll"},{7772,"Lu"},{7773,"Ll"},{7774,"Lu"},{7775,"Ll"},{7776,"Lu"},{7777,"Ll"},{7778,"Lu"},{7779,"Ll"},{7780,"Lu"},{7781,"Ll"},{7782,"Lu"},{7783,"Ll"},{7784,"Lu"},{7785,"Ll"},{7786,"Lu"},{7787,"Ll"},{7788,"Lu"},{7789,"Ll"},{7790,"Lu"},{7791,"Ll"},{7792,"Lu"},{7793,"Ll"},{7794,"Lu"},{7795,"Ll"},{7796,"Lu"},{7797,"Ll"},{7798,"Lu"},{7799,"Ll"},{7800,"Lu"},{7801,"Ll"},{7802,"Lu"},{7803,"Ll"},{7804,"Lu"},{7805,"Ll"},{7806,"Lu"},{7807,"Ll"},{7808,"Lu"},{7809,"Ll"},{7810,"Lu"},{7811,"Ll"},{7812,"Lu"},{7813,"Ll"},{7814,"Lu"},{7815,"Ll"},{7816,"Lu"},{7817,"Ll"},{7818,"Lu"},{7819,"Ll"},{7820,"Lu"},{7821,"Ll"},{7822,"Lu"},{7823,"Ll"},{7824,"Lu"},{7825,"Ll"},{7826,"Lu"},{7827,"Ll"},{7828,"Lu"},{7829,"Ll"},{7838,"Lu"},{7839,"Ll"},{7840,"Lu"},{7841,"Ll"},{7842,"Lu"},{7843,"Ll"},{7844,"Lu"},{7845,"Ll"},{7846,"Lu"},{7847,"Ll"},{7848,"Lu"},{7849,"Ll"},{7850,"Lu"},{7851,"Ll"},{7852,"Lu"},{7853,"Ll"},{7854,"Lu"},{7855,"Ll"},{7856,"Lu"},{7857,"Ll"},{7858,"Lu"},{7859,"Ll"},{7860,"Lu"},{7861,"Ll"},{7862,"Lu"},{7863,"Ll"},{7864,"Lu"},{7865,"Ll"},{7866,"Lu"},{7867,"Ll"},{7868,"Lu"},{7869,"Ll"},{7870,"Lu"},{7871,"Ll"},{7872,"Lu"},{7873,"Ll"},{7874,"Lu"},{7875,"Ll"},{7876,"Lu"},{7877,"Ll"},{7878,"Lu"},{7879,"Ll"},{7880,"Lu"},{7881,"Ll"},{7882,"Lu"},{7883,"Ll"},{7884,"Lu"},{7885,"Ll"},{7886,"Lu"},{7887,"Ll"},{7888,"Lu"},{7889,"Ll"},{7890,"Lu"},{7891,"Ll"},{7892,"Lu"},{7893,"Ll"},{7894,"Lu"},{7895,"Ll"},{7896,"Lu"},{7897,"Ll"},{7898,"Lu"},{7899,"Ll"},{7900,"Lu"},{7901,"Ll"},{7902,"Lu"},{7903,"Ll"},{7904,"Lu"},{7905,"Ll"},{7906,"Lu"},{7907,"Ll"},{7908,"Lu"},{7909,"Ll"},{7910,"Lu"},{7911,"Ll"},{7912,"Lu"},{7913,"Ll"},{7914,"Lu"},{7915,"Ll"},{7916,"Lu"},{7917,"Ll"},{7918,"Lu"},{7919,"Ll"},{7920,"Lu"},{7921,"Ll"},{7922,"Lu"},{7923,"Ll"},{7924,"Lu"},{7925,"Ll"},{7926,"Lu"},{7927,"Ll"},{7928,"Lu"},{7929,"Ll"},{7930,"Lu"},{7931,"Ll"},{7932,"Lu"},{7933,"Ll"},{7934,"Lu"},{7935,"Ll"},{7944,"Lu"},{7952,"Ll"},{7958,"Cn"},{7960,"Lu"},{7966,"Cn"},{7968,"Ll"},{7976,"Lu"},{7984,"Ll"},{7992,"Lu"},{8000,"Ll"},{8006,"Cn"},{8008,"Lu"},{8014,"Cn"},{8016,"Ll"},{8024,"Cn"},{8025,"Lu"},{8026,"Cn"},{8027,"Lu"},{8028,"Cn"},{8029,"Lu"},{8030,"Cn"},{8031,"Lu"},{8032,"Ll"},{8040,"Lu"},{8048,"Ll"},{8062,"Cn"},{8064,"Ll"},{8072,"Lt"},{8080,"Ll"},{8088,"Lt"},{8096,"Ll"},{8104,"Lt"},{8112,"Ll"},{8117,"Cn"},{8118,"Ll"},{8120,"Lu"},{8124,"Lt"},{8125,"Sk"},{8126,"Ll"},{8127,"Sk"},{8130,"Ll"},{8133,"Cn"},{8134,"Ll"},{8136,"Lu"},{8140,"Lt"},{8141,"Sk"},{8144,"Ll"},{8148,"Cn"},{8150,"Ll"},{8152,"Lu"},{8156,"Cn"},{8157,"Sk"},{8160,"Ll"},{8168,"Lu"},{8173,"Sk"},{8176,"Cn"},{8178,"Ll"},{8181,"Cn"},{8182,"Ll"},{8184,"Lu"},{8188,"Lt"},{8189,"Sk"},{8191,"Cn"},{8192,"Zs"},{8203,"Cf"},{8208,"Pd"},{8214,"Po"},{8216,"Pi"},{8217,"Pf"},{8218,"Ps"},{8219,"Pi"},{8221,"Pf"},{8222,"Ps"},{8223,"Pi"},{8224,"Po"},{8232,"Zl"},{8233,"Zp"},{8234,"Cf"},{8239,"Zs"},{8240,"Po"},{8249,"Pi"},{8250,"Pf"},{8251,"Po"},{8255,"Pc"},{8257,"Po"},{8260,"Sm"},{8261,"Ps"},{8262,"Pe"},{8263,"Po"},{8274,"Sm"},{8275,"Po"},{8276,"Pc"},{8277,"Po"},{8287,"Zs"},{8288,"Cf"},{8293,"Cn"},{8294,"Cf"},{8304,"No"},{8305,"Lm"},{8306,"Cn"},{8308,"No"},{8314,"Sm"},{8317,"Ps"},{8318,"Pe"},{8319,"Lm"},{8320,"No"},{8330,"Sm"},{8333,"Ps"},{8334,"Pe"},{8335,"Cn"},{8336,"Lm"},{8349,"Cn"},{8352,"Sc"},{8385,"Cn"},{8400,"Mn"},{8413,"Me"},{8417,"Mn"},{8418,"Me"},{8421,"Mn"},{8433,"Cn"},{8448,"So"},{8450,"Lu"},{8451,"So"},{8455,"Lu"},{8456,"So"},{8458,"Ll"},{8459,"Lu"},{8462,"Ll"},{8464,"Lu"},{8467,"Ll"},{8468,"So"},{8469,"Lu"},{8470,"So"},{8472,"Sm"},{8473,"Lu"},{8478,"So"},{8484,"Lu"},{8485,"So"},{8486,"Lu"},{8487,"So"},{8488,"Lu"},{8489,"So"},{8490,"Lu"},{8494,"So"},{8495,"Ll"},{8496,"Lu"},{8500,"Ll"},{8501,"Lo"},{8505,"Ll"},{8506,"So"},{8508,"Ll"},{8510,"Lu"},{8512,"Sm"},{8517,"Lu"},{8518,"Ll"},{8522,"So"},{8523,"Sm"},{8524,"So"},{8526,"Ll"},{8527,"So"},{8528,"No"},{8544,"Nl"},{8579,"Lu"},{8580,"Ll"},{8581,"Nl"},{8585,"No"},{8586,"So"},{8588,"Cn"},{8592,"Sm"},{8597,"So"},{8602,"Sm"},{8604,"So"},{8608,"Sm"},{8609,"So"},{8611,"Sm"},{8612,"So"},{8614,"Sm"},{8615,"So"},{8622,"Sm"},{8623,"So"},{8654,"Sm"},{8656,"So"},{8658,"Sm"},{8659,"So"},{8660,"Sm"},{8661,"So"},{8692,"Sm"},{8960,"So"},{8968,"Ps"},{8969,"Pe"},{8970,"Ps"},{8971,"Pe"},{8972,"So"},{8992,"Sm"},{8994,"So"},{9001,"Ps"},{9002,"Pe"},{9003,"So"},{9084,"Sm"},{9085,"So"},{9115,"Sm"},{9140,"So"},{9180,"Sm"},{9186,"So"},{9255,"Cn"},{9280,"So"},{9291,"Cn"},{9312,"No"},{9372,"So"},{9450,"No"},{9472,"So"},{9655,"Sm"},{9656,"So"},{9665,"Sm"},{9666,"So"},{9720,"Sm"},{9728,"So"},{9839,"Sm"},{9840,"So"},{10088,"Ps"},{10089,"Pe"},{10090,"Ps"},{10091,"Pe"},{10092,"Ps"},{10093,"Pe"},{10094,"Ps"},{10095,"Pe"},{10096,"Ps"},{10097,"Pe"},{10098,"Ps"},{10099,"Pe"},{10100,"Ps"},{10101,"Pe"},{10102,"No"},{10132,"So"},{10176,"Sm"},{10181,"Ps"},{10182,"Pe"},{10183,"Sm"},{10214,"Ps"},{10215,"Pe"},{10216,"Ps"},{10217,"Pe"},{10218,"Ps"},{10219,"Pe"},{10220,"Ps"},{10221,"Pe"},{10222,"Ps"},{10223,"Pe"},{10224,"Sm"},{10240,"So"},{10496,"Sm"},{10627,"Ps"},{10628,"Pe"},{10629,"Ps"},{10630,"Pe"},{10631,"Ps"},{10632,"Pe"},{10633,"Ps"},{10634,"Pe"},{10635,"Ps"},{10636,"Pe"},{10637,"Ps"},{10638,"Pe"},{10639,"Ps"},{10640,"Pe"},{10641,"Ps"},{10642,"Pe"},{10643,"Ps"},{10644,"Pe"},{10645,"Ps"},{10646,"Pe"},{10647,"Ps"},{10648,"Pe"},{10649,"Sm"},{10712,"Ps"},{10713,"Pe"},{10714,"Ps"},{10715,"Pe"},{10716,"Sm"},{10748,"Ps"},{10749,"Pe"},{10750,"Sm"},{11008,"So"},{11056,"Sm"},{11077,"So"},{11079,"Sm"},{11085,"So"},{11124,"Cn"},{11126,"So"},{11158,"Cn"},{11159,"So"},{11264,"Lu"},{11312,"Ll"},{11360,"Lu"},{11361,"Ll"},{11362,"Lu"},{11365,"Ll"},{11367,"Lu"},{11368,"Ll"},{11369,"Lu"},{11370,"Ll"},{11371,"Lu"},{11372,"Ll"},{11373,"Lu"},{11377,"Ll"},{11378,"Lu"},{11379,"Ll"},{11381,"Lu"},{11382,"Ll"},{11388,"Lm"},{11390,"Lu"},{11393,"Ll"},{11394,"Lu"},{11395,"Ll"},{11396,"Lu"},{11397,"Ll"},{11398,"Lu"},{11399,"Ll"},{11400,"Lu"},{11401,"Ll"},{11402,"Lu"},{11403,"Ll"},{11404,"Lu"},{11405,"Ll"},{11406,"Lu"},{11407,"Ll"},{11408,"Lu"},{11409,"Ll"},{11410,"Lu"},{11411,"Ll"},{11412,"Lu"},{11413,"Ll"},{11414,"Lu"},{11415,"Ll"},{11416,"Lu"},{11417,"Ll"},{11418,"Lu"},{11419,"Ll"},{11420,"Lu"},{11421,"Ll"},{11422,"Lu"},{11423,"Ll"},{11424,"Lu"},{11425,"Ll"},{11426,"Lu"},{11427,"Ll"},{11428,"Lu"},{11429,"Ll"},{11430,"Lu"},{11431,"Ll"},{11432,"Lu"},{11433,"Ll"},{11434,"Lu"},{11435,"Ll"},{11436,"Lu"},{11437,"Ll"},{11438,"Lu"},{11439,"Ll"},{11440,"Lu"},{11441,"Ll"},{11442,"Lu"},{11443,"Ll"},{11444,"Lu"},{11445,"Ll"},{11446,"Lu"},{11447,"Ll"},{11448,"Lu"},{11449,"Ll"},{11450,"Lu"},{11451,"Ll"},{11452,"Lu"},{11453,"Ll"},{11454,"Lu"},{11455,"Ll"},{11456,"Lu"},{11457,"Ll"},{11458,"Lu"},{11459,"Ll"},{11460,"Lu"},{11461,"Ll"},{11462,"Lu"},{11463,"Ll"},{11464,"Lu"},{11465,"Ll"},{11466,"Lu"},{11467,"Ll"},{11468,"Lu"},{11469,"Ll"},{11470,"Lu"},{11471,"Ll"},{11472,"Lu"},{11473,"Ll"},{11474,"Lu"},{11475,"Ll"},{11476,"Lu"},{11477,"Ll"},{11478,"Lu"},{11479,"Ll"},{11480,"Lu"},{11481,"Ll"},{11482,"Lu"},{11483,"Ll"},{11484,"Lu"},{11485,"Ll"},{11486,"Lu"},{11487,"Ll"},{11488,"Lu"},{11489,"Ll"},{11490,"Lu"},{11491,"Ll"},{11493,"So"},{11499,"Lu"},{11500,"Ll"},{11501,"Lu"},{11502,"Ll"},{11503,"Mn"},{11506,"Lu"},{11507,"Ll"},{11508,"Cn"},{11513,"Po"},{11517,"No"},{11518,"Po"},{11520,"Ll"},{11558,"Cn"},{11559,"Ll"},{11560,"Cn"},{11565,"Ll"},{11566,"Cn"},{11568,"Lo"},{11624,"Cn"},{11631,"Lm"},{11632,"Po"},{11633,"Cn"},{11647,"Mn"},{11648,"Lo"},{11671,"Cn"},{11680,"Lo"},{11687,"Cn"},{11688,"Lo"},{11695,"Cn"},{11696,"Lo"},{11703,"Cn"},{11704,"Lo"},{11711,"Cn"},{11712,"Lo"},{11719,"Cn"},{11720,"Lo"},{11727,"Cn"},{11728,"Lo"},{11735,"Cn"},{11736,"Lo"},{11743,"Cn"},{11744,"Mn"},{11776,"Po"},{11778,"Pi"},{11779,"Pf"},{11780,"Pi"},{11781,"Pf"},{11782,"Po"},{11785,"Pi"},{11786,"Pf"},{11787,"Po"},{11788,"Pi"},{11789,"Pf"},{11790,"Po"},{11799,"Pd"},{11800,"Po"},{11802,"Pd"},{11803,"Po"},{11804,"Pi"},{11805,"Pf"},{11806,"Po"},{11808,"Pi"},{11809,"Pf"},{11810,"Ps"},{11811,"Pe"},{11812,"Ps"},{11813,"Pe"},{11814,"Ps"},{11815,"Pe"},{11816,"Ps"},{11817,"Pe"},{11818,"Po"},{11823,"Lm"},{11824,"Po"},{11834,"Pd"},{11836,"Po"},{11840,"Pd"},{11841,"Po"},{11842,"Ps"},{11843,"Po"},{11856,"So"},{11858,"Po"},{11861,"Ps"},{11862,"Pe"},{11863,"Ps"},{11864,"Pe"},{11865,"Ps"},{11866,"Pe"},{11867,"Ps"},{11868,"Pe"},{11869,"Pd"},{11870,"Cn"},{11904,"So"},{11930,"Cn"},{11931,"So"},{12020,"Cn"},{12032,"So"},{12246,"Cn"},{12272,"So"},{12284,"Cn"},{12288,"Zs"},{12289,"Po"},{12292,"So"},{12293,"Lm"},{12294,"Lo"},{12295,"Nl"},{12296,"Ps"},{12297,"Pe"},{12298,"Ps"},{12299,"Pe"},{12300,"Ps"},{12301,"Pe"},{12302,"Ps"},{12303,"Pe"},{12304,"Ps"},{12305,"Pe"},{12306,"So"},{12308,"Ps"},{12309,"Pe"},{12310,"Ps"},{12311,"Pe"},{12312,"Ps"},{12313,"Pe"},{12314,"Ps"},{12315,"Pe"},{12316,"Pd"},{12317,"Ps"},{12318,"Pe"},{12320,"So"},{12321,"Nl"},{12330,"Mn"},{12334,"Mc"},{12336,"Pd"},{12337,"Lm"},{12342,"So"},{12344,"Nl"},{12347,"Lm"},{12348,"Lo"},{12349,"Po"},{12350,"So"},{12352,"Cn"},{12353,"Lo"},{12439,"Cn"},{12441,"Mn"},{12443,"Sk"},{12445,"Lm"},{12447,"Lo"},{12448,"Pd"},{12449,"Lo"},{12539,"Po"},{12540,"Lm"},{12543,"Lo"},{12544,"Cn"},{12549,"Lo"},{12592,"Cn"},{12593,"Lo"},{12687,"Cn"},{12688,"So"},{12690,"No"},{12694,"So"},{12704,"Lo"},{12736,"So"},{12772,"Cn"},{12784,"Lo"},{12800,"So"},{12831,"Cn"},{12832,"No"},{12842,"So"},{12872,"No"},{12880,"So"},{12881,"No"},{12896,"So"},{12928,"No"},{12938,"So"},{12977,"No"},{12992,"So"},{13312,"Lo"},{19904,"So"},{19968,"Lo"},{40981,"Lm"},{40982,"Lo"},{42125,"Cn"},{42128,"So"},{42183,"Cn"},{42192,"Lo"},{42232,"Lm"},{42238,"Po"},{42240,"Lo"},{42508,"Lm"},{42509,"Po"},{42512,"Lo"},{42528,"Nd"},{42538,"Lo"},{42540,"Cn"},{42560,"Lu"},{42561,"Ll"},{42562,"Lu"},{42563,"Ll"},{42564,"Lu"},{42565,"Ll"},{42566,"Lu"},{42567,"Ll"},{42568,"Lu"},{42569,"Ll"},{42570,"Lu"},{42571,"Ll"},{42572,"Lu"},{42573,"Ll"},{42574,"Lu"},{42575,"Ll"},{42576,"Lu"},{42577,"Ll"},{42578,"Lu"},{42579,"Ll"},{42580,"Lu"},{42581,"Ll"},{42582,"Lu"},{42583,"Ll"},{42584,"Lu"},{42585,"Ll"},{42586,"Lu"},{42587,"Ll"},{42588,"Lu"},{42589,"Ll"},{42590,"Lu"},{42591,"Ll"},{42592,"Lu"},{42593,"Ll"},{42594,"Lu"},{42595,"Ll"},{42596,"Lu"},{42597,"Ll"},{42598,"Lu"},{42599,"Ll"},{42600,"Lu"},{42601,"Ll"},{42602,"Lu"},{42603,"Ll"},{42604,"Lu"},{42605,"Ll"},{42606,"Lo"},{42607,"Mn"},{42608,"Me"},{42611,"Po"},{42612,"Mn"},{42622,"Po"},{42623,"Lm"},{42624,"Lu"},{42625,"Ll"},{42626,"Lu"},{42627,"Ll"},{42628,"Lu"},{42629,"Ll"},{42630,"Lu"},{42631,"Ll"},{42632,"Lu"},{42633,"Ll"},{42634,"Lu"},{42635,"Ll"},{42636,"Lu"},{42637,"Ll"},{42638,"Lu"},{42639,"Ll"},{42640,"Lu"},{42641,"Ll"},{42642,"Lu"},{42643,"Ll"},{42644,"Lu"},{42645,"Ll"},{42646,"Lu"},{42647,"Ll"},{42648,"Lu"},{42649,"Ll"},{42650,"Lu"},{42651,"Ll"},{42652,"Lm"},{42654,"Mn"},{42656,"Lo"},{42726,"Nl"},{42736,"Mn"},{42738,"Po"},{42744,"Cn"},{42752,"Sk"},{42775,"Lm"},{42784,"Sk"},{42786,"Lu"},{42787,"Ll"},{42788,"Lu"},{42789,"Ll"},{42790,"Lu"},{42791,"Ll"},{42792,"Lu"},{42793,"Ll"},{42794,"Lu"},{42795,"Ll"},{42796,"Lu"},{42797,"Ll"},{42798,"Lu"},{42799,"Ll"},{42802,"Lu"},{42803,"Ll"},{42804,"Lu"},{42805,"Ll"},{42806,"Lu"},{42807,"Ll"},{42808,"Lu"},{42809,"Ll"},{42810,"Lu"},{42811,"Ll"},{42812,"Lu"},{42813,"Ll"},{42814,"Lu"},{42815,"Ll"},{42816,"Lu"},{42817,"Ll"},{42818,"Lu"},{42819,"Ll"},{42820,"Lu"},{42821,"Ll"},{42822,"Lu"},{42823,"Ll"},{42824,"Lu"},{42825,"Ll"},{42826,"Lu"},{42827,"Ll"},{42828,"Lu"},{42829,"Ll"},{42830,"Lu"},{42831,"Ll"},{42832,"Lu"},{42833,"Ll"},{42834,"Lu"},{42835,"Ll"},{42836,"Lu"},{42837,"Ll"},{42838,"Lu"},{42839,"Ll"},{42840,"Lu"},{42841,"Ll"},{42842,"Lu"},{42843,"Ll"},{42844,"Lu"},{42845,"Ll"},{42846,"Lu"},{42847,"Ll"},{42848,"Lu"},{42849,"Ll"},{42850,"Lu"},{42851,"Ll"},{42852,"Lu"},{42853,"Ll"},{42854,"Lu"},{42855,"Ll"},{42856,"Lu"},{42857,"Ll"},{42858,"Lu"},{42859,"Ll"},{42860,"Lu"},{42861,"Ll"},{42862,"Lu"},{42863,"Ll"},{42864,"Lm"},{42865,"Ll"},{42873,"Lu"},{42874,"Ll"},{42875,"Lu"},{42876,"Ll"},{42877,"Lu"},{42879,"Ll"},{42880,"Lu"},{42881,"Ll"},{42882,"Lu"},{42883,"Ll"},{42884,"Lu"},{42885,"Ll"},{42886,"Lu"},{42887,"Ll"},{42888,"Lm"},{42889,"Sk"},{42891,"Lu"},{42892,"Ll"},{42893,"Lu"},{42894,"Ll"},{42895,"Lo"},{42896,"Lu"},{42897,"Ll"},{42898,"Lu"},{42899,"Ll"},{42902,"Lu"},{42903,"Ll"},{42904,"Lu"},{42905,"Ll"},{42906,"Lu"},{42907,"Ll"},{42908,"Lu"},{42909,"Ll"},{42910,"Lu"},{42911,"Ll"},{42912,"Lu"},{42913,"Ll"},{42914,"Lu"},{42915,"Ll"},{42916,"Lu"},{42917,"Ll"},{42918,"Lu"},{42919,"Ll"},{42920,"Lu"},{42921,"Ll"},{42922,"Lu"},{42927,"Ll"},{42928,"Lu"},{42933,"Ll"},{42934,"Lu"},{42935,"Ll"},{42936,"Lu"},{42937,"Ll"},{42938,"Lu"},{42939,"Ll"},{42940,"Lu"},{42941,"Ll"},{42942,"Lu"},{42943,"Ll"},{42944,"Lu"},{42945,"Ll"},{42946,"Lu"},{42947,"Ll"},{42948,"Lu"},{42952,"Ll"},{42953,"Lu"},{42954,"Ll"},{42955,"Cn"},{42960,"Lu"},{42961,"Ll"},{42962,"Cn"},{42963,"Ll"},{42964,"Cn"},{42965,"Ll"},{42966,"Lu"},{42967,"Ll"},{42968,"Lu"},{42969,"Ll"},{42970,"Cn"},{42994,"Lm"},{42997,"Lu"},{42998,"Ll"},{42999,"Lo"},{43000,"Lm"},{43002,"Ll"},{43003,"Lo"},{43010,"Mn"},{43011,"Lo"},{43014,"Mn"},{43015,"Lo"},{43019,"Mn"},{43020,"Lo"},{43043,"Mc"},{43045,"Mn"},{43047,"Mc"},{43048,"So"},{43052,"Mn"},{43053,"Cn"},{43056,"No"},{43062,"So"},{43064,"Sc"},{43065,"So"},{43066,"Cn"},{43072,"Lo"},{43124,"Po"},{43128,"Cn"},{43136,"Mc"},{43138,"Lo"},{43188,"Mc"},{43204,"Mn"},{43206,"Cn"},{43214,"Po"},{43216,"Nd"},{43226,"Cn"},{43232,"Mn"},{43250,"Lo"},{43256,"Po"},{43259,"Lo"},{43260,"Po"},{43261,"Lo"},{43263,"Mn"},{43264,"Nd"},{43274,"Lo"},{43302,"Mn"},{43310,"Po"},{43312,"Lo"},{43335,"Mn"},{43346,"Mc"},{43348,"Cn"},{43359,"Po"},{43360,"Lo"},{43389,"Cn"},{43392,"Mn"},{43395,"Mc"},{43396,"Lo"},{43443,"Mn"},{43444,"Mc"},{43446,"Mn"},{43450,"Mc"},{43452,"Mn"},{43454,"Mc"},{43457,"Po"},{43470,"Cn"},{43471,"Lm"},{43472,"Nd"},{43482,"Cn"},{43486,"Po"},{43488,"Lo"},{43493,"Mn"},{43494,"Lm"},{43495,"Lo"},{43504,"Nd"},{43514,"Lo"},{43519,"Cn"},{43520,"Lo"},{43561,"Mn"},{43567,"Mc"},{43569,"Mn"},{43571,"Mc"},{43573,"Mn"},{43575,"Cn"},{43584,"Lo"},{43587,"Mn"},{43588,"Lo"},{43596,"Mn"},{43597,"Mc"},{43598,"Cn"},{43600,"Nd"},{43610,"Cn"},{43612,"Po"},{43616,"Lo"},{43632,"Lm"},{43633,"Lo"},{43639,"So"},{43642,"Lo"},{43643,"Mc"},{43644,"Mn"},{43645,"Mc"},{43646,"Lo"},{43696,"Mn"},{43697,"Lo"},{43698,"Mn"},{43701,"Lo"},{43703,"Mn"},{43705,"Lo"},{43710,"Mn"},{43712,"Lo"},{43713,"Mn"},{43714,"Lo"},{43715,"Cn"},{43739,"Lo"},{43741,"Lm"},{43742,"Po"},{43744,"Lo"},{43755,"Mc"},{43756,"Mn"},{43758,"Mc"},{43760,"Po"},{43762,"Lo"},{43763,"Lm"},{43765,"Mc"},{43766,"Mn"},{43767,"Cn"},{43777,"Lo"},{43783,"Cn"},{43785,"Lo"},{43791,"Cn"},{43793,"Lo"},{43799,"Cn"},{43808,"Lo"},{43815,"Cn"},{43816,"Lo"},{43823,"Cn"},{43824,"Ll"},{43867,"Sk"},{43868,"Lm"},{43872,"Ll"},{43881,"Lm"},{43882,"Sk"},{43884,"Cn"},{43888,"Ll"},{43968,"Lo"},{44003,"Mc"},{44005,"Mn"},{44006,"Mc"},{44008,"Mn"},{44009,"Mc"},{44011,"Po"},{44012,"Mc"},{44013,"Mn"},{44014,"Cn"},{44016,"Nd"},{44026,"Cn"},{44032,"Lo"},{55204,"Cn"},{55216,"Lo"},{55239,"Cn"},{55243,"Lo"},{55292,"Cn"},{55296,"Cs"},{57344,"Co"},{63744,"Lo"},{64110,"Cn"},{64112,"Lo"},{64218,"Cn"},{64256,"Ll"},{64263,"Cn"},{64275,"Ll"},{64280,"Cn"},{64285,"Lo"},{64286,"Mn"},{64287,"Lo"},{64297,"Sm"},{64298,"Lo"},{64311,"Cn"},{64312,"Lo"},{64317,"Cn"},{64318,"Lo"},{64319,"Cn"},{64320,"Lo"},{64322,"Cn"},{64323,"Lo"},{64325,"Cn"},{64326,"Lo"},{64434,"Sk"},{64451,"Cn"},{64467,"Lo"},{64830,"Pe"},{64831,"Ps"},{64832,"So"},{64848,"Lo"},{64912,"Cn"},{64914,"Lo"},{64968,"Cn"},{64975,"So"},{64976,"Cn"},{65008,"Lo"},{65020,"Sc"},{65021,"So"},{65024,"Mn"},{65040,"Po"},{65047,"Ps"},{65048,"Pe"},{65049,"Po"},{65050,"Cn"},{65056,"Mn"},{65072,"Po"},{65073,"Pd"},{65075,"Pc"},{65077,"Ps"},{65078,"Pe"},{65079,"Ps"},{65080,"Pe"},{65081,"Ps"},{65082,"Pe"},{65083,"Ps"},{65084,"Pe"},{65085,"Ps"},{65086,"Pe"},{65087,"Ps"},{65088,"Pe"},{65089,"Ps"},{65090,"Pe"},{65091,"Ps"},{65092,"Pe"},{65093,"Po"},{65095,"Ps"},{65096,"Pe"},{65097,"Po"},{65101,"Pc"},{65104,"Po"},{65107,"Cn"},{65108,"Po"},{65112,"Pd"},{65113,"Ps"},{65114,"Pe"},{65115,"Ps"},{65116,"Pe"},{65117,"Ps"},{65118,"Pe"},{65119,"Po"},{65122,"Sm"},{65123,"Pd"},{65124,"Sm"},{65127,"Cn"},{65128,"Po"},{65129,"Sc"},{65130,"Po"},{65132,"Cn"},{65136,"Lo"},{65141,"Cn"},{65142,"Lo"},{65277,"Cn"},{65279,"Cf"},{65280,"Cn"},{65281,"Po"},{65284,"Sc"},{65285,"Po"},{65288,"Ps"},{65289,"Pe"},{65290,"Po"},{65291,"Sm"},{65292,"Po"},{65293,"Pd"},{65294,"Po"},{65296,"Nd"},{65306,"Po"},{65308,"Sm"},{65311,"Po"},{65313,"Lu"},{65339,"Ps"},{65340,"Po"},{65341,"Pe"},{65342,"Sk"},{65343,"Pc"},{65344,"Sk"},{65345,"Ll"},{65371,"Ps"},{65372,"Sm"},{65373,"Pe"},{65374,"Sm"},{65375,"Ps"},{65376,"Pe"},{65377,"Po"},{65378,"Ps"},{65379,"Pe"},{65380,"Po"},{65382,"Lo"},{65392,"Lm"},{65393,"Lo"},{65438,"Lm"},{65440,"Lo"},{65471,"Cn"},{65474,"Lo"},{65480,"Cn"},{65482,"Lo"},{65488,"Cn"},{65490,"Lo"},{65496,"Cn"},{65498,"Lo"},{65501,"Cn"},{65504,"Sc"},{65506,"Sm"},{65507,"Sk"},{65508,"So"},{65509,"Sc"},{65511,"Cn"},{65512,"So"},{65513,"Sm"},{65517,"So"},{65519,"Cn"},{65529,"Cf"},{65532,"So"},{65534,"Cn"},{65536,"Lo"},{65548,"Cn"},{65549,"Lo"},{65575,"Cn"},{65576,"Lo"},{65595,"Cn"},{65596,"Lo"},{65598,"Cn"},{65599,"Lo"},{65614,"Cn"},{65616,"Lo"},{65630,"Cn"},{65664,"Lo"},{65787,"Cn"},{65792,"Po"},{65795,"Cn"},{65799,"No"},{65844,"Cn"},{65847,"So"},{65856,"Nl"},{65909,"No"},{65913,"So"},{65930,"No"},{65932,"So"},{65935,"Cn"},{65936,"So"},{65949,"Cn"},{65952,"So"},{65953,"Cn"},{66000,"So"},{66045,"Mn"},{66046,"Cn"},{66176,"Lo"},{66205,"Cn"},{66208,"Lo"},{66257,"Cn"},{66272,"Mn"},{66273,"No"},{66300,"Cn"},{66304,"Lo"},{66336,"No"},{66340,"Cn"},{66349,"Lo"},{66369,"Nl"},{66370,"Lo"},{66378,"Nl"},{66379,"Cn"},{66384,"Lo"},{66422,"Mn"},{66427,"Cn"},{66432,"Lo"},{66462,"Cn"},{66463,"Po"},{66464,"Lo"},{66500,"Cn"},{66504,"Lo"},{66512,"Po"},{66513,"Nl"},{66518,"Cn"},{66560,"Lu"},{66600,"Ll"},{66640,"Lo"},{66718,"Cn"},{66720,"Nd"},{66730,"Cn"},{66736,"Lu"},{66772,"Cn"},{66776,"Ll"},{66812,"Cn"},{66816,"Lo"},{66856,"Cn"},{66864,"Lo"},{66916,"Cn"},{66927,"Po"},{66928,"Lu"},{66939,"Cn"},{66940,"Lu"},{66955,"Cn"},{66956,"Lu"},{66963,"Cn"},{66964,"Lu"},{66966,"Cn"},{66967,"Ll"},{66978,"Cn"},{66979,"Ll"},{66994,"Cn"},{66995,"Ll"},{67002,"Cn"},{67003,"Ll"},{67005,"Cn"},{67072,"Lo"},{67383,"Cn"},{67392,"Lo"},{67414,"Cn"},{67424,"Lo"},{67432,"Cn"},{67456,"Lm"},{67462,"Cn"},{67463,"Lm"},{67505,"Cn"},{67506,"Lm"},{67515,"Cn"},{67584,"Lo"},{67590,"Cn"},{67592,"Lo"},{67593,"Cn"},{67594,"Lo"},{67638,"Cn"},{67639,"Lo"},{67641,"Cn"},{67644,"Lo"},{67645,"Cn"},{67647,"Lo"},{67670,"Cn"},{67671,"Po"},{67672,"No"},{67680,"Lo"},{67703,"So"},{67705,"No"},{67712,"Lo"},{67743,"Cn"},{67751,"No"},{67760,"Cn"},{67808,"Lo"},{67827,"Cn"},{67828,"Lo"},{67830,"Cn"},{67835,"No"},{67840,"Lo"},{67862,"No"},{67868,"Cn"},{67871,"Po"},{67872,"Lo"},{67898,"Cn"},{67903,"Po"},{67904,"Cn"},{67968,"Lo"},{68024,"Cn"},{68028,"No"},{68030,"Lo"},{68032,"No"},{68048,"Cn"},{68050,"No"},{68096,"Lo"},{68097,"Mn"},{68100,"Cn"},{68101,"Mn"},{68103,"Cn"},{68108,"Mn"},{68112,"Lo"},{68116,"Cn"},{68117,"Lo"},{68120,"Cn"},{68121,"Lo"},{68150,"Cn"},{68152,"Mn"},{68155,"Cn"},{68159,"Mn"},{68160,"No"},{68169,"Cn"},{68176,"Po"},{68185,"Cn"},{68192,"Lo"},{68221,"No"},{68223,"Po"},{68224,"Lo"},{68253,"No"},{68256,"Cn"},{68288,"Lo"},{68296,"So"},{68297,"Lo"},{68325,"Mn"},{68327,"Cn"},{68331,"No"},{68336,"Po"},{68343,"Cn"},{68352,"Lo"},{68406,"Cn"},{68409,"Po"},{68416,"Lo"},{68438,"Cn"},{68440,"No"},{68448,"Lo"},{68467,"Cn"},{68472,"No"},{68480,"Lo"},{68498,"Cn"},{68505,"Po"},{68509,"Cn"},{68521,"No"},{68528,"Cn"},{68608,"Lo"},{68681,"Cn"},{68736,"Lu"},{68787,"Cn"},{68800,"Ll"},{68851,"Cn"},{68858,"No"},{68864,"Lo"},{68900,"Mn"},{68904,"Cn"},{68912,"Nd"},{68922,"Cn"},{69216,"No"},{69247,"Cn"},{69248,"Lo"},{69290,"Cn"},{69291,"Mn"},{69293,"Pd"},{69294,"Cn"},{69296,"Lo"},{69298,"Cn"},{69373,"Mn"},{69376,"Lo"},{69405,"No"},{69415,"Lo"},{69416,"Cn"},{69424,"Lo"},{69446,"Mn"},{69457,"No"},{69461,"Po"},{69466,"Cn"},{69488,"Lo"},{69506,"Mn"},{69510,"Po"},{69514,"Cn"},{69552,"Lo"},{69573,"No"},{69580,"Cn"},{69600,"Lo"},{69623,"Cn"},{69632,"Mc"},{69633,"Mn"},{69634,"Mc"},{69635,"Lo"},{69688,"Mn"},{69703,"Po"},{69710,"Cn"},{69714,"No"},{69734,"Nd"},{69744,"Mn"},{69745,"Lo"},{69747,"Mn"},{69749,"Lo"},{69750,"Cn"},{69759,"Mn"},{69762,"Mc"},{69763,"Lo"},{69808,"Mc"},{69811,"Mn"},{69815,"Mc"},{69817,"Mn"},{69819,"Po"},{69821,"Cf"},{69822,"Po"},{69826,"Mn"},{69827,"Cn"},{69837,"Cf"},{69838,"Cn"},{69840,"Lo"},{69865,"Cn"},{69872,"Nd"},{69882,"Cn"},{69888,"Mn"},{69891,"Lo"},{69927,"Mn"},{69932,"Mc"},{69933,"Mn"},{69941,"Cn"},{69942,"Nd"},{69952,"Po"},{69956,"Lo"},{69957,"Mc"},{69959,"Lo"},{69960,"Cn"},{69968,"Lo"},{70003,"Mn"},{70004,"Po"},{70006,"Lo"},{70007,"Cn"},{70016,"Mn"},{70018,"Mc"},{70019,"Lo"},{70067,"Mc"},{70070,"Mn"},{70079,"Mc"},{70081,"Lo"},{70085,"Po"},{70089,"Mn"},{70093,"Po"},{70094,"Mc"},{70095,"Mn"},{70096,"Nd"},{70106,"Lo"},{70107,"Po"},{70108,"Lo"},{70109,"Po"},{70112,"Cn"},{70113,"No"},{70133,"Cn"},{70144,"Lo"},{70162,"Cn"},{70163,"Lo"},{70188,"Mc"},{70191,"Mn"},{70194,"Mc"},{70196,"Mn"},{70197,"Mc"},{70198,"Mn"},{70200,"Po"},{70206,"Mn"},{70207,"Lo"},{70209,"Mn"},{70210,"Cn"},{70272,"Lo"},{70279,"Cn"},{70280,"Lo"},{70281,"Cn"},{70282,"Lo"},{70286,"Cn"},{70287,"Lo"},{70302,"Cn"},{70303,"Lo"},{70313,"Po"},{70314,"Cn"},{70320,"Lo"},{70367,"Mn"},{70368,"Mc"},{70371,"Mn"},{70379,"Cn"},{70384,"Nd"},{70394,"Cn"},{70400,"Mn"},{70402,"Mc"},{70404,"Cn"},{70405,"Lo"},{70413,"Cn"},{70415,"Lo"},{70417,"Cn"},{70419,"Lo"},{70441,"Cn"},{70442,"Lo"},{70449,"Cn"},{70450,"Lo"},{70452,"Cn"},{70453,"Lo"},{70458,"Cn"},{70459,"Mn"},{70461,"Lo"},{70462,"Mc"},{70464,"Mn"},{70465,"Mc"},{70469,"Cn"},{70471,"Mc"},{70473,"Cn"},{70475,"Mc"},{70478,"Cn"},{70480,"Lo"},{70481,"Cn"},{70487,"Mc"},{70488,"Cn"},{70493,"Lo"},{70498,"Mc"},{70500,"Cn"},{70502,"Mn"},{70509,"Cn"},{70512,"Mn"},{70517,"Cn"},{70656,"Lo"},{70709,"Mc"},{70712,"Mn"},{70720,"Mc"},{70722,"Mn"},{70725,"Mc"},{70726,"Mn"},{70727,"Lo"},{70731,"Po"},{70736,"Nd"},{70746,"Po"},{70748,"Cn"},{70749,"Po"},{70750,"Mn"},{70751,"Lo"},{70754,"Cn"},{70784,"Lo"},{70832,"Mc"},{70835,"Mn"},{70841,"Mc"},{70842,"Mn"},{70843,"Mc"},{70847,"Mn"},{70849,"Mc"},{70850,"Mn"},{70852,"Lo"},{70854,"Po"},{70855,"Lo"},{70856,"Cn"},{70864,"Nd"},{70874,"Cn"},{71040,"Lo"},{71087,"Mc"},{71090,"Mn"},{71094,"Cn"},{71096,"Mc"},{71100,"Mn"},{71102,"Mc"},{71103,"Mn"},{71105,"Po"},{71128,"Lo"},{71132,"Mn"},{71134,"Cn"},{71168,"Lo"},{71216,"Mc"},{71219,"Mn"},{71227,"Mc"},{71229,"Mn"},{71230,"Mc"},{71231,"Mn"},{71233,"Po"},{71236,"Lo"},{71237,"Cn"},{71248,"Nd"},{71258,"Cn"},{71264,"Po"},{71277,"Cn"},{71296,"Lo"},{71339,"Mn"},{71340,"Mc"},{71341,"Mn"},{71342,"Mc"},{71344,"Mn"},{71350,"Mc"},{71351,"Mn"},{71352,"Lo"},{71353,"Po"},{71354,"Cn"},{71360,"Nd"},{71370,"Cn"},{71424,"Lo"},{71451,"Cn"},{71453,"Mn"},{71456,"Mc"},{71458,"Mn"},{71462,"Mc"},{71463,"Mn"},{71468,"Cn"},{71472,"Nd"},{71482,"No"},{71484,"Po"},{71487,"So"},{71488,"Lo"},{71495,"Cn"},{71680,"Lo"},{71724,"Mc"},{71727,"Mn"},{71736,"Mc"},{71737,"Mn"},{71739,"Po"},{71740,"Cn"},{71840,"Lu"},{71872,"Ll"},{71904,"Nd"},{71914,"No"},{71923,"Cn"},{71935,"Lo"},{71943,"Cn"},{71945,"Lo"},{71946,"Cn"},{71948,"Lo"},{71956,"Cn"},{71957,"Lo"},{71959,"Cn"},{71960,"Lo"},{71984,"Mc"},{71990,"Cn"},{71991,"Mc"},{71993,"Cn"},{71995,"Mn"},{71997,"Mc"},{71998,"Mn"},{71999,"Lo"},{72000,"Mc"},{72001,"Lo"},{72002,"Mc"},{72003,"Mn"},{72004,"Po"},{72007,"Cn"},{72016,"Nd"},{72026,"Cn"},{72096,"Lo"},{72104,"Cn"},{72106,"Lo"},{72145,"Mc"},{72148,"Mn"},{72152,"Cn"},{72154,"Mn"},{72156,"Mc"},{72160,"Mn"},{72161,"Lo"},{72162,"Po"},{72163,"Lo"},{72164,"Mc"},{72165,"Cn"},{72192,"Lo"},{72193,"Mn"},{72203,"Lo"},{72243,"Mn"},{72249,"Mc"},{72250,"Lo"},{72251,"Mn"},{72255,"Po"},{72263,"Mn"},{72264,"Cn"},{72272,"Lo"},{72273,"Mn"},{72279,"Mc"},{72281,"Mn"},{72284,"Lo"},{72330,"Mn"},{72343,"Mc"},{72344,"Mn"},{72346,"Po"},{72349,"Lo"},{72350,"Po"},{72355,"Cn"},{72368,"Lo"},{72441,"Cn"},{72448,"Po"},{72458,"Cn"},{72704,"Lo"},{72713,"Cn"},{72714,"Lo"},{72751,"Mc"},{72752,"Mn"},{72759,"Cn"},{72760,"Mn"},{72766,"Mc"},{72767,"Mn"},{72768,"Lo"},{72769,"Po"},{72774,"Cn"},{72784,"Nd"},{72794,"No"},{72813,"Cn"},{72816,"Po"},{72818,"Lo"},{72848,"Cn"},{72850,"Mn"},{72872,"Cn"},{72873,"Mc"},{72874,"Mn"},{72881,"Mc"},{72882,"Mn"},{72884,"Mc"},{72885,"Mn"},{72887,"Cn"},{72960,"Lo"},{72967,"Cn"},{72968,"Lo"},{72970,"Cn"},{72971,"Lo"},{73009,"Mn"},{73015,"Cn"},{73018,"Mn"},{73019,"Cn"},{73020,"Mn"},{73022,"Cn"},{73023,"Mn"},{73030,"Lo"},{73031,"Mn"},{73032,"Cn"},{73040,"Nd"},{73050,"Cn"},{73056,"Lo"},{73062,"Cn"},{73063,"Lo"},{73065,"Cn"},{73066,"Lo"},{73098,"Mc"},{73103,"Cn"},{73104,"Mn"},{73106,"Cn"},{73107,"Mc"},{73109,"Mn"},{73110,"Mc"},{73111,"Mn"},{73112,"Lo"},{73113,"Cn"},{73120,"Nd"},{73130,"Cn"},{73440,"Lo"},{73459,"Mn"},{73461,"Mc"},{73463,"Po"},{73465,"Cn"},{73472,"Mn"},{73474,"Lo"},{73475,"Mc"},{73476,"Lo"},{73489,"Cn"},{73490,"Lo"},{73524,"Mc"},{73526,"Mn"},{73531,"Cn"},{73534,"Mc"},{73536,"Mn"},{73537,"Mc"},{73538,"Mn"},{73539,"Po"},{73552,"Nd"},{73562,"Cn"},{73648,"Lo"},{73649,"Cn"},{73664,"No"},{73685,"So"},{73693,"Sc"},{73697,"So"},{73714,"Cn"},{73727,"Po"},{73728,"Lo"},{74650,"Cn"},{74752,"Nl"},{74863,"Cn"},{74864,"Po"},{74869,"Cn"},{74880,"Lo"},{75076,"Cn"},{77712,"Lo"},{77809,"Po"},{77811,"Cn"},{77824,"Lo"},{78896,"Cf"},{78912,"Mn"},{78913,"Lo"},{78919,"Mn"},{78934,"Cn"},{82944,"Lo"},{83527,"Cn"},{92160,"Lo"},{92729,"Cn"},{92736,"Lo"},{92767,"Cn"},{92768,"Nd"},{92778,"Cn"},{92782,"Po"},{92784,"Lo"},{92863,"Cn"},{92864,"Nd"},{92874,"Cn"},{92880,"Lo"},{92910,"Cn"},{92912,"Mn"},{92917,"Po"},{92918,"Cn"},{92928,"Lo"},{92976,"Mn"},{92983,"Po"},{92988,"So"},{92992,"Lm"},{92996,"Po"},{92997,"So"},{92998,"Cn"},{93008,"Nd"},{93018,"Cn"},{93019,"No"},{93026,"Cn"},{93027,"Lo"},{93048,"Cn"},{93053,"Lo"},{93072,"Cn"},{93760,"Lu"},{93792,"Ll"},{93824,"No"},{93847,"Po"},{93851,"Cn"},{93952,"Lo"},{94027,"Cn"},{94031,"Mn"},{94032,"Lo"},{94033,"Mc"},{94088,"Cn"},{94095,"Mn"},{94099,"Lm"},{94112,"Cn"},{94176,"Lm"},{94178,"Po"},{94179,"Lm"},{94180,"Mn"},{94181,"Cn"},{94192,"Mc"},{94194,"Cn"},{94208,"Lo"},{100344,"Cn"},{100352,"Lo"},{101590,"Cn"},{101632,"Lo"},{101641,"Cn"},{110576,"Lm"},{110580,"Cn"},{110581,"Lm"},{110588,"Cn"},{110589,"Lm"},{110591,"Cn"},{110592,"Lo"},{110883,"Cn"},{110898,"Lo"},{110899,"Cn"},{110928,"Lo"},{110931,"Cn"},{110933,"Lo"},{110934,"Cn"},{110948,"Lo"},{110952,"Cn"},{110960,"Lo"},{111356,"Cn"},{113664,"Lo"},{113771,"Cn"},{113776,"Lo"},{113789,"Cn"},{113792,"Lo"},{113801,"Cn"},{113808,"Lo"},{113818,"Cn"},{113820,"So"},{113821,"Mn"},{113823,"Po"},{113824,"Cf"},{113828,"Cn"},{118528,"Mn"},{118574,"Cn"},{118576,"Mn"},{118599,"Cn"},{118608,"So"},{118724,"Cn"},{118784,"So"},{119030,"Cn"},{119040,"So"},{119079,"Cn"},{119081,"So"},{119141,"Mc"},{119143,"Mn"},{119146,"So"},{119149,"Mc"},{119155,"Cf"},{119163,"Mn"},{119171,"So"},{119173,"Mn"},{119180,"So"},{119210,"Mn"},{119214,"So"},{119275,"Cn"},{119296,"So"},{119362,"Mn"},{119365,"So"},{119366,"Cn"},{119488,"No"},{119508,"Cn"},{119520,"No"},{119540,"Cn"},{119552,"So"},{119639,"Cn"},{119648,"No"},{119673,"Cn"},{119808,"Lu"},{119834,"Ll"},{119860,"Lu"},{119886,"Ll"},{119893,"Cn"},{119894,"Ll"},{119912,"Lu"},{119938,"Ll"},{119964,"Lu"},{119965,"Cn"},{119966,"Lu"},{119968,"Cn"},{119970,"Lu"},{119971,"Cn"},{119973,"Lu"},{119975,"Cn"},{119977,"Lu"},{119981,"Cn"},{119982,"Lu"},{119990,"Ll"},{119994,"Cn"},{119995,"Ll"},{119996,"Cn"},{119997,"Ll"},{120004,"Cn"},{120005,"Ll"},{120016,"Lu"},{120042,"Ll"},{120068,"Lu"},{120070,"Cn"},{120071,"Lu"},{120075,"Cn"},{120077,"Lu"},{120085,"Cn"},{120086,"Lu"},{120093,"Cn"},{120094,"Ll"},{120120,"Lu"},{120122,"Cn"},{120123,"Lu"},{120127,"Cn"},{120128,"Lu"},{120133,"Cn"},{120134,"Lu"},{120135,"Cn"},{120138,"Lu"},{120145,"Cn"},{120146,"Ll"},{120172,"Lu"},{120198,"Ll"},{120224,"Lu"},{120250,"Ll"},{120276,"Lu"},{120302,"Ll"},{120328,"Lu"},{120354,"Ll"},{120380,"Lu"},{120406,"Ll"},{120432,"Lu"},{120458,"Ll"},{120486,"Cn"},{120488,"Lu"},{120513,"Sm"},{120514,"Ll"},{120539,"Sm"},{120540,"Ll"},{120546,"Lu"},{120571,"Sm"},{120572,"Ll"},{120597,"Sm"},{120598,"Ll"},{120604,"Lu"},{120629,"Sm"},{120630,"Ll"},{120655,"Sm"},{120656,"Ll"},{120662,"Lu"},{120687,"Sm"},{120688,"Ll"},{120713,"Sm"},{120714,"Ll"},{120720,"Lu"},{120745,"Sm"},{120746,"Ll"},{120771,"Sm"},{120772,"Ll"},{120778,"Lu"},{120779,"Ll"},{120780,"Cn"},{120782,"Nd"},{120832,"So"},{121344,"Mn"},{121399,"So"},{121403,"Mn"},{121453,"So"},{121461,"Mn"},{121462,"So"},{121476,"Mn"},{121477,"So"},{121479,"Po"},{121484,"Cn"},{121499,"Mn"},{121504,"Cn"},{121505,"Mn"},{121520,"Cn"},{122624,"Ll"},{122634,"Lo"},{122635,"Ll"},{122655,"Cn"},{122661,"Ll"},{122667,"Cn"},{122880,"Mn"},{122887,"Cn"},{122888,"Mn"},{122905,"Cn"},{122907,"Mn"},{122914,"Cn"},{122915,"Mn"},{122917,"Cn"},{122918,"Mn"},{122923,"Cn"},{122928,"Lm"},{122990,"Cn"},{123023,"Mn"},{123024,"Cn"},{123136,"Lo"},{123181,"Cn"},{123184,"Mn"},{123191,"Lm"},{123198,"Cn"},{123200,"Nd"},{123210,"Cn"},{123214,"Lo"},{123215,"So"},{123216,"Cn"},{123536,"Lo"},{123566,"Mn"},{123567,"Cn"},{123584,"Lo"},{123628,"Mn"},{123632,"Nd"},{123642,"Cn"},{123647,"Sc"},{123648,"Cn"},{124112,"Lo"},{124139,"Lm"},{124140,"Mn"},{124144,"Nd"},{124154,"Cn"},{124896,"Lo"},{124903,"Cn"},{124904,"Lo"},{124908,"Cn"},{124909,"Lo"},{124911,"Cn"},{124912,"Lo"},{124927,"Cn"},{124928,"Lo"},{125125,"Cn"},{125127,"No"},{125136,"Mn"},{125143,"Cn"},{125184,"Lu"},{125218,"Ll"},{125252,"Mn"},{125259,"Lm"},{125260,"Cn"},{125264,"Nd"},{125274,"Cn"},{125278,"Po"},{125280,"Cn"},{126065,"No"},{126124,"So"},{126125,"No"},{126128,"Sc"},{126129,"No"},{126133,"Cn"},{126209,"No"},{126254,"So"},{126255,"No"},{126270,"Cn"},{126464,"Lo"},{126468,"Cn"},{126469,"Lo"},{126496,"Cn"},{126497,"Lo"},{126499,"Cn"},{126500,"Lo"},{126501,"Cn"},{126503,"Lo"},{126504,"Cn"},{126505,"Lo"},{126515,"Cn"},{126516,"Lo"},{126520,"Cn"},{126521,"Lo"},{126522,"Cn"},{126523,"Lo"},{126524,"Cn"},{126530,"Lo"},{126531,"Cn"},{126535,"Lo"},{126536,"Cn"},{126537,"Lo"},{126538,"Cn"},{126539,"Lo"},{126540,"Cn"},{126541,"Lo"},{126544,"Cn"},{126545,"Lo"},{126547,"Cn"},{126548,"Lo"},{126549,"Cn"},{126551,"Lo"},{126552,"Cn"},{126553,"Lo"},{126554,"Cn"},{126555,"Lo"},{126556,"Cn"},{126557,"Lo"},{126558,"Cn"},{126559,"Lo"},{126560,"Cn"},{126561,"Lo"},{126563,"Cn"},{126564,"Lo"},{126565,"Cn"},{126567,"Lo"},{126571,"Cn"},{126572,"Lo"},{126579,"Cn"},{126580,"Lo"},{126584,"Cn"},{126585,"Lo"},{126589,"Cn"},{126590,"Lo"},{126591,"Cn"},{126592,"Lo"},{126602,"Cn"},{126603,"Lo"},{126620,"Cn"},{126625,"Lo"},{126628,"Cn"},{126629,"Lo"},{126634,"Cn"},{126635,"Lo"},{126652,"Cn"},{126704,"Sm"},{126706,"Cn"},{126976,"So"},{127020,"Cn"},{127024,"So"},{127124,"Cn"},{127136,"So"},{127151,"Cn"},{127153,"So"},{127168,"Cn"},{127169,"So"},{127184,"Cn"},{127185,"So"},{127222,"Cn"},{127232,"No"},{127245,"So"},{127406,"Cn"},{127462,"So"},{127491,"Cn"},{127504,"So"},{127548,"Cn"},{127552,"So"},{127561,"Cn"},{127568,"So"},{127570,"Cn"},{127584,"So"},{127590,"Cn"},{127744,"So"},{127995,"Sk"},{128000,"So"},{128728,"Cn"},{128732,"So"},{128749,"Cn"},{128752,"So"},{128765,"Cn"},{128768,"So"},{128887,"Cn"},{128891,"So"},{128986,"Cn"},{128992,"So"},{129004,"Cn"},{129008,"So"},{129009,"Cn"},{129024,"So"},{129036,"Cn"},{129040,"So"},{129096,"Cn"},{129104,"So"},{129114,"Cn"},{129120,"So"},{129160,"Cn"},{129168,"So"},{129198,"Cn"},{129200,"So"},{129202,"Cn"},{129280,"So"},{129620,"Cn"},{129632,"So"},{129646,"Cn"},{129648,"So"},{129661,"Cn"},{129664,"So"},{129673,"Cn"},{129680,"So"},{129726,"Cn"},{129727,"So"},{129734,"Cn"},{129742,"So"},{129756,"Cn"},{129760,"So"},{129769,"Cn"},{129776,"So"},{129785,"Cn"},{129792,"So"},{129939,"Cn"},{129940,"So"},{129995,"Cn"},{130032,"Nd"},{130042,"Cn"},{131072,"Lo"},{173792,"Cn"},{173824,"Lo"},{177978,"Cn"},{177984,"Lo"},{178206,"Cn"},{178208,"Lo"},{183970,"Cn"},{183984,"Lo"},{191457,"Cn"},{194560,"Lo"},{195102,"Cn"},{196608,"Lo"},{201547,"Cn"},{201552,"Lo"},{205744,"Cn"},{917505,"Cf"},{917506,"Cn"},{917536,"Cf"},{917632,"Cn"},{917760,"Mn"},{918000,"Cn"},{983040,"Co"},{1048574,"Cn"},{1048576,"Co"},{1114110,"Cn"},{1114112,"Cn"},{0xFFFFFFFF,""}};
inline constexpr struct { uint32_t from, to, fold; } Scf[] = {{65,90,97},{181,181,956},{192,214,224},{216,222,248},{256,256,257},{258,258,259},{260,260,261},{262,262,263},{264,264,265},{266,266,267},{268,268,269},{270,270,271},{272,272,273},{274,274,275},{276,276,277},{278,278,279},{280,280,281},{282,282,283},{284,284,285},{286,286,287},{288,288,289},{290,290,291},{292,292,293},{294,294,295},{296,296,297},{298,298,299},{300,300,301},{302,302,303},{306,306,307},{308,308,309},{310,310,311},{313,313,314},{315,315,316},{317,317,318},{319,319,320},{321,321,322},{323,323,324},{325,325,326},{327,327,328},{330,330,331},{332,332,333},{334,334,335},{336,336,337},{338,338,339},{340,340,341},{342,342,343},{344,344,345},{346,346,347},{348,348,349},{350,350,351},{352,352,353},{354,354,355},{356,356,357},{358,358,359},{360,360,361},{362,362,363},{364,364,365},{366,366,367},{368,368,369},{370,370,371},{372,372,373},{374,374,375},{376,376,255},{377,377,378},{379,379,380},{381,381,382},{383,383,115},{385,385,595},{386,386,387},{388,388,389},{390,390,596},{391,391,392},{393,394,598},{395,395,396},{398,398,477},{399,399,601},{400,400,603},{401,401,402},{403,403,608},{404,404,611},{406,406,617},{407,407,616},{408,408,409},{412,412,623},{413,413,626},{415,415,629},{416,416,417},{418,418,419},{420,420,421},{422,422,640},{423,423,424},{425,425,643},{428,428,429},{430,430,648},{431,431,432},{433,434,650},{435,435,436},{437,437,438},{439,439,658},{440,440,441},{444,444,445},{452,452,454},{453,453,454},{455,455,457},{456,456,457},{458,458,460},{459,459,460},{461,461,462},{463,463,464},{465,465,466},{467,467,468},{469,469,470},{471,471,472},{473,473,474},{475,475,476},{478,478,479},{480,480,481},{482,482,483},{484,484,485},{486,486,487},{488,488,489},{490,490,491},{492,492,493},{494,494,495},{497,497,499},{498,498,499},{500,500,501},{502,502,405},{503,503,447},{504,504,505},{506,506,507},{508,508,509},{510,510,511},{512,512,513},{514,514,515},{516,516,517},{518,518,519},{520,520,521},{522,522,523},{524,524,525},{526,526,527},{528,528,529},{530,530,531},{532,532,533},{534,534,535},{536,536,537},{538,538,539},{540,540,541},{542,542,543},{544,544,414},{546,546,547},{548,548,549},{550,550,551},{552,552,553},{554,554,555},{556,556,557},{558,558,559},{560,560,561},{562,562,563},{570,570,11365},{571,571,572},{573,573,410},{574,574,11366},{577,577,578},{579,579,384},{580,580,649},{581,581,652},{582,582,583},{584,584,585},{586,586,587},{588,588,589},{590,590,591},{837,837,953},{880,880,881},{882,882,883},{886,886,887},{895,895,1011},{902,902,940},{904,906,941},{908,908,972},{910,911,973},{913,929,945},{931,939,963},{962,962,963},{975,975,983},{976,976,946},{977,977,952},{981,981,966},{982,982,960},{984,984,985},{986,986,987},{988,988,989},{990,990,991},{992,992,993},{994,994,995},{996,996,997},{998,998,999},{1000,1000,1001},{1002,1002,1003},{1004,1004,1005},{1006,1006,1007},{1008,1008,954},{1009,1009,961},{1012,1012,952},{1013,1013,949},{1015,1015,1016},{1017,1017,1010},{1018,1018,1019},{1021,1023,891},{1024,1039,1104},{1040,1071,1072},{1120,1120,1121},{1122,1122,1123},{1124,1124,1125},{1126,1126,1127},{1128,1128,1129},{1130,1130,1131},{1132,1132,1133},{1134,1134,1135},{1136,1136,1137},{1138,1138,1139},{1140,1140,1141},{1142,1142,1143},{1144,1144,1145},{1146,1146,1147},{1148,1148,1149},{1150,1150,1151},{1152,1152,1153},{1162,1162,1163},{1164,1164,1165},{1166,1166,1167},{1168,1168,1169},{1170,1170,1171},{1172,1172,1173},{1174,1174,1175},{1176,1176,1177},{1178,1178,1179},{1180,1180,1181},{1182,1182,1183},{1184,1184,1185},{1186,1186,1187},{1188,1188,1189},{1190,1190,1191},{1192,1192,1193},{1194,1194,1195},{1196,1196,1197},{1198,1198,1199},{1200,1200,1201},{1202,1202,1203},{1204,1204,1205},{1206,1206,1207},{1208,1208,1209},{1210,1210,1211},{1212,1212,1213},{1214,1214,1215},{1216,1216,1231},{1217,1217,1218},{1219,1219,1220},{1221,1221,1222},{1223,1223,1224},{1225,1225,1226},{1227,1227,1228},{1229,1229,1230},{1232,1232,1233},{1234,1234,1235},{1236,1236,1237},{1238,1238,1239},{1240,1240,1241},{1242,1242,1243},{1244,1244,1245},{1246,1246,1247},{1248,1248,1249},{1250,1250,1251},{1252,1252,1253},{1254,1254,1255},{1256,1256,1257},{1258,1258,1259},{1260,1260,1261},{1262,1262,1263},{1264,1264,1265},{1266,1266,1267},{1268,1268,1269},{1270,1270,1271},{1272,1272,1273},{1274,1274,1275},{1276,1276,1277},{1278,1278,1279},{1280,1280,1281},{1282,1282,1283},{1284,1284,1285},{1286,1286,1287},{1288,1288,1289},{1290,1290,1291},{1292,1292,1293},{1294,1294,1295},{1296,1296,1297},{1298,1298,1299},{1300,1300,1301},{1302,1302,1303},{1304,1304,1305},{1306,1306,1307},{1308,1308,1309},{1310,1310,1311},{1312,1312,1313},{1314,1314,1315},{1316,1316,1317},{1318,1318,1319},{1320,1320,1321},{1322,1322,1323},{1324,1324,1325},{1326,1326,1327},{1329,1366,1377},{4256,4293,11520},{4295,4295,11559},{4301,4301,11565},{5112,5117,5104},{7296,7296,1074},{7297,7297,1076},{7298,7298,1086},{7299,7300,1089},{7301,7301,1090},{7302,7302,1098},{7303,7303,1123},{7304,7304,42571},{7312,7354,4304},{7357,7359,4349},{7680,7680,7681},{7682,7682,7683},{7684,7684,7685},{7686,7686,7687},{7688,7688,7689},{7690,7690,7691},{7692,7692,7693},{7694,7694,7695},{7696,7696,7697},{7698,7698,7699},{7700,7700,7701},{7702,7702,7703},{7704,7704,7705},{7706,7706,7707},{7708,7708,7709},{7710,7710,7711},{7712,7712,7713},{7714,7714,7715},{7716,7716,7717},{7718,7718,7719},{7720,7720,7721},{7722,7722,7723},{7724,7724,7725},{7726,7726,7727},{7728,7728,7729},{7730,7730,7731},{7732,7732,7733},{7734,7734,7735},{7736,7736,7737},{7738,7738,7739},{7740,7740,7741},{7742,7742,7743},{7744,7744,7745},{7746,7746,7747},{7748,7748,7749},{7750,7750,7751},{7752,7752,7753},{7754,7754,7755},{7756,7756,7757},{7758,7758,7759},{7760,7760,7761},{7762,7762,7763},{7764,7764,7765},{7766,7766,7767},{7768,7768,7769},{7770,7770,7771},{7772,7772,7773},{7774,7774,7775},{7776,7776,7777},{7778,7778,7779},{7780,7780,7781},{7782,7782,7783},{7784,7784,7785},{7786,7786,7787},{7788,7788,7789},{7790,7790,7791},{7792,7792,7793},{7794,7794,7795},{7796,7796,7797},{7798,7798,7799},{7800,7800,7801},{7802,7802,7803},{7804,7804,7805},{7806,7806,7807},{7808,7808,7809},{7810,7810,7811},{7812,7812,7813},{7814,7814,7815},{7816,7816,7817},{7818,7818,7819},{7820,7820,7821},{7822,7822,7823},{7824,7824,7825},{7826,7826,7827},{7828,7828,7829},{7835,7835,7777},{7838,7838,223},{7840,7840,7841},{7842,7842,7843},{7844,7844,7845},{7846,7846,7847},{7848,7848,7849},{7850,7850,7851},{7852,7852,7853},{7854,7854,7855},{7856,7856,7857},{7858,7858,7859},{7860,7860,7861},{7862,7862,7863},{7864,7864,7865},{7866,7866,7867},{7868,7868,7869},{7870,7870,7871},{7872,7872,7873},{7874,7874,7875},{7876,7876,7877},{7878,7878,7879},{7880,7880,7881},{7882,7882,7883},{7884,7884,7885},{7886,7886,7887},{7888,7888,7889},{7890,7890,7891},{7892,7892,7893},{7894,7894,7895},{7896,7896,7897},{7898,7898,7899},{7900,7900,7901},{7902,7902,7903},{7904,7904,7905},{7906,7906,7907},{7908,7908,7909},{7910,7910,7911},{7912,7912,7913},{7914,7914,7915},{7916,7916,7917},{7918,7918,7919},{7920,7920,7921},{7922,7922,7923},{7924,7924,7925},{7926,7926,7927},{7928,7928,7929},{7930,7930,7931},{7932,7932,7933},{7934,7934,7935},{7944,7951,7936},{7960,7965,7952},{7976,7983,7968},{7992,7999,7984},{8008,8013,8000},{8025,8025,8017},{8027,8027,8019},{8029,8029,8021},{8031,8031,8023},{8040,8047,8032},{8072,8079,8064},{8088,8095,8080},{8104,8111,8096},{8120,8121,8112},{8122,8123,8048},{8124,8124,8115},{8126,8126,953},{8136,8139,8050},{8140,8140,8131},{8152,8153,8144},{8154,8155,8054},{8168,8169,8160},{8170,8171,8058},{8172,8172,8165},{8184,8185,8056},{8186,8187,8060},{8188,8188,8179},{8486,8486,969},{8490,8490,107},{8491,8491,229},{8498,8498,8526},{8544,8559,8560},{8579,8579,8580},{9398,9423,9424},{11264,11311,11312},{11360,11360,11361},{11362,11362,619},{11363,11363,7549},{11364,11364,637},{11367,11367,11368},{11369,11369,11370},{11371,11371,11372},{11373,11373,593},{11374,11374,625},{11375,11375,592},{11376,11376,594},{11378,11378,11379},{11381,11381,11382},{11390,11391,575},{11392,11392,11393},{11394,11394,11395},{11396,11396,11397},{11398,11398,11399},{11400,11400,11401},{11402,11402,11403},{11404,11404,11405},{11406,11406,11407},{11408,11408,11409},{11410,11410,11411},{11412,11412,11413},{11414,11414,11415},{11416,11416,11417},{11418,11418,11419},{11420,11420,11421},{11422,11422,11423},{11424,11424,11425},{11426,11426,11427},{11428,11428,11429},{11430,11430,11431},{11432,11432,11433},{11434,11434,11435},{11436,11436,11437},{11438,11438,11439},{11440,11440,11441},{11442,11442,11443},{11444,11444,11445},{11446,11446,11447},{11448,11448,11449},{11450,11450,11451},{11452,11452,11453},{11454,11454,11455},{11456,11456,11457},{11458,11458,11459},{11460,11460,11461},{11462,11462,11463},{11464,11464,11465},{11466,11466,11467},{11468,11468,11469},{11470,11470,11471},{11472,11472,11473},{11474,11474,11475},{11476,11476,11477},{11478,11478,11479},{11480,11480,11481},{11482,11482,11483},{11484,11484,11485},{11486,11486,11487},{11488,11488,11489},{11490,11490,11491},{11499,11499,11500},{11501,11501,11502},{11506,11506,11507},{42560,42560,42561},{42562,42562,42563},{42564,42564,42565},{42566,42566,42567},{42568,42568,42569},{42570,42570,42571},{42572,42572,42573},{42574,42574,42575},{42576,42576,42577},{42578,42578,42579},{42580,42580,42581},{42582,42582,42583},{42584,42584,42585},{42586,42586,42587},{42588,42588,42589},{42590,42590,42591},{42592,42592,42593},{42594,42594,42595},{42596,42596,42597},{42598,42598,42599},{42600,42600,42601},{42602,42602,42603},{42604,42604,42605},{42624,42624,42625},{42626,42626,42627},{42628,42628,42629},{42630,42630,42631},{42632,42632,42633},{42634,42634,42635},{42636,42636,42637},{42638,42638,42639},{42640,42640,42641},{42642,42642,42643},{42644,42644,42645},{42646,42646,42647},{42648,42648,42649},{42650,42650,42651},{42786,42786,42787},{42788,42788,42789},{42790,42790,42791},{42792,42792,42793},{42794,42794,42795},{42796,42796,42797},{42798,42798,42799},{42802,42802,42803},{42804,42804,42805},{42806,42806,42807},{42808,42808,42809},{42810,42810,42811},{42812,42812,42813},{42814,42814,42815},{42816,42816,42817},{42818,42818,42819},{42820,42820,42821},{42822,42822,42823},{42824,42824,42825},{42826,42826,42827},{42828,42828,42829},{42830,42830,42831},{42832,42832,42833},{42834,42834,42835},{42836,42836,42837},{42838,42838,42839},{42840,42840,42841},{42842,42842,42843},{42844,42844,42845},{42846,42846,42847},{42848,42848,42849},{42850,42850,42851},{42852,42852,42853},{42854,42854,42855},{42856,42856,42857},{42858,42858,42859},{42860,42860,42861},{42862,42862,42863},{42873,42873,42874},{42875,42875,42876},{42877,42877,7545},{42878,42878,42879},{42880,42880,42881},{42882,42882,42883},{42884,42884,42885},{42886,42886,42887},{42891,42891,42892},{42893,42893,613},{42896,42896,42897},{42898,42898,42899},{42902,42902,42903},{42904,42904,42905},{42906,42906,42907},{42908,42908,42909},{42910,42910,42911},{42912,42912,42913},{42914,42914,42915},{42916,42916,42917},{42918,42918,42919},{42920,42920,42921},{42922,42922,614},{42923,42923,604},{42924,42924,609},{42925,42925,620},{42926,42926,618},{42928,42928,670},{42929,42929,647},{42930,42930,669},{42931,42931,43859},{42932,42932,42933},{42934,42934,42935},{42936,42936,42937},{42938,42938,42939},{42940,42940,42941},{42942,42942,42943},{42944,42944,42945},{42946,42946,42947},{42948,42948,42900},{42949,42949,642},{42950,42950,7566},{42951,42951,42952},{42953,42953,42954},{42960,42960,42961},{42966,42966,42967},{42968,42968,42969},{42997,42997,42998},{43888,43967,5024},{65313,65338,65345},{66560,66599,66600},{66736,66771,66776},{66928,66938,66967},{66940,66954,66979},{66956,66962,66995},{66964,66965,67003},{68736,68786,68800},{71840,71871,71872},{93760,93791,93792},{125184,125217,125218},{0xFFFFFFFF,0,0}};
}
