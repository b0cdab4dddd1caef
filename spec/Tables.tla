---- MODULE Tables ----
(* Written by tools/tables.py: 10^4 ln(i) for i = 1..1024; 10^4 ln(Phi(x)) for x = -5, -4.95, ..., 5; 10^4 exp(-x) for x = 0, 0.05, ..., 10; 10^5 sin(x) and 10^5 cos(x) for x = 0, 0.01, ..., 1.58. *)
EXTENDS Integers, Sequences
LnTable == <<
  0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957,
  30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889,
  37136, 37377, 37612, 37842, 38067, 38286, 38501, 38712, 38918, 39120, 39318, 39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943,
  41109, 41271, 41431, 41589, 41744, 41897, 42047, 42195, 42341, 42485, 42627, 42767, 42905, 43041, 43175, 43307, 43438, 43567, 43694, 43820,
  43944, 44067, 44188, 44308, 44427, 44543, 44659, 44773, 44886, 44998, 45109, 45218, 45326, 45433, 45539, 45643, 45747, 45850, 45951, 46052,
  46151, 46250, 46347, 46444, 46540, 46634, 46728, 46821, 46913, 47005, 47095, 47185, 47274, 47362, 47449, 47536, 47622, 47707, 47791, 47875,
  47958, 48040, 48122, 48203, 48283, 48363, 48442, 48520, 48598, 48675, 48752, 48828, 48903, 48978, 49053, 49127, 49200, 49273, 49345, 49416,
  49488, 49558, 49628, 49698, 49767, 49836, 49904, 49972, 50039, 50106, 50173, 50239, 50304, 50370, 50434, 50499, 50562, 50626, 50689, 50752,
  50814, 50876, 50938, 50999, 51059, 51120, 51180, 51240, 51299, 51358, 51417, 51475, 51533, 51591, 51648, 51705, 51761, 51818, 51874, 51930,
  51985, 52040, 52095, 52149, 52204, 52257, 52311, 52364, 52417, 52470, 52523, 52575, 52627, 52679, 52730, 52781, 52832, 52883, 52933, 52983,
  53033, 53083, 53132, 53181, 53230, 53279, 53327, 53375, 53423, 53471, 53519, 53566, 53613, 53660, 53706, 53753, 53799, 53845, 53891, 53936,
  53982, 54027, 54072, 54116, 54161, 54205, 54250, 54293, 54337, 54381, 54424, 54467, 54510, 54553, 54596, 54638, 54681, 54723, 54765, 54806,
  54848, 54889, 54931, 54972, 55013, 55053, 55094, 55134, 55175, 55215, 55255, 55294, 55334, 55373, 55413, 55452, 55491, 55530, 55568, 55607,
  55645, 55683, 55722, 55759, 55797, 55835, 55872, 55910, 55947, 55984, 56021, 56058, 56095, 56131, 56168, 56204, 56240, 56276, 56312, 56348,
  56384, 56419, 56454, 56490, 56525, 56560, 56595, 56630, 56664, 56699, 56733, 56768, 56802, 56836, 56870, 56904, 56937, 56971, 57004, 57038,
  57071, 57104, 57137, 57170, 57203, 57236, 57268, 57301, 57333, 57366, 57398, 57430, 57462, 57494, 57526, 57557, 57589, 57621, 57652, 57683,
  57714, 57746, 57777, 57807, 57838, 57869, 57900, 57930, 57961, 57991, 58021, 58051, 58081, 58111, 58141, 58171, 58201, 58230, 58260, 58289,
  58319, 58348, 58377, 58406, 58435, 58464, 58493, 58522, 58551, 58579, 58608, 58636, 58665, 58693, 58721, 58749, 58777, 58805, 58833, 58861,
  58889, 58916, 58944, 58972, 58999, 59026, 59054, 59081, 59108, 59135, 59162, 59189, 59216, 59243, 59269, 59296, 59322, 59349, 59375, 59402,
  59428, 59454, 59480, 59506, 59532, 59558, 59584, 59610, 59636, 59661, 59687, 59713, 59738, 59764, 59789, 59814, 59839, 59865, 59890, 59915,
  59940, 59965, 59989, 60014, 60039, 60064, 60088, 60113, 60137, 60162, 60186, 60210, 60234, 60259, 60283, 60307, 60331, 60355, 60379, 60403,
  60426, 60450, 60474, 60497, 60521, 60544, 60568, 60591, 60615, 60638, 60661, 60684, 60707, 60730, 60753, 60776, 60799, 60822, 60845, 60868,
  60890, 60913, 60936, 60958, 60981, 61003, 61026, 61048, 61070, 61092, 61115, 61137, 61159, 61181, 61203, 61225, 61247, 61269, 61291, 61312,
  61334, 61356, 61377, 61399, 61420, 61442, 61463, 61485, 61506, 61527, 61549, 61570, 61591, 61612, 61633, 61654, 61675, 61696, 61717, 61738,
  61759, 61779, 61800, 61821, 61841, 61862, 61883, 61903, 61924, 61944, 61964, 61985, 62005, 62025, 62046, 62066, 62086, 62106, 62126, 62146,
  62166, 62186, 62206, 62226, 62246, 62265, 62285, 62305, 62324, 62344, 62364, 62383, 62403, 62422, 62442, 62461, 62480, 62500, 62519, 62538,
  62558, 62577, 62596, 62615, 62634, 62653, 62672, 62691, 62710, 62729, 62748, 62766, 62785, 62804, 62823, 62841, 62860, 62879, 62897, 62916,
  62934, 62953, 62971, 62989, 63008, 63026, 63044, 63063, 63081, 63099, 63117, 63135, 63154, 63172, 63190, 63208, 63226, 63244, 63261, 63279,
  63297, 63315, 63333, 63351, 63368, 63386, 63404, 63421, 63439, 63456, 63474, 63491, 63509, 63526, 63544, 63561, 63578, 63596, 63613, 63630,
  63648, 63665, 63682, 63699, 63716, 63733, 63750, 63767, 63784, 63801, 63818, 63835, 63852, 63869, 63886, 63902, 63919, 63936, 63953, 63969,
  63986, 64003, 64019, 64036, 64052, 64069, 64085, 64102, 64118, 64135, 64151, 64167, 64184, 64200, 64216, 64232, 64249, 64265, 64281, 64297,
  64313, 64329, 64345, 64362, 64378, 64394, 64409, 64425, 64441, 64457, 64473, 64489, 64505, 64520, 64536, 64552, 64568, 64583, 64599, 64615,
  64630, 64646, 64661, 64677, 64693, 64708, 64723, 64739, 64754, 64770, 64785, 64800, 64816, 64831, 64846, 64862, 64877, 64892, 64907, 64922,
  64938, 64953, 64968, 64983, 64998, 65013, 65028, 65043, 65058, 65073, 65088, 65103, 65117, 65132, 65147, 65162, 65177, 65191, 65206, 65221,
  65236, 65250, 65265, 65280, 65294, 65309, 65323, 65338, 65352, 65367, 65381, 65396, 65410, 65425, 65439, 65453, 65468, 65482, 65497, 65511,
  65525, 65539, 65554, 65568, 65582, 65596, 65610, 65624, 65639, 65653, 65667, 65681, 65695, 65709, 65723, 65737, 65751, 65765, 65779, 65793,
  65806, 65820, 65834, 65848, 65862, 65876, 65889, 65903, 65917, 65930, 65944, 65958, 65971, 65985, 65999, 66012, 66026, 66039, 66053, 66067,
  66080, 66093, 66107, 66120, 66134, 66147, 66161, 66174, 66187, 66201, 66214, 66227, 66241, 66254, 66267, 66280, 66294, 66307, 66320, 66333,
  66346, 66359, 66373, 66386, 66399, 66412, 66425, 66438, 66451, 66464, 66477, 66490, 66503, 66516, 66529, 66542, 66554, 66567, 66580, 66593,
  66606, 66619, 66631, 66644, 66657, 66670, 66682, 66695, 66708, 66720, 66733, 66746, 66758, 66771, 66783, 66796, 66809, 66821, 66834, 66846,
  66859, 66871, 66884, 66896, 66908, 66921, 66933, 66946, 66958, 66970, 66983, 66995, 67007, 67020, 67032, 67044, 67056, 67069, 67081, 67093,
  67105, 67117, 67130, 67142, 67154, 67166, 67178, 67190, 67202, 67214, 67226, 67238, 67250, 67262, 67274, 67286, 67298, 67310, 67322, 67334,
  67346, 67358, 67370, 67382, 67393, 67405, 67417, 67429, 67441, 67452, 67464, 67476, 67488, 67499, 67511, 67523, 67534, 67546, 67558, 67569,
  67581, 67593, 67604, 67616, 67627, 67639, 67650, 67662, 67673, 67685, 67696, 67708, 67719, 67731, 67742, 67754, 67765, 67776, 67788, 67799,
  67811, 67822, 67833, 67845, 67856, 67867, 67878, 67890, 67901, 67912, 67923, 67935, 67946, 67957, 67968, 67979, 67991, 68002, 68013, 68024,
  68035, 68046, 68057, 68068, 68079, 68090, 68101, 68112, 68123, 68134, 68145, 68156, 68167, 68178, 68189, 68200, 68211, 68222, 68233, 68244,
  68255, 68265, 68276, 68287, 68298, 68309, 68320, 68330, 68341, 68352, 68363, 68373, 68384, 68395, 68405, 68416, 68427, 68437, 68448, 68459,
  68469, 68480, 68491, 68501, 68512, 68522, 68533, 68544, 68554, 68565, 68575, 68586, 68596, 68607, 68617, 68628, 68638, 68648, 68659, 68669,
  68680, 68690, 68701, 68711, 68721, 68732, 68742, 68752, 68763, 68773, 68783, 68794, 68804, 68814, 68824, 68835, 68845, 68855, 68865, 68876,
  68886, 68896, 68906, 68916, 68926, 68937, 68947, 68957, 68967, 68977, 68987, 68997, 69007, 69017, 69027, 69037, 69048, 69058, 69068, 69078,
  69088, 69098, 69108, 69117, 69127, 69137, 69147, 69157, 69167, 69177, 69187, 69197, 69207, 69217, 69226, 69236, 69246, 69256, 69266, 69276,
  69285, 69295, 69305, 69315>>
PhiTable == <<
  -150650, -148069, -145512, -142979, -140470, -137986, -135525, -133089, -130677, -128288, -125924, -123584, -121268, -118976, -116708, -114463, -112243, -110047, -107874, -105726,
  -103601, -101500, -99423, -97370, -95340, -93334, -91352, -89394, -87459, -85548, -83661, -81797, -79956, -78140, -76346, -74576, -72830, -71107, -69407, -67730,
  -66077, -64447, -62841, -61257, -59697, -58159, -56645, -55153, -53685, -52239, -50816, -49416, -48039, -46685, -45353, -44043, -42756, -41492, -40249, -39030,
  -37832, -36656, -35503, -34371, -33262, -32174, -31108, -30064, -29041, -28039, -27059, -26101, -25163, -24247, -23351, -22476, -21622, -20789, -19976, -19183,
  -18410, -17658, -16925, -16212, -15519, -14844, -14190, -13554, -12937, -12339, -11759, -11198, -10654, -10129, -9621, -9131, -8657, -8201, -7762, -7338,
  -6931, -6540, -6165, -5805, -5460, -5130, -4814, -4513, -4225, -3951, -3689, -3441, -3206, -2982, -2770, -2570, -2381, -2202, -2034, -1876,
  -1728, -1588, -1458, -1336, -1222, -1117, -1018, -927, -842, -764, -691, -625, -564, -507, -456, -409, -366, -327, -291, -259,
  -230, -204, -180, -159, -140, -123, -108, -94, -82, -72, -62, -54, -47, -40, -35, -30, -26, -22, -19, -16,
  -14, -11, -10, -8, -7, -6, -5, -4, -3, -3, -2, -2, -2, -1, -1, -1, -1, -1, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0>>
ExpTable == <<
  10000, 9512, 9048, 8607, 8187, 7788, 7408, 7047, 6703, 6376, 6065, 5769, 5488, 5220, 4966, 4724, 4493, 4274, 4066, 3867,
  3679, 3499, 3329, 3166, 3012, 2865, 2725, 2592, 2466, 2346, 2231, 2122, 2019, 1920, 1827, 1738, 1653, 1572, 1496, 1423,
  1353, 1287, 1225, 1165, 1108, 1054, 1003, 954, 907, 863, 821, 781, 743, 707, 672, 639, 608, 578, 550, 523,
  498, 474, 450, 429, 408, 388, 369, 351, 334, 317, 302, 287, 273, 260, 247, 235, 224, 213, 202, 193,
  183, 174, 166, 158, 150, 143, 136, 129, 123, 117, 111, 106, 101, 96, 91, 87, 82, 78, 74, 71,
  67, 64, 61, 58, 55, 52, 50, 47, 45, 43, 41, 39, 37, 35, 33, 32, 30, 29, 27, 26,
  25, 24, 22, 21, 20, 19, 18, 17, 17, 16, 15, 14, 14, 13, 12, 12, 11, 11, 10, 10,
  9, 9, 8, 8, 7, 7, 7, 6, 6, 6, 6, 5, 5, 5, 5, 4, 4, 4, 4, 4,
  3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0,
  0>>
SinTable == <<
  0, 1000, 2000, 3000, 3999, 4998, 5996, 6994, 7991, 8988, 9983, 10978, 11971, 12963, 13954, 14944, 15932, 16918, 17903, 18886,
  19867, 20846, 21823, 22798, 23770, 24740, 25708, 26673, 27636, 28595, 29552, 30506, 31457, 32404, 33349, 34290, 35227, 36162, 37092, 38019,
  38942, 39861, 40776, 41687, 42594, 43497, 44395, 45289, 46178, 47063, 47943, 48818, 49688, 50553, 51414, 52269, 53119, 53963, 54802, 55636,
  56464, 57287, 58104, 58914, 59720, 60519, 61312, 62099, 62879, 63654, 64422, 65183, 65938, 66687, 67429, 68164, 68892, 69614, 70328, 71035,
  71736, 72429, 73115, 73793, 74464, 75128, 75784, 76433, 77074, 77707, 78333, 78950, 79560, 80162, 80756, 81342, 81919, 82489, 83050, 83603,
  84147, 84683, 85211, 85730, 86240, 86742, 87236, 87720, 88196, 88663, 89121, 89570, 90010, 90441, 90863, 91276, 91680, 92075, 92461, 92837,
  93204, 93562, 93910, 94249, 94578, 94898, 95209, 95510, 95802, 96084, 96356, 96618, 96872, 97115, 97348, 97572, 97786, 97991, 98185, 98370,
  98545, 98710, 98865, 99010, 99146, 99271, 99387, 99492, 99588, 99674, 99749, 99815, 99871, 99917, 99953, 99978, 99994, 100000, 99996>>
CosTable == <<
  100000, 99995, 99980, 99955, 99920, 99875, 99820, 99755, 99680, 99595, 99500, 99396, 99281, 99156, 99022, 98877, 98723, 98558, 98384, 98200,
  98007, 97803, 97590, 97367, 97134, 96891, 96639, 96377, 96106, 95824, 95534, 95233, 94924, 94604, 94275, 93937, 93590, 93233, 92866, 92491,
  92106, 91712, 91309, 90897, 90475, 90045, 89605, 89157, 88699, 88233, 87758, 87274, 86782, 86281, 85771, 85252, 84726, 84190, 83646, 83094,
  82534, 81965, 81388, 80803, 80210, 79608, 78999, 78382, 77757, 77125, 76484, 75836, 75181, 74517, 73847, 73169, 72484, 71791, 71091, 70385,
  69671, 68950, 68222, 67488, 66746, 65998, 65244, 64483, 63715, 62941, 62161, 61375, 60582, 59783, 58979, 58168, 57352, 56530, 55702, 54869,
  54030, 53186, 52337, 51482, 50622, 49757, 48887, 48012, 47133, 46249, 45360, 44466, 43568, 42666, 41759, 40849, 39934, 39015, 38092, 37166,
  36236, 35302, 34365, 33424, 32480, 31532, 30582, 29628, 28672, 27712, 26750, 25785, 24818, 23848, 22875, 21901, 20924, 19945, 18964, 17981,
  16997, 16010, 15023, 14033, 13042, 12050, 11057, 10063, 9067, 8071, 7074, 6076, 5077, 4079, 3079, 2079, 1080, 80, -920>>
RECURSIVE Ln(_)
Ln(x) == IF x <= 1024 THEN LnTable[x] ELSE Ln(x \div 2) + 6931
(* y in thousandths; linear interpolation *)
LnPhi(y) == IF y <= -5000 THEN PhiTable[1] ELSE IF y >= 5000 THEN 0
            ELSE LET k == (y + 5000) \div 50 r == (y + 5000) % 50 IN PhiTable[k + 1] + ((PhiTable[k + 2] - PhiTable[k + 1]) * r) \div 50
(* 10^4 exp(-y / 1000), y >= 0 *)
ExpNeg(y) == IF y >= 10000 THEN 0 ELSE LET k == y \div 50 r == y % 50 IN ExpTable[k + 1] + ((ExpTable[k + 2] - ExpTable[k + 1]) * r) \div 50
====
