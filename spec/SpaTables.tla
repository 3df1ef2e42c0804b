---------------------------- MODULE SpaTables ----------------------------
(* Generated by tools/gen_tables.py: the periodic terms of NREL/TP-560-34302 (tables A4.2, A4.3) and
   the monthly USNO values of Delta-T (deltat.data) in units of 1e-4 s.  Pinned; see DESIGN.md. *)
EXTENDS Fx
LOCAL INSTANCE Integers

TermsL == <<
  << <<Dec(1, 0, 175347046, 0), FxZero, FxZero>>,
     <<Dec(1, 0, 3341656, 0), Dec(1, 0, 46692568, 7), Dec(1, 0, 628307585, 5)>>,
     <<Dec(1, 0, 34894, 0), Dec(1, 0, 46261, 4), Dec(1, 0, 125661517, 4)>>,
     <<Dec(1, 0, 3497, 0), Dec(1, 0, 27441, 4), Dec(1, 0, 57533849, 4)>>,
     <<Dec(1, 0, 3418, 0), Dec(1, 0, 28289, 4), Dec(1, 0, 35231, 4)>>,
     <<Dec(1, 0, 3136, 0), Dec(1, 0, 36277, 4), Dec(1, 0, 777137715, 4)>>,
     <<Dec(1, 0, 2676, 0), Dec(1, 0, 44181, 4), Dec(1, 0, 78604194, 4)>>,
     <<Dec(1, 0, 2343, 0), Dec(1, 0, 61352, 4), Dec(1, 0, 39302097, 4)>>,
     <<Dec(1, 0, 1324, 0), Dec(1, 0, 7425, 4), Dec(1, 0, 115067698, 4)>>,
     <<Dec(1, 0, 1273, 0), Dec(1, 0, 20371, 4), Dec(1, 0, 529691, 3)>>,
     <<Dec(1, 0, 1199, 0), Dec(1, 0, 11096, 4), Dec(1, 0, 15773435, 4)>>,
     <<Dec(1, 0, 990, 0), Dec(1, 0, 5233, 3), Dec(1, 0, 5884927, 3)>>,
     <<Dec(1, 0, 902, 0), Dec(1, 0, 2045, 3), Dec(1, 0, 26298, 3)>>,
     <<Dec(1, 0, 857, 0), Dec(1, 0, 3508, 3), Dec(1, 0, 398149, 3)>>,
     <<Dec(1, 0, 780, 0), Dec(1, 0, 1179, 3), Dec(1, 0, 5223694, 3)>>,
     <<Dec(1, 0, 753, 0), Dec(1, 0, 2533, 3), Dec(1, 0, 5507553, 3)>>,
     <<Dec(1, 0, 505, 0), Dec(1, 0, 4583, 3), Dec(1, 0, 18849228, 3)>>,
     <<Dec(1, 0, 492, 0), Dec(1, 0, 4205, 3), Dec(1, 0, 775523, 3)>>,
     <<Dec(1, 0, 357, 0), Dec(1, 0, 292, 2), Dec(1, 0, 67, 3)>>,
     <<Dec(1, 0, 317, 0), Dec(1, 0, 5849, 3), Dec(1, 0, 11790629, 3)>>,
     <<Dec(1, 0, 284, 0), Dec(1, 0, 1899, 3), Dec(1, 0, 796298, 3)>>,
     <<Dec(1, 0, 271, 0), Dec(1, 0, 315, 3), Dec(1, 0, 10977079, 3)>>,
     <<Dec(1, 0, 243, 0), Dec(1, 0, 345, 3), Dec(1, 0, 5486778, 3)>>,
     <<Dec(1, 0, 206, 0), Dec(1, 0, 4806, 3), Dec(1, 0, 2544314, 3)>>,
     <<Dec(1, 0, 205, 0), Dec(1, 0, 1869, 3), Dec(1, 0, 5573143, 3)>>,
     <<Dec(1, 0, 202, 0), Dec(1, 0, 2458, 3), Dec(1, 0, 6069777, 3)>>,
     <<Dec(1, 0, 156, 0), Dec(1, 0, 833, 3), Dec(1, 0, 213299, 3)>>,
     <<Dec(1, 0, 132, 0), Dec(1, 0, 3411, 3), Dec(1, 0, 2942463, 3)>>,
     <<Dec(1, 0, 126, 0), Dec(1, 0, 1083, 3), Dec(1, 0, 20775, 3)>>,
     <<Dec(1, 0, 115, 0), Dec(1, 0, 645, 3), Dec(1, 0, 98, 2)>>,
     <<Dec(1, 0, 103, 0), Dec(1, 0, 636, 3), Dec(1, 0, 4694003, 3)>>,
     <<Dec(1, 0, 102, 0), Dec(1, 0, 976, 3), Dec(1, 0, 15720839, 3)>>,
     <<Dec(1, 0, 102, 0), Dec(1, 0, 4267, 3), Dec(1, 0, 7114, 3)>>,
     <<Dec(1, 0, 99, 0), Dec(1, 0, 621, 2), Dec(1, 0, 214617, 2)>>,
     <<Dec(1, 0, 98, 0), Dec(1, 0, 68, 2), Dec(1, 0, 15542, 2)>>,
     <<Dec(1, 0, 86, 0), Dec(1, 0, 598, 2), Dec(1, 0, 16100069, 2)>>,
     <<Dec(1, 0, 85, 0), Dec(1, 0, 13, 1), Dec(1, 0, 627596, 2)>>,
     <<Dec(1, 0, 85, 0), Dec(1, 0, 367, 2), Dec(1, 0, 714307, 1)>>,
     <<Dec(1, 0, 80, 0), Dec(1, 0, 181, 2), Dec(1, 0, 1726015, 2)>>,
     <<Dec(1, 0, 79, 0), Dec(1, 0, 304, 2), Dec(1, 0, 1203646, 2)>>,
     <<Dec(1, 0, 75, 0), Dec(1, 0, 176, 2), Dec(1, 0, 508863, 2)>>,
     <<Dec(1, 0, 74, 0), Dec(1, 0, 35, 1), Dec(1, 0, 315469, 2)>>,
     <<Dec(1, 0, 74, 0), Dec(1, 0, 468, 2), Dec(1, 0, 80182, 2)>>,
     <<Dec(1, 0, 70, 0), Dec(1, 0, 83, 2), Dec(1, 0, 943776, 2)>>,
     <<Dec(1, 0, 62, 0), Dec(1, 0, 398, 2), Dec(1, 0, 882739, 2)>>,
     <<Dec(1, 0, 61, 0), Dec(1, 0, 182, 2), Dec(1, 0, 70849, 1)>>,
     <<Dec(1, 0, 57, 0), Dec(1, 0, 278, 2), Dec(1, 0, 62866, 1)>>,
     <<Dec(1, 0, 56, 0), Dec(1, 0, 439, 2), Dec(1, 0, 141435, 1)>>,
     <<Dec(1, 0, 56, 0), Dec(1, 0, 347, 2), Dec(1, 0, 627955, 2)>>,
     <<Dec(1, 0, 52, 0), Dec(1, 0, 19, 2), Dec(1, 0, 1213955, 2)>>,
     <<Dec(1, 0, 52, 0), Dec(1, 0, 133, 2), Dec(1, 0, 174802, 2)>>,
     <<Dec(1, 0, 51, 0), Dec(1, 0, 28, 2), Dec(1, 0, 585648, 2)>>,
     <<Dec(1, 0, 49, 0), Dec(1, 0, 49, 2), Dec(1, 0, 119445, 2)>>,
     <<Dec(1, 0, 41, 0), Dec(1, 0, 537, 2), Dec(1, 0, 842924, 2)>>,
     <<Dec(1, 0, 41, 0), Dec(1, 0, 24, 1), Dec(1, 0, 1965105, 2)>>,
     <<Dec(1, 0, 39, 0), Dec(1, 0, 617, 2), Dec(1, 0, 1044739, 2)>>,
     <<Dec(1, 0, 37, 0), Dec(1, 0, 604, 2), Dec(1, 0, 1021329, 2)>>,
     <<Dec(1, 0, 37, 0), Dec(1, 0, 257, 2), Dec(1, 0, 105938, 2)>>,
     <<Dec(1, 0, 36, 0), Dec(1, 0, 171, 2), Dec(1, 0, 235287, 2)>>,
     <<Dec(1, 0, 36, 0), Dec(1, 0, 178, 2), Dec(1, 0, 681277, 2)>>,
     <<Dec(1, 0, 33, 0), Dec(1, 0, 59, 2), Dec(1, 0, 1778985, 2)>>,
     <<Dec(1, 0, 30, 0), Dec(1, 0, 44, 2), Dec(1, 0, 8399685, 2)>>,
     <<Dec(1, 0, 30, 0), Dec(1, 0, 274, 2), Dec(1, 0, 134987, 2)>>,
     <<Dec(1, 0, 25, 0), Dec(1, 0, 316, 2), Dec(1, 0, 469048, 2)>> >>,
  << <<Dec(1, 628, 331966747, 0), FxZero, FxZero>>,
     <<Dec(1, 0, 206059, 0), Dec(1, 0, 2678235, 6), Dec(1, 0, 628307585, 5)>>,
     <<Dec(1, 0, 4303, 0), Dec(1, 0, 26351, 4), Dec(1, 0, 125661517, 4)>>,
     <<Dec(1, 0, 425, 0), Dec(1, 0, 159, 2), Dec(1, 0, 3523, 3)>>,
     <<Dec(1, 0, 119, 0), Dec(1, 0, 5796, 3), Dec(1, 0, 26298, 3)>>,
     <<Dec(1, 0, 109, 0), Dec(1, 0, 2966, 3), Dec(1, 0, 1577344, 3)>>,
     <<Dec(1, 0, 93, 0), Dec(1, 0, 259, 2), Dec(1, 0, 1884923, 2)>>,
     <<Dec(1, 0, 72, 0), Dec(1, 0, 114, 2), Dec(1, 0, 52969, 2)>>,
     <<Dec(1, 0, 68, 0), Dec(1, 0, 187, 2), Dec(1, 0, 39815, 2)>>,
     <<Dec(1, 0, 67, 0), Dec(1, 0, 441, 2), Dec(1, 0, 550755, 2)>>,
     <<Dec(1, 0, 59, 0), Dec(1, 0, 289, 2), Dec(1, 0, 522369, 2)>>,
     <<Dec(1, 0, 56, 0), Dec(1, 0, 217, 2), Dec(1, 0, 15542, 2)>>,
     <<Dec(1, 0, 45, 0), Dec(1, 0, 4, 1), Dec(1, 0, 7963, 1)>>,
     <<Dec(1, 0, 36, 0), Dec(1, 0, 47, 2), Dec(1, 0, 77552, 2)>>,
     <<Dec(1, 0, 29, 0), Dec(1, 0, 265, 2), Dec(1, 0, 711, 2)>>,
     <<Dec(1, 0, 21, 0), Dec(1, 0, 534, 2), Dec(1, 0, 98, 2)>>,
     <<Dec(1, 0, 19, 0), Dec(1, 0, 185, 2), Dec(1, 0, 548678, 2)>>,
     <<Dec(1, 0, 19, 0), Dec(1, 0, 497, 2), Dec(1, 0, 2133, 1)>>,
     <<Dec(1, 0, 17, 0), Dec(1, 0, 299, 2), Dec(1, 0, 627596, 2)>>,
     <<Dec(1, 0, 16, 0), Dec(1, 0, 3, 2), Dec(1, 0, 254431, 2)>>,
     <<Dec(1, 0, 16, 0), Dec(1, 0, 143, 2), Dec(1, 0, 214617, 2)>>,
     <<Dec(1, 0, 15, 0), Dec(1, 0, 121, 2), Dec(1, 0, 1097708, 2)>>,
     <<Dec(1, 0, 12, 0), Dec(1, 0, 283, 2), Dec(1, 0, 174802, 2)>>,
     <<Dec(1, 0, 12, 0), Dec(1, 0, 326, 2), Dec(1, 0, 508863, 2)>>,
     <<Dec(1, 0, 12, 0), Dec(1, 0, 527, 2), Dec(1, 0, 119445, 2)>>,
     <<Dec(1, 0, 12, 0), Dec(1, 0, 208, 2), Dec(1, 0, 4694, 0)>>,
     <<Dec(1, 0, 11, 0), Dec(1, 0, 77, 2), Dec(1, 0, 55357, 2)>>,
     <<Dec(1, 0, 10, 0), Dec(1, 0, 13, 1), Dec(1, 0, 62866, 1)>>,
     <<Dec(1, 0, 10, 0), Dec(1, 0, 424, 2), Dec(1, 0, 134987, 2)>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 27, 1), Dec(1, 0, 24273, 2)>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 564, 2), Dec(1, 0, 95172, 2)>>,
     <<Dec(1, 0, 8, 0), Dec(1, 0, 53, 1), Dec(1, 0, 235287, 2)>>,
     <<Dec(1, 0, 6, 0), Dec(1, 0, 265, 2), Dec(1, 0, 943776, 2)>>,
     <<Dec(1, 0, 6, 0), Dec(1, 0, 467, 2), Dec(1, 0, 469048, 2)>> >>,
  << <<Dec(1, 0, 52919, 0), FxZero, FxZero>>,
     <<Dec(1, 0, 8720, 0), Dec(1, 0, 10721, 4), Dec(1, 0, 62830758, 4)>>,
     <<Dec(1, 0, 309, 0), Dec(1, 0, 867, 3), Dec(1, 0, 12566152, 3)>>,
     <<Dec(1, 0, 27, 0), Dec(1, 0, 5, 2), Dec(1, 0, 352, 2)>>,
     <<Dec(1, 0, 16, 0), Dec(1, 0, 519, 2), Dec(1, 0, 263, 1)>>,
     <<Dec(1, 0, 16, 0), Dec(1, 0, 368, 2), Dec(1, 0, 15542, 2)>>,
     <<Dec(1, 0, 10, 0), Dec(1, 0, 76, 2), Dec(1, 0, 1884923, 2)>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 206, 2), Dec(1, 0, 7771377, 2)>>,
     <<Dec(1, 0, 7, 0), Dec(1, 0, 83, 2), Dec(1, 0, 77552, 2)>>,
     <<Dec(1, 0, 5, 0), Dec(1, 0, 466, 2), Dec(1, 0, 157734, 2)>>,
     <<Dec(1, 0, 4, 0), Dec(1, 0, 103, 2), Dec(1, 0, 711, 2)>>,
     <<Dec(1, 0, 4, 0), Dec(1, 0, 344, 2), Dec(1, 0, 557314, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 514, 2), Dec(1, 0, 7963, 1)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 605, 2), Dec(1, 0, 550755, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 119, 2), Dec(1, 0, 24273, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 612, 2), Dec(1, 0, 52969, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 31, 2), Dec(1, 0, 39815, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 228, 2), Dec(1, 0, 55357, 2)>>,
     <<Dec(1, 0, 2, 0), Dec(1, 0, 438, 2), Dec(1, 0, 522369, 2)>>,
     <<Dec(1, 0, 2, 0), Dec(1, 0, 375, 2), Dec(1, 0, 98, 2)>> >>,
  << <<Dec(1, 0, 289, 0), Dec(1, 0, 5844, 3), Dec(1, 0, 6283076, 3)>>,
     <<Dec(1, 0, 35, 0), FxZero, FxZero>>,
     <<Dec(1, 0, 17, 0), Dec(1, 0, 549, 2), Dec(1, 0, 1256615, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 52, 1), Dec(1, 0, 15542, 2)>>,
     <<Dec(1, 0, 1, 0), Dec(1, 0, 472, 2), Dec(1, 0, 352, 2)>>,
     <<Dec(1, 0, 1, 0), Dec(1, 0, 53, 1), Dec(1, 0, 1884923, 2)>>,
     <<Dec(1, 0, 1, 0), Dec(1, 0, 597, 2), Dec(1, 0, 24273, 2)>> >>,
  << <<Dec(1, 0, 114, 0), Dec(1, 0, 3142, 3), FxZero>>,
     <<Dec(1, 0, 8, 0), Dec(1, 0, 413, 2), Dec(1, 0, 628308, 2)>>,
     <<Dec(1, 0, 1, 0), Dec(1, 0, 384, 2), Dec(1, 0, 1256615, 2)>> >>,
  << <<Dec(1, 0, 1, 0), Dec(1, 0, 314, 2), FxZero>> >>
>>

TermsB == <<
  << <<Dec(1, 0, 280, 0), Dec(1, 0, 3199, 3), Dec(1, 0, 84334662, 3)>>,
     <<Dec(1, 0, 102, 0), Dec(1, 0, 5422, 3), Dec(1, 0, 5507553, 3)>>,
     <<Dec(1, 0, 80, 0), Dec(1, 0, 388, 2), Dec(1, 0, 522369, 2)>>,
     <<Dec(1, 0, 44, 0), Dec(1, 0, 37, 1), Dec(1, 0, 235287, 2)>>,
     <<Dec(1, 0, 32, 0), Dec(1, 0, 4, 0), Dec(1, 0, 157734, 2)>> >>,
  << <<Dec(1, 0, 9, 0), Dec(1, 0, 39, 1), Dec(1, 0, 550755, 2)>>,
     <<Dec(1, 0, 6, 0), Dec(1, 0, 173, 2), Dec(1, 0, 522369, 2)>> >>
>>

TermsR == <<
  << <<Dec(1, 0, 100013989, 0), FxZero, FxZero>>,
     <<Dec(1, 0, 1670700, 0), Dec(1, 0, 30984635, 7), Dec(1, 0, 628307585, 5)>>,
     <<Dec(1, 0, 13956, 0), Dec(1, 0, 305525, 5), Dec(1, 0, 125661517, 4)>>,
     <<Dec(1, 0, 3084, 0), Dec(1, 0, 51985, 4), Dec(1, 0, 777137715, 4)>>,
     <<Dec(1, 0, 1628, 0), Dec(1, 0, 11739, 4), Dec(1, 0, 57533849, 4)>>,
     <<Dec(1, 0, 1576, 0), Dec(1, 0, 28469, 4), Dec(1, 0, 78604194, 4)>>,
     <<Dec(1, 0, 925, 0), Dec(1, 0, 5453, 3), Dec(1, 0, 1150677, 2)>>,
     <<Dec(1, 0, 542, 0), Dec(1, 0, 4564, 3), Dec(1, 0, 393021, 2)>>,
     <<Dec(1, 0, 472, 0), Dec(1, 0, 3661, 3), Dec(1, 0, 5884927, 3)>>,
     <<Dec(1, 0, 346, 0), Dec(1, 0, 964, 3), Dec(1, 0, 5507553, 3)>>,
     <<Dec(1, 0, 329, 0), Dec(1, 0, 59, 1), Dec(1, 0, 5223694, 3)>>,
     <<Dec(1, 0, 307, 0), Dec(1, 0, 299, 3), Dec(1, 0, 5573143, 3)>>,
     <<Dec(1, 0, 243, 0), Dec(1, 0, 4273, 3), Dec(1, 0, 11790629, 3)>>,
     <<Dec(1, 0, 212, 0), Dec(1, 0, 5847, 3), Dec(1, 0, 1577344, 3)>>,
     <<Dec(1, 0, 186, 0), Dec(1, 0, 5022, 3), Dec(1, 0, 10977079, 3)>>,
     <<Dec(1, 0, 175, 0), Dec(1, 0, 3012, 3), Dec(1, 0, 18849228, 3)>>,
     <<Dec(1, 0, 110, 0), Dec(1, 0, 5055, 3), Dec(1, 0, 5486778, 3)>>,
     <<Dec(1, 0, 98, 0), Dec(1, 0, 89, 2), Dec(1, 0, 606978, 2)>>,
     <<Dec(1, 0, 86, 0), Dec(1, 0, 569, 2), Dec(1, 0, 1572084, 2)>>,
     <<Dec(1, 0, 86, 0), Dec(1, 0, 127, 2), Dec(1, 0, 16100069, 2)>>,
     <<Dec(1, 0, 65, 0), Dec(1, 0, 27, 2), Dec(1, 0, 1726015, 2)>>,
     <<Dec(1, 0, 63, 0), Dec(1, 0, 92, 2), Dec(1, 0, 52969, 2)>>,
     <<Dec(1, 0, 57, 0), Dec(1, 0, 201, 2), Dec(1, 0, 8399685, 2)>>,
     <<Dec(1, 0, 56, 0), Dec(1, 0, 524, 2), Dec(1, 0, 714307, 1)>>,
     <<Dec(1, 0, 49, 0), Dec(1, 0, 325, 2), Dec(1, 0, 254431, 2)>>,
     <<Dec(1, 0, 47, 0), Dec(1, 0, 258, 2), Dec(1, 0, 77552, 2)>>,
     <<Dec(1, 0, 45, 0), Dec(1, 0, 554, 2), Dec(1, 0, 943776, 2)>>,
     <<Dec(1, 0, 43, 0), Dec(1, 0, 601, 2), Dec(1, 0, 627596, 2)>>,
     <<Dec(1, 0, 39, 0), Dec(1, 0, 536, 2), Dec(1, 0, 4694, 0)>>,
     <<Dec(1, 0, 38, 0), Dec(1, 0, 239, 2), Dec(1, 0, 882739, 2)>>,
     <<Dec(1, 0, 37, 0), Dec(1, 0, 83, 2), Dec(1, 0, 1965105, 2)>>,
     <<Dec(1, 0, 37, 0), Dec(1, 0, 49, 1), Dec(1, 0, 1213955, 2)>>,
     <<Dec(1, 0, 36, 0), Dec(1, 0, 167, 2), Dec(1, 0, 1203646, 2)>>,
     <<Dec(1, 0, 35, 0), Dec(1, 0, 184, 2), Dec(1, 0, 294246, 2)>>,
     <<Dec(1, 0, 33, 0), Dec(1, 0, 24, 2), Dec(1, 0, 70849, 1)>>,
     <<Dec(1, 0, 32, 0), Dec(1, 0, 18, 2), Dec(1, 0, 508863, 2)>>,
     <<Dec(1, 0, 32, 0), Dec(1, 0, 178, 2), Dec(1, 0, 39815, 2)>>,
     <<Dec(1, 0, 28, 0), Dec(1, 0, 121, 2), Dec(1, 0, 62866, 1)>>,
     <<Dec(1, 0, 28, 0), Dec(1, 0, 19, 1), Dec(1, 0, 627955, 2)>>,
     <<Dec(1, 0, 26, 0), Dec(1, 0, 459, 2), Dec(1, 0, 1044739, 2)>> >>,
  << <<Dec(1, 0, 103019, 0), Dec(1, 0, 110749, 5), Dec(1, 0, 628307585, 5)>>,
     <<Dec(1, 0, 1721, 0), Dec(1, 0, 10644, 4), Dec(1, 0, 125661517, 4)>>,
     <<Dec(1, 0, 702, 0), Dec(1, 0, 3142, 3), FxZero>>,
     <<Dec(1, 0, 32, 0), Dec(1, 0, 102, 2), Dec(1, 0, 1884923, 2)>>,
     <<Dec(1, 0, 31, 0), Dec(1, 0, 284, 2), Dec(1, 0, 550755, 2)>>,
     <<Dec(1, 0, 25, 0), Dec(1, 0, 132, 2), Dec(1, 0, 522369, 2)>>,
     <<Dec(1, 0, 18, 0), Dec(1, 0, 142, 2), Dec(1, 0, 157734, 2)>>,
     <<Dec(1, 0, 10, 0), Dec(1, 0, 591, 2), Dec(1, 0, 1097708, 2)>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 142, 2), Dec(1, 0, 627596, 2)>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 27, 2), Dec(1, 0, 548678, 2)>> >>,
  << <<Dec(1, 0, 4359, 0), Dec(1, 0, 57846, 4), Dec(1, 0, 62830758, 4)>>,
     <<Dec(1, 0, 124, 0), Dec(1, 0, 5579, 3), Dec(1, 0, 12566152, 3)>>,
     <<Dec(1, 0, 12, 0), Dec(1, 0, 314, 2), FxZero>>,
     <<Dec(1, 0, 9, 0), Dec(1, 0, 363, 2), Dec(1, 0, 7771377, 2)>>,
     <<Dec(1, 0, 6, 0), Dec(1, 0, 187, 2), Dec(1, 0, 557314, 2)>>,
     <<Dec(1, 0, 3, 0), Dec(1, 0, 547, 2), Dec(1, 0, 1884923, 2)>> >>,
  << <<Dec(1, 0, 145, 0), Dec(1, 0, 4273, 3), Dec(1, 0, 6283076, 3)>>,
     <<Dec(1, 0, 7, 0), Dec(1, 0, 392, 2), Dec(1, 0, 1256615, 2)>> >>,
  << <<Dec(1, 0, 4, 0), Dec(1, 0, 256, 2), Dec(1, 0, 628308, 2)>> >>
>>

\* <<D, M, M', F, Omega>> multipliers
NutArgs == <<
  <<0, 0, 0, 0, 1>>,
  <<-2, 0, 0, 2, 2>>,
  <<0, 0, 0, 2, 2>>,
  <<0, 0, 0, 0, 2>>,
  <<0, 1, 0, 0, 0>>,
  <<0, 0, 1, 0, 0>>,
  <<-2, 1, 0, 2, 2>>,
  <<0, 0, 0, 2, 1>>,
  <<0, 0, 1, 2, 2>>,
  <<-2, -1, 0, 2, 2>>,
  <<-2, 0, 1, 0, 0>>,
  <<-2, 0, 0, 2, 1>>,
  <<0, 0, -1, 2, 2>>,
  <<2, 0, 0, 0, 0>>,
  <<0, 0, 1, 0, 1>>,
  <<2, 0, -1, 2, 2>>,
  <<0, 0, -1, 0, 1>>,
  <<0, 0, 1, 2, 1>>,
  <<-2, 0, 2, 0, 0>>,
  <<0, 0, -2, 2, 1>>,
  <<2, 0, 0, 2, 2>>,
  <<0, 0, 2, 2, 2>>,
  <<0, 0, 2, 0, 0>>,
  <<-2, 0, 1, 2, 2>>,
  <<0, 0, 0, 2, 0>>,
  <<-2, 0, 0, 2, 0>>,
  <<0, 0, -1, 2, 1>>,
  <<0, 2, 0, 0, 0>>,
  <<2, 0, -1, 0, 1>>,
  <<-2, 2, 0, 2, 2>>,
  <<0, 1, 0, 0, 1>>,
  <<-2, 0, 1, 0, 1>>,
  <<0, -1, 0, 0, 1>>,
  <<0, 0, 2, -2, 0>>,
  <<2, 0, -1, 2, 1>>,
  <<2, 0, 1, 2, 2>>,
  <<0, 1, 0, 2, 2>>,
  <<-2, 1, 1, 0, 0>>,
  <<0, -1, 0, 2, 2>>,
  <<2, 0, 0, 2, 1>>,
  <<2, 0, 1, 0, 0>>,
  <<-2, 0, 2, 2, 2>>,
  <<-2, 0, 1, 2, 1>>,
  <<2, 0, -2, 0, 1>>,
  <<2, 0, 0, 0, 1>>,
  <<0, -1, 1, 0, 0>>,
  <<-2, -1, 0, 2, 1>>,
  <<-2, 0, 0, 0, 1>>,
  <<0, 0, 2, 2, 1>>,
  <<-2, 0, 2, 0, 1>>,
  <<-2, 1, 0, 2, 1>>,
  <<0, 0, 1, -2, 0>>,
  <<-1, 0, 1, 0, 0>>,
  <<-2, 1, 0, 0, 0>>,
  <<1, 0, 0, 0, 0>>,
  <<0, 0, 1, 2, 0>>,
  <<0, 0, -2, 2, 2>>,
  <<-1, -1, 1, 0, 0>>,
  <<0, 1, 1, 0, 0>>,
  <<0, -1, 1, 2, 2>>,
  <<2, -1, -1, 2, 2>>,
  <<0, 0, 3, 2, 2>>,
  <<2, -1, 0, 2, 2>>
>>

\* a + b T (sine, longitude) and c + d T (cosine, obliquity), in 0.0001 arc seconds
NutCoef == <<
  <<Dec(-1, 0, 171996, 0), Dec(-1, 0, 1742, 1), Dec(1, 0, 92025, 0), Dec(1, 0, 89, 1)>>,
  <<Dec(-1, 0, 13187, 0), Dec(-1, 0, 16, 1), Dec(1, 0, 5736, 0), Dec(-1, 0, 31, 1)>>,
  <<Dec(-1, 0, 2274, 0), Dec(-1, 0, 2, 1), Dec(1, 0, 977, 0), Dec(-1, 0, 5, 1)>>,
  <<Dec(1, 0, 2062, 0), Dec(1, 0, 2, 1), Dec(-1, 0, 895, 0), Dec(1, 0, 5, 1)>>,
  <<Dec(1, 0, 1426, 0), Dec(-1, 0, 34, 1), Dec(1, 0, 54, 0), Dec(-1, 0, 1, 1)>>,
  <<Dec(1, 0, 712, 0), Dec(1, 0, 1, 1), Dec(-1, 0, 7, 0), FxZero>>,
  <<Dec(-1, 0, 517, 0), Dec(1, 0, 12, 1), Dec(1, 0, 224, 0), Dec(-1, 0, 6, 1)>>,
  <<Dec(-1, 0, 386, 0), Dec(-1, 0, 4, 1), Dec(1, 0, 200, 0), FxZero>>,
  <<Dec(-1, 0, 301, 0), FxZero, Dec(1, 0, 129, 0), Dec(-1, 0, 1, 1)>>,
  <<Dec(1, 0, 217, 0), Dec(-1, 0, 5, 1), Dec(-1, 0, 95, 0), Dec(1, 0, 3, 1)>>,
  <<Dec(-1, 0, 158, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 129, 0), Dec(1, 0, 1, 1), Dec(-1, 0, 70, 0), FxZero>>,
  <<Dec(1, 0, 123, 0), FxZero, Dec(-1, 0, 53, 0), FxZero>>,
  <<Dec(1, 0, 63, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 63, 0), Dec(1, 0, 1, 1), Dec(-1, 0, 33, 0), FxZero>>,
  <<Dec(-1, 0, 59, 0), FxZero, Dec(1, 0, 26, 0), FxZero>>,
  <<Dec(-1, 0, 58, 0), Dec(-1, 0, 1, 1), Dec(1, 0, 32, 0), FxZero>>,
  <<Dec(-1, 0, 51, 0), FxZero, Dec(1, 0, 27, 0), FxZero>>,
  <<Dec(1, 0, 48, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 46, 0), FxZero, Dec(-1, 0, 24, 0), FxZero>>,
  <<Dec(-1, 0, 38, 0), FxZero, Dec(1, 0, 16, 0), FxZero>>,
  <<Dec(-1, 0, 31, 0), FxZero, Dec(1, 0, 13, 0), FxZero>>,
  <<Dec(1, 0, 29, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 29, 0), FxZero, Dec(-1, 0, 12, 0), FxZero>>,
  <<Dec(1, 0, 26, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 22, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 21, 0), FxZero, Dec(-1, 0, 10, 0), FxZero>>,
  <<Dec(1, 0, 17, 0), Dec(-1, 0, 1, 1), FxZero, FxZero>>,
  <<Dec(1, 0, 16, 0), FxZero, Dec(-1, 0, 8, 0), FxZero>>,
  <<Dec(-1, 0, 16, 0), Dec(1, 0, 1, 1), Dec(1, 0, 7, 0), FxZero>>,
  <<Dec(-1, 0, 15, 0), FxZero, Dec(1, 0, 9, 0), FxZero>>,
  <<Dec(-1, 0, 13, 0), FxZero, Dec(1, 0, 7, 0), FxZero>>,
  <<Dec(-1, 0, 12, 0), FxZero, Dec(1, 0, 6, 0), FxZero>>,
  <<Dec(1, 0, 11, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 10, 0), FxZero, Dec(1, 0, 5, 0), FxZero>>,
  <<Dec(-1, 0, 8, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(1, 0, 7, 0), FxZero, Dec(-1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 7, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 7, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 7, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(1, 0, 6, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 6, 0), FxZero, Dec(-1, 0, 3, 0), FxZero>>,
  <<Dec(1, 0, 6, 0), FxZero, Dec(-1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 6, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 6, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(1, 0, 5, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 5, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 5, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(-1, 0, 5, 0), FxZero, Dec(1, 0, 3, 0), FxZero>>,
  <<Dec(1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 4, 0), FxZero, FxZero, FxZero>>,
  <<Dec(1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>,
  <<Dec(-1, 0, 3, 0), FxZero, FxZero, FxZero>>
>>

DeltaTBaseYear == 1973
DeltaTBaseMonth == 2
DeltaTValues == <<
  434724, 435648, 436737, 437782, 438763, 439562, 440315, 441132, 441982, 442952, 443936, 444841,
  445646, 446425, 447386, 448370, 449302, 449986, 450584, 451284, 452064, 452980, 453897, 454761,
  455633, 456450, 457375, 458284, 459133, 459820, 460408, 461067, 461825, 462789, 463713, 464567,
  465445, 466311, 467302, 468284, 469247, 469970, 470709, 471451, 472362, 473413, 474319, 475214,
  476049, 476837, 477781, 478771, 479687, 480348, 480942, 481608, 482460, 483439, 484355, 485344,
  486325, 487294, 488365, 489353, 490319, 491013, 491591, 492286, 493070, 494018, 494945, 495862,
  496805, 497602, 498556, 499489, 500347, 501019, 501622, 502260, 502968, 503831, 504599, 505387,
  506161, 506866, 507658, 508454, 509187, 509761, 510278, 510843, 511538, 512319, 513063, 513808,
  514526, 515160, 515985, 516809, 517573, 518133, 518532, 519014, 519603, 520328, 520985, 521668,
  522316, 522938, 523680, 524465, 525180, 525752, 526178, 526668, 527340, 528056, 528792, 529565,
  530445, 531268, 532197, 533024, 533747, 534335, 534778, 535300, 535845, 536523, 537256, 537882,
  538367, 538830, 539443, 540042, 540536, 540856, 541084, 541463, 541914, 542452, 542958, 543427,
  543911, 544320, 544898, 545456, 545977, 546355, 546532, 546776, 547174, 547741, 548253, 548713,
  549161, 549581, 549997, 550476, 550912, 551132, 551328, 551532, 551898, 552416, 552838, 553222,
  553613, 554063, 554629, 555111, 555524, 555812, 556004, 556262, 556656, 557168, 557698, 558197,
  558615, 559130, 559663, 560220, 560700, 560939, 561105, 561314, 561611, 562068, 562583, 563000,
  563399, 563790, 564283, 564804, 565352, 565697, 565983, 566328, 566739, 567332, 567972, 568553,
  569111, 569755, 570471, 571136, 571738, 572226, 572597, 573073, 573643, 574334, 575016, 575653,
  576333, 576973, 577711, 578407, 579058, 579576, 579975, 580426, 581043, 581679, 582389, 583092,
  583833, 584537, 585401, 586228, 586917, 587410, 587836, 588406, 588986, 589714, 590438, 591218,
  592003, 592747, 593574, 594434, 595242, 595850, 596344, 596928, 597588, 598386, 599111, 599845,
  600564, 601231, 602042, 602804, 603530, 604012, 604440, 604900, 605578, 606324, 607059, 607853,
  608664, 609387, 610277, 611103, 611870, 612454, 612881, 613378, 614036, 614760, 615525, 616287,
  616846, 617433, 618132, 618823, 619497, 619969, 620343, 620714, 621202, 621810, 622382, 622950,
  623506, 623995, 624754, 625463, 626136, 626571, 626942, 627383, 627926, 628567, 629146, 629659,
  630217, 630807, 631462, 632053, 632599, 632844, 632961, 633126, 633422, 633871, 634339, 634673,
  634979, 635319, 635679, 636104, 636444, 636642, 636739, 636926, 637147, 637518, 637927, 638285,
  638557, 638804, 639075, 639393, 639691, 639799, 639833, 639938, 640093, 640400, 640670, 640908,
  641068, 641282, 641584, 641833, 642094, 642117, 642073, 642116, 642223, 642500, 642761, 642998,
  643192, 643450, 643735, 643943, 644151, 644132, 644118, 644097, 644168, 644329, 644511, 644734,
  644893, 645053, 645269, 645471, 645597, 645512, 645371, 645359, 645415, 645544, 645654, 645736,
  645891, 646015, 646176, 646374, 646549, 646530, 646379, 646372, 646400, 646543, 646723, 646876,
  647052, 647313, 647575, 647811, 648001, 647995, 647876, 647831, 647921, 648096, 648311, 648452,
  648597, 648850, 649175, 649480, 649794, 649895, 650028, 650138, 650371, 650773, 651122, 651464,
  651833, 652145, 652494, 652921, 653279, 653413, 653452, 653496, 653711, 653972, 654296, 654573,
  654868, 655152, 655450, 655781, 656127, 656288, 656370, 656493, 656760, 657097, 657461, 657768,
  658025, 658237, 658595, 658973, 659323, 659509, 659534, 659628, 659839, 660147, 660420, 660699,
  660961, 661310, 661683, 662072, 662356, 662409, 662335, 662349, 662441, 662751, 663054, 663246,
  663406, 663624, 663957, 664289, 664619, 664749, 664751, 664829, 665056, 665383, 665706, 666030,
  666340, 666569, 666925, 667289, 667579, 667708, 667740, 667846, 668103, 668400, 668779, 669069,
  669443, 669763, 670258, 670716, 671100, 671266, 671331, 671458, 671718, 672091, 672460, 672810,
  673136, 673457, 673890
>>
=============================================================================
