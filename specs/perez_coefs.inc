/// the coefficients of Perez et al. (1992): clearness, zenith; 5 * change in clearness + water
pub open spec fn coef00(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 385230real / 1000000real } else { 385230real / 1000000real } } else { if i < 3 { 385230real / 1000000real } else { 462880real / 1000000real } } } else { if i < 6 { if i < 5 { 317440real / 1000000real } else { 338390real / 1000000real } } else { if i < 7 { 338390real / 1000000real } else { 221270real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 316730real / 1000000real } else { 503650real / 1000000real } } else { if i < 11 { 235680real / 1000000real } else { 235680real / 1000000real } } } else { if i < 14 { if i < 13 { 241280real / 1000000real } else { 157830real / 1000000real } } else { if i < 15 { 269440real / 1000000real } else { if i < 16 { 830130real / 1000000real } else { 830130real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 171970real / 1000000real } else { 841070real / 1000000real } } else { if i < 20 { 457370real / 1000000real } else { 548010real / 1000000real } } } else { if i < 23 { if i < 22 { 548010real / 1000000real } else { 478000real / 1000000real } } else { if i < 24 { 966880real / 1000000real } else { if i < 25 { 1036370real / 1000000real } else { 548010real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 548010real / 1000000real } else { 1000000real / 1000000real } } else { if i < 29 { 3012370real / 1000000real } else { 1976540real / 1000000real } } } else { if i < 32 { if i < 31 { 582690real / 1000000real } else { 582690real / 1000000real } } else { if i < 33 { 229720real / 1000000real } else { if i < 34 { 892710real / 1000000real } else { 569950real / 1000000real } } } } } } }
pub open spec fn coef01(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 131280real / 1000000real } else { 131280real / 1000000real } } else { if i < 3 { 385460real / 1000000real } else { 511070real / 1000000real } } } else { if i < 6 { if i < 5 { 127940real / 1000000real } else { 223710real / 1000000real } } else { if i < 7 { 223710real / 1000000real } else { 193560real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 304560real / 1000000real } else { 193940real / 1000000real } } else { if i < 11 { 229970real / 1000000real } else { 229970real / 1000000real } } } else { if i < 14 { if i < 13 { 275020real / 1000000real } else { 312730real / 1000000real } } else { if i < 15 { 244610real / 1000000real } else { if i < 16 { 90100real / 1000000real } else { 184580real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 260500real / 1000000real } else { 687480real / 1000000real } } else { if i < 20 { 579440real / 1000000real } else { 131530real / 1000000real } } } else { if i < 23 { if i < 22 { 131530real / 1000000real } else { 370190real / 1000000real } } else { if i < 24 { 1380350real / 1000000real } else { if i < 25 { 1052270real / 1000000real } else { 1116250real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1116250real / 1000000real } else { 928030real / 1000000real } } else { if i < 29 { 3525490real / 1000000real } else { 2316920real / 1000000real } } } else { if i < 32 { if i < 31 { 90100real / 1000000real } else { 237000real / 1000000real } } else { if i < 33 { 300040real / 1000000real } else { if i < 34 { 812470real / 1000000real } else { 664970real / 1000000real } } } } } } }
pub open spec fn coef02(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 587510real / 1000000real } else { 130000real / 1000000real } } else { if i < 3 { 400000real / 1000000real } else { 537210real / 1000000real } } } else { if i < 6 { if i < 5 { 832490real / 1000000real } else { 306210real / 1000000real } } else { if i < 7 { 129830real / 1000000real } else { 204460real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 500000real / 1000000real } else { 681640real / 1000000real } } else { if i < 11 { 224020real / 1000000real } else { 260620real / 1000000real } } } else { if i < 14 { if i < 13 { 334080real / 1000000real } else { 501040real / 1000000real } } else { if i < 15 { 350470real / 1000000real } else { if i < 16 { 421540real / 1000000real } else { 753970real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 750660real / 1000000real } else { 3706840real / 1000000real } } else { if i < 20 { 983790real / 1000000real } else { 706680real / 1000000real } } } else { if i < 23 { if i < 22 { 373530real / 1000000real } else { 1245670real / 1000000real } } else { if i < 24 { 864860real / 1000000real } else { if i < 25 { 1992630real / 1000000real } else { 4864400real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 117390real / 1000000real } else { 265180real / 1000000real } } else { if i < 29 { 359180real / 1000000real } else { 3310820real / 1000000real } } } else { if i < 32 { if i < 31 { 392080real / 1000000real } else { 493290real / 1000000real } } else { if i < 33 { 651560real / 1000000real } else { if i < 34 { 1932780real / 1000000real } else { 898730real / 1000000real } } } } } } }
pub open spec fn coef03(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 126970real / 1000000real } else { 126970real / 1000000real } } else { if i < 3 { 126970real / 1000000real } else { 126970real / 1000000real } } } else { if i < 6 { if i < 5 { 126970real / 1000000real } else { 810820real / 1000000real } } else { if i < 7 { 810820real / 1000000real } else { 810820real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 810820real / 1000000real } else { 810820real / 1000000real } } else { if i < 11 { 3241680real / 1000000real } else { 2500000real / 1000000real } } } else { if i < 14 { if i < 13 { 2291440real / 1000000real } else { 2291440real / 1000000real } } else { if i < 15 { 2291440real / 1000000real } else { if i < 16 { 4000000real / 1000000real } else { 3000000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 2000000real / 1000000real } else { 975430real / 1000000real } } else { if i < 20 { 1965570real / 1000000real } else { 12494170real / 1000000real } } } else { if i < 23 { if i < 22 { 12494170real / 1000000real } else { 8000000real / 1000000real } } else { if i < 24 { 5083520real / 1000000real } else { if i < 25 { 8792390real / 1000000real } else { 21744240real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 21744240real / 1000000real } else { 21744240real / 1000000real } } else { if i < 29 { 21744240real / 1000000real } else { 21744240real / 1000000real } } } else { if i < 32 { if i < 31 { 3241680real / 1000000real } else { 12494170real / 1000000real } } else { if i < 33 { 1620760real / 1000000real } else { if i < 34 { 1375250real / 1000000real } else { 2331620real / 1000000real } } } } } } }
pub open spec fn coef04(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 126970real / 1000000real } else { 126970real / 1000000real } } else { if i < 3 { 126970real / 1000000real } else { 126970real / 1000000real } } } else { if i < 6 { if i < 5 { 126970real / 1000000real } else { 810820real / 1000000real } } else { if i < 7 { 810820real / 1000000real } else { 810820real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 810820real / 1000000real } else { 810820real / 1000000real } } else { if i < 11 { 3241680real / 1000000real } else { 2500000real / 1000000real } } } else { if i < 14 { if i < 13 { 2291440real / 1000000real } else { 2291440real / 1000000real } } else { if i < 15 { 2291440real / 1000000real } else { if i < 16 { 4000000real / 1000000real } else { 3000000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 2000000real / 1000000real } else { 975430real / 1000000real } } else { if i < 20 { 1965570real / 1000000real } else { 12494170real / 1000000real } } } else { if i < 23 { if i < 22 { 12494170real / 1000000real } else { 8000000real / 1000000real } } else { if i < 24 { 5083520real / 1000000real } else { if i < 25 { 8792390real / 1000000real } else { 21744240real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 21744240real / 1000000real } else { 21744240real / 1000000real } } else { if i < 29 { 21744240real / 1000000real } else { 21744240real / 1000000real } } } else { if i < 32 { if i < 31 { 3241680real / 1000000real } else { 12494170real / 1000000real } } else { if i < 33 { 1620760real / 1000000real } else { if i < 34 { 1375250real / 1000000real } else { 2331620real / 1000000real } } } } } } }
pub open spec fn coef05(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 126970real / 1000000real } else { 126970real / 1000000real } } else { if i < 3 { 126970real / 1000000real } else { 126970real / 1000000real } } } else { if i < 6 { if i < 5 { 126970real / 1000000real } else { 810820real / 1000000real } } else { if i < 7 { 810820real / 1000000real } else { 810820real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 810820real / 1000000real } else { 810820real / 1000000real } } else { if i < 11 { 3241680real / 1000000real } else { 2500000real / 1000000real } } } else { if i < 14 { if i < 13 { 2291440real / 1000000real } else { 2291440real / 1000000real } } else { if i < 15 { 2291440real / 1000000real } else { if i < 16 { 4000000real / 1000000real } else { 3000000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 2000000real / 1000000real } else { 975430real / 1000000real } } else { if i < 20 { 1965570real / 1000000real } else { 12494170real / 1000000real } } } else { if i < 23 { if i < 22 { 12494170real / 1000000real } else { 8000000real / 1000000real } } else { if i < 24 { 5083520real / 1000000real } else { if i < 25 { 8792390real / 1000000real } else { 21744240real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 21744240real / 1000000real } else { 21744240real / 1000000real } } else { if i < 29 { 21744240real / 1000000real } else { 21744240real / 1000000real } } } else { if i < 32 { if i < 31 { 3241680real / 1000000real } else { 12494170real / 1000000real } } else { if i < 33 { 1620760real / 1000000real } else { if i < 34 { 1375250real / 1000000real } else { 2331620real / 1000000real } } } } } } }
pub open spec fn coef10(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 337440real / 1000000real } else { 337440real / 1000000real } } else { if i < 3 { 969110real / 1000000real } else { 1097190real / 1000000real } } } else { if i < 6 { if i < 5 { 1116080real / 1000000real } else { 337440real / 1000000real } } else { if i < 7 { 337440real / 1000000real } else { 969110real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1116030real / 1000000real } else { 623900real / 1000000real } } else { if i < 11 { 337440real / 1000000real } else { 337440real / 1000000real } } } else { if i < 14 { if i < 13 { 1530590real / 1000000real } else { 1024420real / 1000000real } } else { if i < 15 { 908480real / 1000000real } else { if i < 16 { 584040real / 1000000real } else { 584040real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 847250real / 1000000real } else { 914940real / 1000000real } } else { if i < 20 { 1289300real / 1000000real } else { 337440real / 1000000real } } } else { if i < 23 { if i < 22 { 337440real / 1000000real } else { 310240real / 1000000real } } else { if i < 24 { 1435020real / 1000000real } else { if i < 25 { 1852830real / 1000000real } else { 337440real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 337440real / 1000000real } else { 1015010real / 1000000real } } else { if i < 29 { 1097190real / 1000000real } else { 2117230real / 1000000real } } } else { if i < 32 { if i < 31 { 337440real / 1000000real } else { 337440real / 1000000real } } else { if i < 33 { 969110real / 1000000real } else { if i < 34 { 1145730real / 1000000real } else { 1476400real / 1000000real } } } } } } }
pub open spec fn coef11(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 300000real / 1000000real } else { 300000real / 1000000real } } else { if i < 3 { 700000real / 1000000real } else { 1100000real / 1000000real } } } else { if i < 6 { if i < 5 { 796940real / 1000000real } else { 219870real / 1000000real } } else { if i < 7 { 219870real / 1000000real } else { 526530real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 809610real / 1000000real } else { 649300real / 1000000real } } else { if i < 11 { 386650real / 1000000real } else { 386650real / 1000000real } } } else { if i < 14 { if i < 13 { 119320real / 1000000real } else { 576120real / 1000000real } } else { if i < 15 { 685460real / 1000000real } else { if i < 16 { 746730real / 1000000real } else { 399830real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 470970real / 1000000real } else { 986530real / 1000000real } } else { if i < 20 { 785370real / 1000000real } else { 575420real / 1000000real } } } else { if i < 23 { if i < 22 { 936700real / 1000000real } else { 1649200real / 1000000real } } else { if i < 24 { 1495840real / 1000000real } else { if i < 25 { 1335590real / 1000000real } else { 1319670real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 4002570real / 1000000real } else { 1276390real / 1000000real } } else { if i < 29 { 2644550real / 1000000real } else { 2518670real / 1000000real } } } else { if i < 32 { if i < 31 { 665190real / 1000000real } else { 678910real / 1000000real } } else { if i < 33 { 1012360real / 1000000real } else { if i < 34 { 1199940real / 1000000real } else { 986580real / 1000000real } } } } } } }
pub open spec fn coef12(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 378870real / 1000000real } else { 974060real / 1000000real } } else { if i < 3 { 500000real / 1000000real } else { 491880real / 1000000real } } } else { if i < 6 { if i < 5 { 665290real / 1000000real } else { 105210real / 1000000real } } else { if i < 7 { 263470real / 1000000real } else { 407040real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 553460real / 1000000real } else { 582590real / 1000000real } } else { if i < 11 { 312900real / 1000000real } else { 345240real / 1000000real } } } else { if i < 14 { if i < 13 { 1144180real / 1000000real } else { 854790real / 1000000real } } else { if i < 15 { 612280real / 1000000real } else { if i < 16 { 119070real / 1000000real } else { 365120real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 560520real / 1000000real } else { 793720real / 1000000real } } else { if i < 20 { 802600real / 1000000real } else { 781610real / 1000000real } } } else { if i < 23 { if i < 22 { 837390real / 1000000real } else { 1270420real / 1000000real } } else { if i < 24 { 1537980real / 1000000real } else { if i < 25 { 1292950real / 1000000real } else { 1152290real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1152290real / 1000000real } else { 1492080real / 1000000real } } else { if i < 29 { 1245370real / 1000000real } else { 2177100real / 1000000real } } } else { if i < 32 { if i < 31 { 424660real / 1000000real } else { 529550real / 1000000real } } else { if i < 33 { 966910real / 1000000real } else { if i < 34 { 1033460real / 1000000real } else { 958730real / 1000000real } } } } } } }
pub open spec fn coef13(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 310590real / 1000000real } else { 714410real / 1000000real } } else { if i < 3 { 252450real / 1000000real } else { 500000real / 1000000real } } } else { if i < 6 { if i < 5 { 607600real / 1000000real } else { 975190real / 1000000real } } else { if i < 7 { 363420real / 1000000real } else { 500000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 400000real / 1000000real } else { 502800real / 1000000real } } else { if i < 11 { 175580real / 1000000real } else { 196250real / 1000000real } } } else { if i < 14 { if i < 13 { 476360real / 1000000real } else { 1072470real / 1000000real } } else { if i < 15 { 490510real / 1000000real } else { if i < 16 { 719280real / 1000000real } else { 698620real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 657770real / 1000000real } else { 1190840real / 1000000real } } else { if i < 20 { 681110real / 1000000real } else { 426240real / 1000000real } } } else { if i < 23 { if i < 22 { 1464840real / 1000000real } else { 678550real / 1000000real } } else { if i < 24 { 1157730real / 1000000real } else { if i < 25 { 978430real / 1000000real } else { 2501120real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1789130real / 1000000real } else { 1387090real / 1000000real } } else { if i < 29 { 2394180real / 1000000real } else { 2394180real / 1000000real } } } else { if i < 32 { if i < 31 { 491640real / 1000000real } else { 677610real / 1000000real } } else { if i < 33 { 685610real / 1000000real } else { if i < 34 { 1082400real / 1000000real } else { 735410real / 1000000real } } } } } } }
pub open spec fn coef14(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 597000real / 1000000real } else { 500000real / 1000000real } } else { if i < 3 { 300000real / 1000000real } else { 310050real / 1000000real } } } else { if i < 6 { if i < 5 { 413510real / 1000000real } else { 314790real / 1000000real } } else { if i < 7 { 336310real / 1000000real } else { 400000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 400000real / 1000000real } else { 442460real / 1000000real } } else { if i < 11 { 166510real / 1000000real } else { 460440real / 1000000real } } } else { if i < 14 { if i < 13 { 552570real / 1000000real } else { 1000000real / 1000000real } } else { if i < 15 { 461610real / 1000000real } else { if i < 16 { 401020real / 1000000real } else { 559110real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 403630real / 1000000real } else { 1016710real / 1000000real } } else { if i < 20 { 671490real / 1000000real } else { 400360real / 1000000real } } } else { if i < 23 { if i < 22 { 750830real / 1000000real } else { 842640real / 1000000real } } else { if i < 24 { 1802600real / 1000000real } else { if i < 25 { 1023830real / 1000000real } else { 3315300real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1510380real / 1000000real } else { 2443650real / 1000000real } } else { if i < 29 { 1638820real / 1000000real } else { 2133990real / 1000000real } } } else { if i < 32 { if i < 31 { 530790real / 1000000real } else { 745850real / 1000000real } } else { if i < 33 { 693050real / 1000000real } else { if i < 34 { 1458040real / 1000000real } else { 804500real / 1000000real } } } } } } }
pub open spec fn coef15(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 597000real / 1000000real } else { 500000real / 1000000real } } else { if i < 3 { 300000real / 1000000real } else { 310050real / 1000000real } } } else { if i < 6 { if i < 5 { 800920real / 1000000real } else { 314790real / 1000000real } } else { if i < 7 { 336310real / 1000000real } else { 400000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 400000real / 1000000real } else { 237040real / 1000000real } } else { if i < 11 { 166510real / 1000000real } else { 460440real / 1000000real } } } else { if i < 14 { if i < 13 { 552570real / 1000000real } else { 1000000real / 1000000real } } else { if i < 15 { 581990real / 1000000real } else { if i < 16 { 401020real / 1000000real } else { 559110real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 403630real / 1000000real } else { 1016710real / 1000000real } } else { if i < 20 { 898570real / 1000000real } else { 400360real / 1000000real } } } else { if i < 23 { if i < 22 { 750830real / 1000000real } else { 842640real / 1000000real } } else { if i < 24 { 1802600real / 1000000real } else { if i < 25 { 3400390real / 1000000real } else { 3315300real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1510380real / 1000000real } else { 2443650real / 1000000real } } else { if i < 29 { 1638820real / 1000000real } else { 2508780real / 1000000real } } } else { if i < 32 { if i < 31 { 204340real / 1000000real } else { 1157740real / 1000000real } } else { if i < 33 { 2003080real / 1000000real } else { if i < 34 { 2622080real / 1000000real } else { 1409380real / 1000000real } } } } } } }
pub open spec fn coef20(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1242210real / 1000000real } else { 1242210real / 1000000real } } else { if i < 3 { 1242210real / 1000000real } else { 1242210real / 1000000real } } } else { if i < 6 { if i < 5 { 1242210real / 1000000real } else { 56980real / 1000000real } } else { if i < 7 { 56980real / 1000000real } else { 656990real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 656990real / 1000000real } else { 925160real / 1000000real } } else { if i < 11 { 89090real / 1000000real } else { 89090real / 1000000real } } } else { if i < 14 { if i < 13 { 1040430real / 1000000real } else { 1232480real / 1000000real } } else { if i < 15 { 1205300real / 1000000real } else { if i < 16 { 1053850real / 1000000real } else { 1053850real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 1399690real / 1000000real } else { 1084640real / 1000000real } } else { if i < 20 { 1233340real / 1000000real } else { 1151540real / 1000000real } } } else { if i < 23 { if i < 22 { 1151540real / 1000000real } else { 1118290real / 1000000real } } else { if i < 24 { 1531640real / 1000000real } else { if i < 25 { 1411840real / 1000000real } else { 1494980real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1494980real / 1000000real } else { 1700000real / 1000000real } } else { if i < 29 { 1800810real / 1000000real } else { 1671600real / 1000000real } } } else { if i < 32 { if i < 31 { 1018450real / 1000000real } else { 1018450real / 1000000real } } else { if i < 33 { 1153600real / 1000000real } else { if i < 34 { 1321890real / 1000000real } else { 1294670real / 1000000real } } } } } } }
pub open spec fn coef21(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 700000real / 1000000real } else { 700000real / 1000000real } } else { if i < 3 { 1023460real / 1000000real } else { 700000real / 1000000real } } } else { if i < 6 { if i < 5 { 945830real / 1000000real } else { 886300real / 1000000real } } else { if i < 7 { 886300real / 1000000real } else { 1333620real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 800000real / 1000000real } else { 1066620real / 1000000real } } else { if i < 11 { 902180real / 1000000real } else { 902180real / 1000000real } } } else { if i < 14 { if i < 13 { 954330real / 1000000real } else { 1126690real / 1000000real } } else { if i < 15 { 1097310real / 1000000real } else { if i < 16 { 1095300real / 1000000real } else { 1075060real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 1176490real / 1000000real } else { 1139470real / 1000000real } } else { if i < 20 { 1096110real / 1000000real } else { 1201660real / 1000000real } } } else { if i < 23 { if i < 22 { 1201660real / 1000000real } else { 1438200real / 1000000real } } else { if i < 24 { 1256280real / 1000000real } else { if i < 25 { 1198060real / 1000000real } else { 1525850real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1525850real / 1000000real } else { 1869160real / 1000000real } } else { if i < 29 { 1985410real / 1000000real } else { 1911590real / 1000000real } } } else { if i < 32 { if i < 31 { 1288220real / 1000000real } else { 1082810real / 1000000real } } else { if i < 33 { 1286370real / 1000000real } else { if i < 34 { 1166170real / 1000000real } else { 1119330real / 1000000real } } } } } } }
pub open spec fn coef22(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 600000real / 1000000real } else { 1029910real / 1000000real } } else { if i < 3 { 859890real / 1000000real } else { 550000real / 1000000real } } } else { if i < 6 { if i < 5 { 813600real / 1000000real } else { 604450real / 1000000real } } else { if i < 7 { 1029910real / 1000000real } else { 859890real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 656700real / 1000000real } else { 928840real / 1000000real } } else { if i < 11 { 455850real / 1000000real } else { 750580real / 1000000real } } } else { if i < 14 { if i < 13 { 804930real / 1000000real } else { 823000real / 1000000real } } else { if i < 15 { 911000real / 1000000real } else { if i < 16 { 526580real / 1000000real } else { 932310real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 908620real / 1000000real } else { 983520real / 1000000real } } else { if i < 20 { 988090real / 1000000real } else { 1036110real / 1000000real } } } else { if i < 23 { if i < 22 { 1100690real / 1000000real } else { 848380real / 1000000real } } else { if i < 24 { 1035270real / 1000000real } else { if i < 25 { 1042380real / 1000000real } else { 1048440real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1652720real / 1000000real } else { 900000real / 1000000real } } else { if i < 29 { 2350410real / 1000000real } else { 1082950real / 1000000real } } } else { if i < 32 { if i < 31 { 817410real / 1000000real } else { 976160real / 1000000real } } else { if i < 33 { 861300real / 1000000real } else { if i < 34 { 974780real / 1000000real } else { 1004580real / 1000000real } } } } } } }
pub open spec fn coef23(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 782110real / 1000000real } else { 564280real / 1000000real } } else { if i < 3 { 600000real / 1000000real } else { 600000real / 1000000real } } } else { if i < 6 { if i < 5 { 665740real / 1000000real } else { 894480real / 1000000real } } else { if i < 7 { 680730real / 1000000real } else { 541990real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 800000real / 1000000real } else { 669140real / 1000000real } } else { if i < 11 { 487460real / 1000000real } else { 818950real / 1000000real } } } else { if i < 14 { if i < 13 { 841830real / 1000000real } else { 872540real / 1000000real } } else { if i < 15 { 709040real / 1000000real } else { if i < 16 { 709310real / 1000000real } else { 872780real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 908480real / 1000000real } else { 953290real / 1000000real } } else { if i < 20 { 844350real / 1000000real } else { 863920real / 1000000real } } } else { if i < 23 { if i < 22 { 947770real / 1000000real } else { 876220real / 1000000real } } else { if i < 24 { 1078750real / 1000000real } else { if i < 25 { 936910real / 1000000real } else { 1280350real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 866720real / 1000000real } else { 769790real / 1000000real } } else { if i < 29 { 1078750real / 1000000real } else { 975130real / 1000000real } } } else { if i < 32 { if i < 31 { 725420real / 1000000real } else { 869970real / 1000000real } } else { if i < 33 { 868810real / 1000000real } else { if i < 34 { 951190real / 1000000real } else { 829220real / 1000000real } } } } } } }
pub open spec fn coef24(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 791750real / 1000000real } else { 654040real / 1000000real } } else { if i < 3 { 483170real / 1000000real } else { 409000real / 1000000real } } } else { if i < 6 { if i < 5 { 597180real / 1000000real } else { 566140real / 1000000real } } else { if i < 7 { 948990real / 1000000real } else { 971820real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 653570real / 1000000real } else { 718550real / 1000000real } } else { if i < 11 { 648710real / 1000000real } else { 637730real / 1000000real } } } else { if i < 14 { if i < 13 { 870510real / 1000000real } else { 860600real / 1000000real } } else { if i < 15 { 694300real / 1000000real } else { if i < 16 { 637630real / 1000000real } else { 767610real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 925670real / 1000000real } else { 990310real / 1000000real } } else { if i < 20 { 847670real / 1000000real } else { 736380real / 1000000real } } } else { if i < 23 { if i < 22 { 946060real / 1000000real } else { 1117590real / 1000000real } } else { if i < 24 { 1029340real / 1000000real } else { if i < 25 { 947020real / 1000000real } else { 1180970real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 850000real / 1000000real } else { 1050000real / 1000000real } } else { if i < 29 { 950000real / 1000000real } else { 888580real / 1000000real } } } else { if i < 32 { if i < 31 { 700560real / 1000000real } else { 801440real / 1000000real } } else { if i < 33 { 961970real / 1000000real } else { if i < 34 { 906140real / 1000000real } else { 823880real / 1000000real } } } } } } }
pub open spec fn coef25(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 500000real / 1000000real } else { 500000real / 1000000real } } else { if i < 3 { 586770real / 1000000real } else { 470550real / 1000000real } } } else { if i < 6 { if i < 5 { 629790real / 1000000real } else { 500000real / 1000000real } } else { if i < 7 { 500000real / 1000000real } else { 1056220real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1260140real / 1000000real } else { 658140real / 1000000real } } else { if i < 11 { 500000real / 1000000real } else { 500000real / 1000000real } } } else { if i < 14 { if i < 13 { 631830real / 1000000real } else { 842620real / 1000000real } } else { if i < 15 { 582780real / 1000000real } else { if i < 16 { 554710real / 1000000real } else { 734730real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 985820real / 1000000real } else { 915640real / 1000000real } } else { if i < 20 { 898260real / 1000000real } else { 712510real / 1000000real } } } else { if i < 23 { if i < 22 { 1205990real / 1000000real } else { 909510real / 1000000real } } else { if i < 24 { 1078260real / 1000000real } else { if i < 25 { 885610real / 1000000real } else { 1899260real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1559710real / 1000000real } else { 1000000real / 1000000real } } else { if i < 29 { 1150000real / 1000000real } else { 1120390real / 1000000real } } } else { if i < 32 { if i < 31 { 653880real / 1000000real } else { 793120real / 1000000real } } else { if i < 33 { 903320real / 1000000real } else { if i < 34 { 944070real / 1000000real } else { 796130real / 1000000real } } } } } } }
pub open spec fn coef30(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1000000real / 1000000real } else { 1000000real / 1000000real } } else { if i < 3 { 1050000real / 1000000real } else { 1170380real / 1000000real } } } else { if i < 6 { if i < 5 { 1178090real / 1000000real } else { 960580real / 1000000real } } else { if i < 7 { 960580real / 1000000real } else { 1059530real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1179030real / 1000000real } else { 1131690real / 1000000real } } else { if i < 11 { 871470real / 1000000real } else { 871470real / 1000000real } } } else { if i < 14 { if i < 13 { 995860real / 1000000real } else { 1141910real / 1000000real } } else { if i < 15 { 1114600real / 1000000real } else { if i < 16 { 1201590real / 1000000real } else { 1201590real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 993610real / 1000000real } else { 1109380real / 1000000real } } else { if i < 20 { 1126320real / 1000000real } else { 1065010real / 1000000real } } } else { if i < 23 { if i < 22 { 1065010real / 1000000real } else { 828660real / 1000000real } } else { if i < 24 { 939970real / 1000000real } else { if i < 25 { 1017930real / 1000000real } else { 1065010real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 1065010real / 1000000real } else { 623690real / 1000000real } } else { if i < 29 { 1119620real / 1000000real } else { 1132260real / 1000000real } } } else { if i < 32 { if i < 31 { 1071570real / 1000000real } else { 1071570real / 1000000real } } else { if i < 33 { 958070real / 1000000real } else { if i < 34 { 1114130real / 1000000real } else { 1127110real / 1000000real } } } } } } }
pub open spec fn coef31(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 950000real / 1000000real } else { 973390real / 1000000real } } else { if i < 3 { 852520real / 1000000real } else { 1092200real / 1000000real } } } else { if i < 6 { if i < 5 { 1096590real / 1000000real } else { 804120real / 1000000real } } else { if i < 7 { 913870real / 1000000real } else { 980990real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1094580real / 1000000real } else { 1042420real / 1000000real } } else { if i < 11 { 737540real / 1000000real } else { 935970real / 1000000real } } } else { if i < 14 { if i < 13 { 999940real / 1000000real } else { 1056490real / 1000000real } } else { if i < 15 { 1050060real / 1000000real } else { if i < 16 { 1032980real / 1000000real } else { 1034540real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 968460real / 1000000real } else { 1032080real / 1000000real } } else { if i < 20 { 1015780real / 1000000real } else { 900000real / 1000000real } } } else { if i < 23 { if i < 22 { 977210real / 1000000real } else { 945960real / 1000000real } } else { if i < 24 { 1008840real / 1000000real } else { if i < 25 { 969960real / 1000000real } else { 600000real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 750000real / 1000000real } else { 750000real / 1000000real } } else { if i < 29 { 844710real / 1000000real } else { 899100real / 1000000real } } } else { if i < 32 { if i < 31 { 926800real / 1000000real } else { 965030real / 1000000real } } else { if i < 33 { 968520real / 1000000real } else { if i < 34 { 1044910real / 1000000real } else { 1032310real / 1000000real } } } } } } }
pub open spec fn coef32(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 850000real / 1000000real } else { 1029710real / 1000000real } } else { if i < 3 { 961100real / 1000000real } else { 1055670real / 1000000real } } } else { if i < 6 { if i < 5 { 1009700real / 1000000real } else { 818530real / 1000000real } } else { if i < 7 { 960010real / 1000000real } else { 996450real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1081970real / 1000000real } else { 1036470real / 1000000real } } else { if i < 11 { 765380real / 1000000real } else { 953500real / 1000000real } } } else { if i < 14 { if i < 13 { 948260real / 1000000real } else { 1052110real / 1000000real } } else { if i < 15 { 1000140real / 1000000real } else { if i < 16 { 775610real / 1000000real } else { 909610real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 927800real / 1000000real } else { 987800real / 1000000real } } else { if i < 20 { 952100real / 1000000real } else { 1000990real / 1000000real } } } else { if i < 23 { if i < 22 { 881880real / 1000000real } else { 875950real / 1000000real } } else { if i < 24 { 949100real / 1000000real } else { if i < 25 { 893690real / 1000000real } else { 902370real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 875960real / 1000000real } else { 807990real / 1000000real } } else { if i < 29 { 942410real / 1000000real } else { 917920real / 1000000real } } } else { if i < 32 { if i < 31 { 856580real / 1000000real } else { 928270real / 1000000real } } else { if i < 33 { 946820real / 1000000real } else { if i < 34 { 1032260real / 1000000real } else { 972990real / 1000000real } } } } } } }
pub open spec fn coef33(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 750000real / 1000000real } else { 857930real / 1000000real } } else { if i < 3 { 983800real / 1000000real } else { 1056540real / 1000000real } } } else { if i < 6 { if i < 5 { 980240real / 1000000real } else { 750000real / 1000000real } } else { if i < 7 { 987010real / 1000000real } else { 1013730real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1133780real / 1000000real } else { 1038250real / 1000000real } } else { if i < 11 { 800000real / 1000000real } else { 947380real / 1000000real } } } else { if i < 14 { if i < 13 { 1012380real / 1000000real } else { 1091270real / 1000000real } } else { if i < 15 { 999840real / 1000000real } else { if i < 16 { 800000real / 1000000real } else { 914550real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 908570real / 1000000real } else { 999190real / 1000000real } } else { if i < 20 { 915230real / 1000000real } else { 778540real / 1000000real } } } else { if i < 23 { if i < 22 { 800590real / 1000000real } else { 799070real / 1000000real } } else { if i < 24 { 902180real / 1000000real } else { if i < 25 { 851560real / 1000000real } else { 680190real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 317410real / 1000000real } else { 507680real / 1000000real } } else { if i < 29 { 388910real / 1000000real } else { 646710real / 1000000real } } } else { if i < 32 { if i < 31 { 794920real / 1000000real } else { 912780real / 1000000real } } else { if i < 33 { 960830real / 1000000real } else { if i < 34 { 1057110real / 1000000real } else { 947950real / 1000000real } } } } } } }
pub open spec fn coef34(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 750000real / 1000000real } else { 833890real / 1000000real } } else { if i < 3 { 867530real / 1000000real } else { 1059890real / 1000000real } } } else { if i < 6 { if i < 5 { 932840real / 1000000real } else { 979700real / 1000000real } } else { if i < 7 { 971470real / 1000000real } else { 995510real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1068490real / 1000000real } else { 1030150real / 1000000real } } else { if i < 11 { 858850real / 1000000real } else { 987920real / 1000000real } } } else { if i < 14 { if i < 13 { 1043220real / 1000000real } else { 1108700real / 1000000real } } else { if i < 15 { 1044900real / 1000000real } else { if i < 16 { 802400real / 1000000real } else { 955110real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 911660real / 1000000real } else { 1045070real / 1000000real } } else { if i < 20 { 944470real / 1000000real } else { 884890real / 1000000real } } } else { if i < 23 { if i < 22 { 766210real / 1000000real } else { 885390real / 1000000real } } else { if i < 24 { 859070real / 1000000real } else { if i < 25 { 818190real / 1000000real } else { 615680real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 700000real / 1000000real } else { 850000real / 1000000real } } else { if i < 29 { 624620real / 1000000real } else { 669300real / 1000000real } } } else { if i < 32 { if i < 31 { 835570real / 1000000real } else { 946150real / 1000000real } } else { if i < 33 { 977090real / 1000000real } else { if i < 34 { 1049350real / 1000000real } else { 979970real / 1000000real } } } } } } }
pub open spec fn coef35(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 689220real / 1000000real } else { 809600real / 1000000real } } else { if i < 3 { 900000real / 1000000real } else { 789500real / 1000000real } } } else { if i < 6 { if i < 5 { 853990real / 1000000real } else { 854660real / 1000000real } } else { if i < 7 { 852840real / 1000000real } else { 938200real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 923110real / 1000000real } else { 955010real / 1000000real } } else { if i < 11 { 938600real / 1000000real } else { 932980real / 1000000real } } } else { if i < 14 { if i < 13 { 1010390real / 1000000real } else { 1043950real / 1000000real } } else { if i < 15 { 1041640real / 1000000real } else { if i < 16 { 843620real / 1000000real } else { 981300real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 951590real / 1000000real } else { 946100real / 1000000real } } else { if i < 20 { 966330real / 1000000real } else { 694740real / 1000000real } } } else { if i < 23 { if i < 22 { 814690real / 1000000real } else { 572650real / 1000000real } } else { if i < 24 { 400000real / 1000000real } else { if i < 25 { 726830real / 1000000real } else { 211370real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 671780real / 1000000real } else { 416340real / 1000000real } } else { if i < 29 { 297290real / 1000000real } else { 498050real / 1000000real } } } else { if i < 32 { if i < 31 { 843540real / 1000000real } else { 882330real / 1000000real } } else { if i < 33 { 911760real / 1000000real } else { if i < 34 { 898420real / 1000000real } else { 960210real / 1000000real } } } } } } }
pub open spec fn coef40(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1054880real / 1000000real } else { 1075210real / 1000000real } } else { if i < 3 { 1068460real / 1000000real } else { 1153370real / 1000000real } } } else { if i < 6 { if i < 5 { 1069220real / 1000000real } else { 1000000real / 1000000real } } else { if i < 7 { 1062220real / 1000000real } else { 1013470real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1088170real / 1000000real } else { 1046200real / 1000000real } } else { if i < 11 { 885090real / 1000000real } else { 993530real / 1000000real } } } else { if i < 14 { if i < 13 { 942590real / 1000000real } else { 1054990real / 1000000real } } else { if i < 15 { 1012740real / 1000000real } else { if i < 16 { 920000real / 1000000real } else { 950000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 978720real / 1000000real } else { 1020280real / 1000000real } } else { if i < 20 { 984440real / 1000000real } else { 850000real / 1000000real } } } else { if i < 23 { if i < 22 { 908500real / 1000000real } else { 839940real / 1000000real } } else { if i < 24 { 985570real / 1000000real } else { if i < 25 { 962180real / 1000000real } else { 800000real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 800000real / 1000000real } else { 810080real / 1000000real } } else { if i < 29 { 950000real / 1000000real } else { 961550real / 1000000real } } } else { if i < 32 { if i < 31 { 1038590real / 1000000real } else { 1063200real / 1000000real } } else { if i < 33 { 1034440real / 1000000real } else { if i < 34 { 1112780real / 1000000real } else { 1037800real / 1000000real } } } } } } }
pub open spec fn coef41(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1017610real / 1000000real } else { 1028360real / 1000000real } } else { if i < 3 { 1058960real / 1000000real } else { 1133180real / 1000000real } } } else { if i < 6 { if i < 5 { 1045620real / 1000000real } else { 920000real / 1000000real } } else { if i < 7 { 998970real / 1000000real } else { 1033590real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1089030real / 1000000real } else { 1022060real / 1000000real } } else { if i < 11 { 912370real / 1000000real } else { 949930real / 1000000real } } } else { if i < 14 { if i < 13 { 979770real / 1000000real } else { 1020420real / 1000000real } } else { if i < 15 { 981770real / 1000000real } else { if i < 16 { 847160real / 1000000real } else { 935300real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 930540real / 1000000real } else { 955050real / 1000000real } } else { if i < 20 { 946560real / 1000000real } else { 880260real / 1000000real } } } else { if i < 23 { if i < 22 { 867110real / 1000000real } else { 874130real / 1000000real } } else { if i < 24 { 972650real / 1000000real } else { if i < 25 { 883420real / 1000000real } else { 627150real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 627150real / 1000000real } else { 700000real / 1000000real } } else { if i < 29 { 774070real / 1000000real } else { 845130real / 1000000real } } } else { if i < 32 { if i < 31 { 973700real / 1000000real } else { 1006240real / 1000000real } } else { if i < 33 { 1026190real / 1000000real } else { if i < 34 { 1071960real / 1000000real } else { 1017240real / 1000000real } } } } } } }
pub open spec fn coef42(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1028710real / 1000000real } else { 1017570real / 1000000real } } else { if i < 3 { 1025900real / 1000000real } else { 1081790real / 1000000real } } } else { if i < 6 { if i < 5 { 1024240real / 1000000real } else { 924980real / 1000000real } } else { if i < 7 { 985500real / 1000000real } else { 1014100real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1092210real / 1000000real } else { 999610real / 1000000real } } else { if i < 11 { 828570real / 1000000real } else { 934920real / 1000000real } } } else { if i < 14 { if i < 13 { 994950real / 1000000real } else { 1024590real / 1000000real } } else { if i < 15 { 949710real / 1000000real } else { if i < 16 { 900810real / 1000000real } else { 901330real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 928830real / 1000000real } else { 979570real / 1000000real } } else { if i < 20 { 913100real / 1000000real } else { 761030real / 1000000real } } } else { if i < 23 { if i < 22 { 845150real / 1000000real } else { 805360real / 1000000real } } else { if i < 24 { 936790real / 1000000real } else { if i < 25 { 853460real / 1000000real } else { 626400real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 546750real / 1000000real } else { 730500real / 1000000real } } else { if i < 29 { 850000real / 1000000real } else { 689050real / 1000000real } } } else { if i < 32 { if i < 31 { 957630real / 1000000real } else { 985480real / 1000000real } } else { if i < 33 { 991790real / 1000000real } else { if i < 34 { 1050220real / 1000000real } else { 987900real / 1000000real } } } } } } }
pub open spec fn coef43(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 992730real / 1000000real } else { 993880real / 1000000real } } else { if i < 3 { 1017150real / 1000000real } else { 1059120real / 1000000real } } } else { if i < 6 { if i < 5 { 1017450real / 1000000real } else { 975610real / 1000000real } } else { if i < 7 { 987160real / 1000000real } else { 1026820real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 1075440real / 1000000real } else { 1007250real / 1000000real } } else { if i < 11 { 871090real / 1000000real } else { 933190real / 1000000real } } } else { if i < 14 { if i < 13 { 974690real / 1000000real } else { 979840real / 1000000real } } else { if i < 15 { 952730real / 1000000real } else { if i < 16 { 828750real / 1000000real } else { 868090real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 834920real / 1000000real } else { 905510real / 1000000real } } else { if i < 20 { 871530real / 1000000real } else { 781540real / 1000000real } } } else { if i < 23 { if i < 22 { 782470real / 1000000real } else { 767910real / 1000000real } } else { if i < 24 { 764140real / 1000000real } else { if i < 25 { 795890real / 1000000real } else { 743460real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 693390real / 1000000real } else { 514870real / 1000000real } } else { if i < 29 { 630150real / 1000000real } else { 715660real / 1000000real } } } else { if i < 32 { if i < 31 { 934760real / 1000000real } else { 957870real / 1000000real } } else { if i < 33 { 959640real / 1000000real } else { if i < 34 { 972510real / 1000000real } else { 981640real / 1000000real } } } } } } }
pub open spec fn coef44(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 965840real / 1000000real } else { 941240real / 1000000real } } else { if i < 3 { 987100real / 1000000real } else { 1022540real / 1000000real } } } else { if i < 6 { if i < 5 { 1011160real / 1000000real } else { 988630real / 1000000real } } else { if i < 7 { 994770real / 1000000real } else { 976590real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 950000real / 1000000real } else { 1034840real / 1000000real } } else { if i < 11 { 958200real / 1000000real } else { 1018080real / 1000000real } } } else { if i < 14 { if i < 13 { 974480real / 1000000real } else { 920000real / 1000000real } } else { if i < 15 { 989870real / 1000000real } else { if i < 16 { 811720real / 1000000real } else { 869090real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 812020real / 1000000real } else { 850000real / 1000000real } } else { if i < 20 { 821050real / 1000000real } else { 682030real / 1000000real } } } else { if i < 23 { if i < 22 { 679480real / 1000000real } else { 632450real / 1000000real } } else { if i < 24 { 746580real / 1000000real } else { if i < 25 { 738550real / 1000000real } else { 668290real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 445860real / 1000000real } else { 500000real / 1000000real } } else { if i < 29 { 678920real / 1000000real } else { 696510real / 1000000real } } } else { if i < 32 { if i < 31 { 926940real / 1000000real } else { 953350real / 1000000real } } else { if i < 33 { 959050real / 1000000real } else { if i < 34 { 876210real / 1000000real } else { 991490real / 1000000real } } } } } } }
pub open spec fn coef45(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 948940real / 1000000real } else { 997760real / 1000000real } } else { if i < 3 { 850000real / 1000000real } else { 826520real / 1000000real } } } else { if i < 6 { if i < 5 { 998470real / 1000000real } else { 1017860real / 1000000real } } else { if i < 7 { 970000real / 1000000real } else { 850000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 700000real / 1000000real } else { 988560real / 1000000real } } else { if i < 11 { 1000000real / 1000000real } else { 950000real / 1000000real } } } else { if i < 14 { if i < 13 { 850000real / 1000000real } else { 606240real / 1000000real } } else { if i < 15 { 947260real / 1000000real } else { if i < 16 { 1000000real / 1000000real } else { 746140real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 751740real / 1000000real } else { 598390real / 1000000real } } else { if i < 20 { 725230real / 1000000real } else { 922210real / 1000000real } } } else { if i < 23 { if i < 22 { 500000real / 1000000real } else { 376800real / 1000000real } } else { if i < 24 { 517110real / 1000000real } else { if i < 25 { 548630real / 1000000real } else { 500000real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 450000real / 1000000real } else { 429970real / 1000000real } } else { if i < 29 { 404490real / 1000000real } else { 539940real / 1000000real } } } else { if i < 32 { if i < 31 { 960430real / 1000000real } else { 881630real / 1000000real } } else { if i < 33 { 775640real / 1000000real } else { if i < 34 { 596350real / 1000000real } else { 937680real / 1000000real } } } } } } }
pub open spec fn coef50(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1030000real / 1000000real } else { 1040000real / 1000000real } } else { if i < 3 { 1000000real / 1000000real } else { 1000000real / 1000000real } } } else { if i < 6 { if i < 5 { 1049510real / 1000000real } else { 1050000real / 1000000real } } else { if i < 7 { 990000real / 1000000real } else { 990000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 950000real / 1000000real } else { 996530real / 1000000real } } else { if i < 11 { 1050000real / 1000000real } else { 990000real / 1000000real } } } else { if i < 14 { if i < 13 { 990000real / 1000000real } else { 820000real / 1000000real } } else { if i < 15 { 971940real / 1000000real } else { if i < 16 { 1050000real / 1000000real } else { 790000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 880000real / 1000000real } else { 820000real / 1000000real } } else { if i < 20 { 951840real / 1000000real } else { 1000000real / 1000000real } } } else { if i < 23 { if i < 22 { 530000real / 1000000real } else { 440000real / 1000000real } } else { if i < 24 { 710000real / 1000000real } else { if i < 25 { 928730real / 1000000real } else { 540000real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 470000real / 1000000real } else { 500000real / 1000000real } } else { if i < 29 { 550000real / 1000000real } else { 773950real / 1000000real } } } else { if i < 32 { if i < 31 { 1038270real / 1000000real } else { 920180real / 1000000real } } else { if i < 33 { 910930real / 1000000real } else { if i < 34 { 821140real / 1000000real } else { 1034560real / 1000000real } } } } } } }
pub open spec fn coef51(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1041020real / 1000000real } else { 997520real / 1000000real } } else { if i < 3 { 961600real / 1000000real } else { 1000000real / 1000000real } } } else { if i < 6 { if i < 5 { 1035780real / 1000000real } else { 948030real / 1000000real } } else { if i < 7 { 980000real / 1000000real } else { 900000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 950360real / 1000000real } else { 977460real / 1000000real } } else { if i < 11 { 950000real / 1000000real } else { 977250real / 1000000real } } } else { if i < 14 { if i < 13 { 869270real / 1000000real } else { 800000real / 1000000real } } else { if i < 15 { 951680real / 1000000real } else { if i < 16 { 951870real / 1000000real } else { 850000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 748770real / 1000000real } else { 700000real / 1000000real } } else { if i < 20 { 883850real / 1000000real } else { 900000real / 1000000real } } } else { if i < 23 { if i < 22 { 823190real / 1000000real } else { 727450real / 1000000real } } else { if i < 24 { 600000real / 1000000real } else { if i < 25 { 839870real / 1000000real } else { 850000real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 805020real / 1000000real } else { 692310real / 1000000real } } else { if i < 29 { 500000real / 1000000real } else { 788410real / 1000000real } } } else { if i < 32 { if i < 31 { 1010090real / 1000000real } else { 895270real / 1000000real } } else { if i < 33 { 773030real / 1000000real } else { if i < 34 { 816280real / 1000000real } else { 1011680real / 1000000real } } } } } } }
pub open spec fn coef52(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 1022450real / 1000000real } else { 1004600real / 1000000real } } else { if i < 3 { 983650real / 1000000real } else { 1000000real / 1000000real } } } else { if i < 6 { if i < 5 { 1032940real / 1000000real } else { 943960real / 1000000real } } else { if i < 7 { 999240real / 1000000real } else { 983920real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 905990real / 1000000real } else { 978150real / 1000000real } } else { if i < 11 { 936240real / 1000000real } else { 946480real / 1000000real } } } else { if i < 14 { if i < 13 { 850000real / 1000000real } else { 850000real / 1000000real } } else { if i < 15 { 930320real / 1000000real } else { if i < 16 { 816420real / 1000000real } else { 885000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 644950real / 1000000real } else { 817650real / 1000000real } } else { if i < 20 { 865310real / 1000000real } else { 742960real / 1000000real } } } else { if i < 23 { if i < 22 { 765690real / 1000000real } else { 561520real / 1000000real } } else { if i < 24 { 700000real / 1000000real } else { if i < 25 { 827140real / 1000000real } else { 643870real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 596710real / 1000000real } else { 474460real / 1000000real } } else { if i < 29 { 600000real / 1000000real } else { 651200real / 1000000real } } } else { if i < 32 { if i < 31 { 971740real / 1000000real } else { 940560real / 1000000real } } else { if i < 33 { 714880real / 1000000real } else { if i < 34 { 864380real / 1000000real } else { 1001650real / 1000000real } } } } } } }
pub open spec fn coef53(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 995260real / 1000000real } else { 977010real / 1000000real } } else { if i < 3 { 1000000real / 1000000real } else { 1000000real / 1000000real } } } else { if i < 6 { if i < 5 { 1035250real / 1000000real } else { 939810real / 1000000real } } else { if i < 7 { 975250real / 1000000real } else { 939980real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 950000real / 1000000real } else { 982550real / 1000000real } } else { if i < 11 { 876870real / 1000000real } else { 879440real / 1000000real } } } else { if i < 14 { if i < 13 { 850000real / 1000000real } else { 900000real / 1000000real } } else { if i < 15 { 917810real / 1000000real } else { if i < 16 { 873480real / 1000000real } else { 873450real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 751470real / 1000000real } else { 850000real / 1000000real } } else { if i < 20 { 863040real / 1000000real } else { 761470real / 1000000real } } } else { if i < 23 { if i < 22 { 702360real / 1000000real } else { 638770real / 1000000real } } else { if i < 24 { 750000real / 1000000real } else { if i < 25 { 783120real / 1000000real } else { 734080real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 650000real / 1000000real } else { 600000real / 1000000real } } else { if i < 29 { 650000real / 1000000real } else { 715660real / 1000000real } } } else { if i < 32 { if i < 31 { 942160real / 1000000real } else { 919100real / 1000000real } } else { if i < 33 { 770340real / 1000000real } else { if i < 34 { 731170real / 1000000real } else { 995180real / 1000000real } } } } } } }
pub open spec fn coef54(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 952560real / 1000000real } else { 916780real / 1000000real } } else { if i < 3 { 920000real / 1000000real } else { 900000real / 1000000real } } } else { if i < 6 { if i < 5 { 1005880real / 1000000real } else { 928620real / 1000000real } } else { if i < 7 { 994420real / 1000000real } else { 900000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 900000real / 1000000real } else { 983720real / 1000000real } } else { if i < 11 { 913070real / 1000000real } else { 850000real / 1000000real } } } else { if i < 14 { if i < 13 { 850000real / 1000000real } else { 800000real / 1000000real } } else { if i < 15 { 924280real / 1000000real } else { if i < 16 { 868090real / 1000000real } else { 807170real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 823550real / 1000000real } else { 600000real / 1000000real } } else { if i < 20 { 844520real / 1000000real } else { 769570real / 1000000real } } } else { if i < 23 { if i < 22 { 719870real / 1000000real } else { 650000real / 1000000real } } else { if i < 24 { 550000real / 1000000real } else { if i < 25 { 733500real / 1000000real } else { 580250real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 650000real / 1000000real } else { 600000real / 1000000real } } else { if i < 29 { 500000real / 1000000real } else { 628850real / 1000000real } } } else { if i < 32 { if i < 31 { 904770real / 1000000real } else { 852650real / 1000000real } } else { if i < 33 { 708370real / 1000000real } else { if i < 34 { 493730real / 1000000real } else { 949030real / 1000000real } } } } } } }
pub open spec fn coef55(i: int) -> real { if i < 17 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 911970real / 1000000real } else { 800000real / 1000000real } } else { if i < 3 { 800000real / 1000000real } else { 800000real / 1000000real } } } else { if i < 6 { if i < 5 { 956320real / 1000000real } else { 912620real / 1000000real } } else { if i < 7 { 316930real / 1000000real } else { 750000real / 1000000real } } } } else { if i < 12 { if i < 10 { if i < 9 { 700000real / 1000000real } else { 950110real / 1000000real } } else { if i < 11 { 653450real / 1000000real } else { 659330real / 1000000real } } } else { if i < 14 { if i < 13 { 700000real / 1000000real } else { 600000real / 1000000real } } else { if i < 15 { 856110real / 1000000real } else { if i < 16 { 648440real / 1000000real } else { 600000real / 1000000real } } } } } } else { if i < 26 { if i < 21 { if i < 19 { if i < 18 { 641120real / 1000000real } else { 500000real / 1000000real } } else { if i < 20 { 695780real / 1000000real } else { 570000real / 1000000real } } } else { if i < 23 { if i < 22 { 550000real / 1000000real } else { 598800real / 1000000real } } else { if i < 24 { 400000real / 1000000real } else { if i < 25 { 560150real / 1000000real } else { 475230real / 1000000real } } } } } else { if i < 30 { if i < 28 { if i < 27 { 500000real / 1000000real } else { 518640real / 1000000real } } else { if i < 29 { 339970real / 1000000real } else { 520230real / 1000000real } } } else { if i < 32 { if i < 31 { 743440real / 1000000real } else { 592190real / 1000000real } } else { if i < 33 { 603060real / 1000000real } else { if i < 34 { 316930real / 1000000real } else { 794390real / 1000000real } } } } } } }
#[verifier::opaque] pub open spec fn coef(k: int, z: int, d: int, w: int) -> real { let i = d * 5 + w; let q = 6 * k + z; if q < 18 { if q < 9 { if q < 4 { if q < 2 { if q < 1 { coef00(i) } else { coef01(i) } } else { if q < 3 { coef02(i) } else { coef03(i) } } } else { if q < 6 { if q < 5 { coef04(i) } else { coef05(i) } } else { if q < 7 { coef10(i) } else { if q < 8 { coef11(i) } else { coef12(i) } } } } } else { if q < 13 { if q < 11 { if q < 10 { coef13(i) } else { coef14(i) } } else { if q < 12 { coef15(i) } else { coef20(i) } } } else { if q < 15 { if q < 14 { coef21(i) } else { coef22(i) } } else { if q < 16 { coef23(i) } else { if q < 17 { coef24(i) } else { coef25(i) } } } } } } else { if q < 27 { if q < 22 { if q < 20 { if q < 19 { coef30(i) } else { coef31(i) } } else { if q < 21 { coef32(i) } else { coef33(i) } } } else { if q < 24 { if q < 23 { coef34(i) } else { coef35(i) } } else { if q < 25 { coef40(i) } else { if q < 26 { coef41(i) } else { coef42(i) } } } } } else { if q < 31 { if q < 29 { if q < 28 { coef43(i) } else { coef44(i) } } else { if q < 30 { coef45(i) } else { coef50(i) } } } else { if q < 33 { if q < 32 { coef51(i) } else { coef52(i) } } else { if q < 34 { coef53(i) } else { if q < 35 { coef54(i) } else { coef55(i) } } } } } } }
//@fn weather/src/solar/mod.rs perez_direct_rad_coefs (kt_p, zenith, delta_kt, prec_water)
requires kt_p < 6, zenith < 6, delta_kt < 7, prec_water < 5,
ensures ret@ == coef(kt_p as int, zenith as int, delta_kt as int, prec_water as int),
//@at end
proof { reveal(coef);
}
//@endfn
