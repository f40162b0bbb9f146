// fields of the HRI interpretation subframe: member, offset, encoding, label in the dump
X(cal.bbc1ir, 0, C6, "Black body count IR space    : ")
X(cal.bbsd1i, 6, C3, "STD black body IR space      : ")
X(cal.bbc1wv, 9, C6, "Black body count WV space    : ")
X(cal.bbsd1w, 15, C3, "STD black body WV space      : ")
X(cal.bb1t, 18, C5, "Cold black body temperature  : ")
X(cal.bb2t, 23, C5, "Hot black body temperature   : ")
X(cal.bbc2ir, 28, C6, "Black body count IR nominal  : ")
X(cal.bbsd2i, 34, C3, "STD black body IR nominal    : ")
X(cal.bbc2wv, 37, C6, "Black body count WV nominal  : ")
X(cal.bbsd2w, 43, C3, "STD black body WV nominal    : ")
X(cal.time1_day, 46, N3, "")
X(cal.time1_slot, 49, N2, "")
X(cal.calir, 51, F5, "MPEF absolute IR calibration : ")
X(cal.irspc, 56, F3, "IR space count               : ")
X(cal.time2_day, 59, N3, "")
X(cal.time2_slot, 62, N2, "")
X(cal.calwv, 64, F5, "MPEF absolute WV calibration : ")
X(cal.wvspc, 69, F3, "WV space count               : ")
X(cal.time3_day, 72, N3, "")
X(cal.time3_slot, 75, N2, "")
X(cal.ir_gain, 92, N2, "IR gain                      : ")
X(cal.wv_gain, 94, N2, "WV gain                      : ")
X(cal.v1_gain, 96, N2, "V1 gain                      : ")
X(cal.v2_gain, 98, N2, "V2 gain                      : ")
X(oper.degsra, 104, R8, "Right ascension attitude S   : ")
X(oper.degsde, 112, R8, "Declination attitude S       : ")
X(oper.degnra, 120, R8, "Right ascension attitude N   : ")
X(oper.degnde, 128, R8, "Declination attitude N       : ")
X(oper.finatt_x, 136, R8, "Refined attitude X           : ")
X(oper.finatt_y, 144, R8, "Refined attitude Y           : ")
X(oper.finatt_z, 152, R8, "Refined attitude Z           : ")
X(oper.farade_1, 160, R8, "Right ascension refined      : ")
X(oper.farade_2, 168, R8, "Right declination refined    : ")
X(oper.nrslot, 176, I4, "Number of slots for refined  : ")
X(oper.spndur, 180, R4, "Spin duration - nominal      : ")
X(oper.flecl, 184, FL, "Eclipse operation            : ")
X(oper.fldec, 185, FL, "Decontamination              : ")
X(oper.flman, 186, FL, "Manoeuvre                    : ")
X(oper.flmode, 187, FL, "Earth/Sun mode               : ")
X(oper.flir1, 188, FL, "IR 1 on                      : ")
X(oper.flir2, 189, FL, "IR 2 on                      : ")
X(oper.flwv1, 190, FL, "WV 1 on                      : ")
X(oper.flwv2, 191, FL, "WV 2 on                      : ")
X(oper.flvis1, 192, FL, "VIS 1 on                     : ")
X(oper.flvis2, 193, FL, "VIS 2 on                     : ")
X(oper.flvis3, 194, FL, "VIS 3 on                     : ")
X(oper.flvis4, 195, FL, "VIS 4 on                     : ")
X(imag.imstat_1, 232, FL, "Horizon analysis performed   : ")
X(imag.imstat_2, 233, FL, "Speed fit                    : ")
X(imag.imstat_3, 234, FL, "Orbit offset vector fit      : ")
X(imag.imstat_4, 235, FL, "Pixel sampling rate fit      : ")
X(imag.imstat_5, 236, FL, "Attitude refinement iteration: ")
X(imag.imstat_6, 237, FL, "Automatic landmark reg.      : ")
X(imag.imstat_7, 238, FL, "Image frame movement fit     : ")
X(imag.imstat_8, 239, FL, "Calculation of deformed vector ")
X(imag.imstat_9, 240, FL, "Completion of geometrical proc.")
X(imag.imstat_10, 241, FL, "Completion of rectification    ")
X(imag.imstat_11, 242, FL, "Completion of amplitude proc.  ")
X(imag.limhor_1, 248, I2, "Southern line                : ")
X(imag.limhor_2, 250, I2, "Southern line, first pixel   : ")
X(imag.limhor_3, 252, I2, "Southern line, last pixel    : ")
X(imag.limhor_4, 254, I2, "Northern line                : ")
X(imag.limhor_5, 256, I2, "Northern line, first pixel   : ")
X(imag.limhor_6, 258, I2, "Northern line, last pixel    : ")
X(imag.limhor_7, 260, I2, "Eastern pixel                : ")
X(imag.limhor_8, 262, I2, "Eastern pixel, bottom line   : ")
X(imag.limhor_9, 264, I2, "Eastern pixel, top line      : ")
X(imag.limhor_10, 266, I2, "Western pixel                : ")
X(imag.limhor_11, 268, I2, "Western pixel, bottom line   : ")
X(imag.limhor_12, 270, I2, "Western pixel, top line      : ")
X(imag.satdis, 272, R8, "Satellite distance           : ")
X(imag.sorbof_x, 280, R8, "X offset vector in image S   : ")
X(imag.sorbof_y, 288, R8, "Y offset vector in image S   : ")
X(imag.sorbof_z, 296, R8, "Z offset vector in image S   : ")
X(imag.norbof_x, 304, R8, "X offset vector in image N   : ")
X(imag.norbof_y, 312, R8, "Y offset vector in image N   : ")
X(imag.norbof_z, 320, R8, "Z offset vector in image N   : ")
X(imag.xddifm, 328, R4, "Max deformation diff. X Col. : ")
X(imag.yddifm, 332, R4, "Max deformation diff. Y Col. : ")
X(imag.xscm, 336, R4, "Max deformation diff. X Lin. : ")
X(imag.yscm, 340, R4, "Max deformation diff. Y Lin. : ")
X(imag.conds_1, 344, FL, "Earth in field E/W           : ")
X(imag.conds_2, 345, FL, "Earth in field S/N           : ")
X(imag.conds_3, 346, FL, "E/W horizon in margin        : ")
X(imag.conds_4, 347, FL, "S/N horizon in margin        : ")
X(imag.lowdyn_ir, 348, I2, "Lowest count in histogram IR : ")
X(imag.lowdyn_v1, 350, I2, "Lowest count in histogram V1 : ")
X(imag.lowdyn_v2, 352, I2, "Lowest count in histogram V2 : ")
X(imag.lowdyn_wv, 354, I2, "Lowest count in histogram WV : ")
X(imag.higdyn_ir, 356, I2, "Highest count in histogram IR: ")
X(imag.higdyn_v1, 358, I2, "Highest count in histogram V1: ")
X(imag.higdyn_v2, 360, I2, "Highest count in histogram V2: ")
X(imag.higdyn_wv, 362, I2, "Highest count in histogram WV: ")
X(imag.mvis1, 364, R4, "Mean value of VIS 1 or 3     : ")
X(imag.mvis2, 368, R4, "Mean value of VIS 2 or 4     : ")
X(imag.snnom_ir, 372, R4, "S/N ratio in space corner IR : ")
X(imag.snnom_v1, 376, R4, "S/N ratio in space corner V1 : ")
X(imag.snnom_v2, 380, R4, "S/N ratio in space corner V2 : ")
X(imag.snnom_wv, 384, R4, "S/N ratio in space corner WV : ")
X(imag.snnlin, 388, I4, "Lines for nominal calculation: ")
X(imag.snrep_ir, 392, R4, "S/N ratios eastern part IR   : ")
X(imag.snrep_v1, 396, R4, "S/N ratios eastern part V1   : ")
X(imag.snrep_v2, 400, R4, "S/N ratios eastern part V2   : ")
X(imag.snrep_wv, 404, R4, "S/N ratios eastern part WV   : ")
X(imag.snrwp_ir, 408, R4, "S/N ratios western part IR   : ")
X(imag.snrwp_v1, 412, R4, "S/N ratios western part V1   : ")
X(imag.snrwp_v2, 416, R4, "S/N ratios western part V2   : ")
X(imag.snrwp_wv, 420, R4, "S/N ratios western part WV   : ")
X(imag.swmnep_ir, 424, R4, "Mean noise count east IR     : ")
X(imag.swmnep_v1, 428, R4, "Mean noise count east V1     : ")
X(imag.swmnep_v2, 432, R4, "Mean noise count east V2     : ")
X(imag.swmnep_wv, 436, R4, "Mean noise count east WV     : ")
X(imag.swmnwp_ir, 440, R4, "Mean noise count west IR     : ")
X(imag.swmnwp_v1, 444, R4, "Mean noise count west V1     : ")
X(imag.swmnwp_v2, 448, R4, "Mean noise count west V2     : ")
X(imag.swmnwp_wv, 452, R4, "Mean noise count west WV     : ")
X(imag.snmxep_ir, 456, I2, "Max space count east IR      : ")
X(imag.snmxep_v1, 458, I2, "Max space count east V1      : ")
X(imag.snmxep_v2, 460, I2, "Max space count east V2      : ")
X(imag.snmxep_wv, 462, I2, "Max space count east WV      : ")
X(imag.snmxwp_ir, 464, I2, "Max space count west IR      : ")
X(imag.snmxwp_v1, 466, I2, "Max space count west V1      : ")
X(imag.snmxwp_v2, 468, I2, "Max space count west V2      : ")
X(imag.snmxwp_wv, 470, I2, "Max space count west WV      : ")
