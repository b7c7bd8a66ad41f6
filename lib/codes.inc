// names of the constants of the library's public headers currencies.hpp and countries.hpp
#define ALL_CURRENCIES(X) \
  X(AED) X(AFN) X(ALL) X(AMD) X(ANG) X(AOA) X(ARS) X(AUD) X(AWG) X(AZN) X(BAM) X(BBD) X(BDT) X(BGN) X(BHD) X(BIF) X(BMD) X(BND) X(BOB) X(BOV) X(BRL) X(BSD) X(BTN) X(BWP) X(BYN) X(BZD) X(CAD) X(CDF) X(CHE) X(CHF) X(CHW) X(CLF) X(CLP) X(CNY) X(COP) X(COU) X(CRC) X(CUC) X(CUP) X(CVE) X(CZK) X(DJF) X(DKK) X(DOP) X(DZD) X(EGP) X(ERN) X(ETB) X(EUR) X(FJD) X(FKP) X(GBP) X(GEL) X(GHS) X(GIP) X(GMD) X(GNF) X(GTQ) X(GYD) X(HKD) X(HNL) X(HRK) X(HTG) X(HUF) X(IDR) X(ILS) X(INR) X(IQD) X(IRR) X(ISK) X(JMD) X(JOD) X(JPY) X(KES) X(KGS) X(KHR) X(KMF) X(KPW) X(KRW) X(KWD) X(KYD) X(KZT) X(LAK) X(LBP) X(LKR) X(LRD) X(LSL) X(LYD) X(MAD) X(MDL) X(MGA) X(MKD) X(MMK) X(MNT) X(MOP) X(MRU) X(MUR) X(MVR) X(MWK) X(MXN) X(MXV) X(MYR) X(MZN) X(NAD) X(NGN) X(NIO) X(NOK) X(NPR) X(NZD) X(OMR) X(PAB) X(PEN) X(PGK) X(PHP) X(PKR) X(PLN) X(PYG) X(QAR) X(RON) X(RSD) X(RUB) X(RWF) X(SAR) X(SBD) X(SCR) X(SDG) X(SEK) X(SGD) X(SHP) X(SLL) X(SOS) X(SRD) X(SSP) X(STN) X(SVC) X(SYP) X(SZL) X(THB) X(TJS) X(TMT) X(TND) X(TOP) X(TRY) X(TTD) X(TWD) X(TZS) X(UAH) X(UGX) X(USD) X(UYI) X(UYU) X(UZS) X(VEF) X(VND) X(VUV) X(WST) X(XAF) X(XAG) X(XAU) X(XBA) X(XBB) X(XBC) X(XBD) X(XCD) X(XDR) X(XOF) X(XPD) X(XPF) X(XPT) X(XSU) X(XUA) X(YER) X(ZAR) X(ZMW) X(ZWL)
#define ALL_COUNTRIES(X) \
  X(AD) X(AE) X(AF) X(AG) X(AI) X(AL) X(AM) X(AO) X(AQ) X(AR) X(AS) X(AT) X(AU) X(AW) X(AX) X(AZ) X(BA) X(BB) X(BD) X(BE) X(BF) X(BG) X(BH) X(BI) X(BJ) X(BL) X(BM) X(BN) X(BO) X(BQ) X(BR) X(BS) X(BT) X(BV) X(BW) X(BY) X(BZ) X(CA) X(CC) X(CD) X(CF) X(CG) X(CH) X(CI) X(CK) X(CL) X(CM) X(CN) X(CO) X(CR) X(CU) X(CV) X(CW) X(CX) X(CY) X(CZ) X(DE) X(DJ) X(DK) X(DM) X(DO) X(DZ) X(EC) X(EE) X(EG) X(EH) X(ER) X(ES) X(ET) X(FI) X(FJ) X(FK) X(FM) X(FO) X(FR) X(GA) X(GB) X(GD) X(GE) X(GF) X(GG) X(GH) X(GI) X(GL) X(GM) X(GN) X(GP) X(GQ) X(GR) X(GS) X(GT) X(GU) X(GW) X(GY) X(HK) X(HM) X(HN) X(HR) X(HT) X(HU) X(ID) X(IE) X(IL) X(IM) X(IO) X(IQ) X(IR) X(IS) X(IT) X(JE) X(JM) X(JO) X(JP) X(KE) X(KG) X(KH) X(KI) X(KM) X(KN) X(KP) X(KR) X(KW) X(KY) X(KZ) X(LA) X(LB) X(LC) X(LI) X(LK) X(LR) X(LS) X(LT) X(LU) X(LV) X(LY) X(MA) X(MC) X(MD) X(ME) X(MF) X(MG) X(MH) X(MK) X(ML) X(MM) X(MN) X(MO) X(MP) X(MQ) X(MR) X(MS) X(MT) X(MU) X(MV) X(MW) X(MX) X(MY) X(MZ) X(NA) X(NC) X(NE) X(NF) X(NG) X(NI) X(NL) X(NO) X(NP) X(NR) X(NU) X(NZ) X(OM) X(PA) X(PE) X(PF) X(PG) X(PH) X(PK) X(PL) X(PM) X(PN) X(PR) X(PS) X(PT) X(PW) X(PY) X(QA) X(RE) X(RO) X(RS) X(RU) X(RW) X(SA) X(SB) X(SC) X(SD) X(SE) X(SG) X(SH) X(SI) X(SJ) X(SK) X(SL) X(SM) X(SN) X(SO) X(SR) X(SS) X(ST) X(SV) X(SX) X(SY) X(SZ) X(TC) X(TD) X(TF) X(TG) X(TH) X(TJ) X(TK) X(TL) X(TM) X(TN) X(TO) X(TR) X(TT) X(TV) X(TW) X(TZ) X(UA) X(UG) X(UM) X(US) X(UY) X(UZ) X(VA) X(VC) X(VE) X(VG) X(VI) X(VN) X(VU) X(WF) X(WS) X(YE) X(YT) X(ZA) X(ZM) X(ZW)
