{ "A", "rx", 4, 0 },
{ "AD", "rx", 4, 0 },
{ "ADB", "rx", 6, 0 },
{ "ADBR", "rr", 4, 0 },
{ "ADDFRR", "rr", 4, 0 },
{ "ADR", "rr", 2, 0 },
{ "ADTR", "rrr", 4, 0 },
{ "ADTRA", "rrrm", 4, 0 },
{ "AE", "rx", 4, 0 },
{ "AEB", "rx", 6, 0 },
{ "AEBR", "rr", 4, 0 },
{ "AER", "rr", 2, 0 },
{ "AFI", "rw", 6, 0 },
{ "AG", "rX", 6, 0 },
{ "AGF", "rX", 6, 0 },
{ "AGFI", "rw", 6, 0 },
{ "AGFR", "rr", 4, 0 },
{ "AGH", "rX", 6, 0 },
{ "AGHI", "rh", 4, 0 },
{ "AGHIK", "rrh", 6, 0 },
{ "AGR", "rr", 4, 0 },
{ "AGRK", "rrr", 4, 0 },
{ "AGSI", "Ds", 6, 0 },
{ "AH", "rx", 4, 0 },
{ "AHHHR", "rrr", 4, 0 },
{ "AHHLR", "rrr", 4, 0 },
{ "AHI", "rh", 4, 0 },
{ "AHIK", "rrh", 6, 0 },
{ "AHY", "rX", 6, 0 },
{ "AIH", "rw", 6, 0 },
{ "AL", "rx", 4, 0 },
{ "ALC", "rX", 6, 0 },
{ "ALCG", "rX", 6, 0 },
{ "ALCGR", "rr", 4, 0 },
{ "ALCR", "rr", 4, 0 },
{ "ALFI", "rw", 6, 0 },
{ "ALG", "rX", 6, 0 },
{ "ALGF", "rX", 6, 0 },
{ "ALGFI", "rw", 6, 0 },
{ "ALGFR", "rr", 4, 0 },
{ "ALGHSIK", "rrh", 6, 0 },
{ "ALGR", "rr", 4, 0 },
{ "ALGRK", "rrr", 4, 0 },
{ "ALGSI", "Ds", 6, 0 },
{ "ALHHHR", "rrr", 4, 0 },
{ "ALHHLR", "rrr", 4, 0 },
{ "ALHSIK", "rrh", 6, 0 },
{ "ALR", "rr", 2, 0 },
{ "ALRK", "rrr", 4, 0 },
{ "ALSI", "Ds", 6, 0 },
{ "ALSIH", "rw", 6, 0 },
{ "ALSIHN", "rw", 6, 0 },
{ "ALY", "rX", 6, 0 },
{ "AP", "kk", 6, 0 },
{ "AR", "rr", 2, 0 },
{ "ARK", "rrr", 4, 0 },
{ "ASI", "Ds", 6, 0 },
{ "AU", "rx", 4, 0 },
{ "AUR", "rr", 2, 0 },
{ "AW", "rx", 4, 0 },
{ "AWR", "rr", 2, 0 },
{ "AXBR", "rr", 4, 0 },
{ "AXR", "rr", 2, 0 },
{ "AXTR", "rrr", 4, 0 },
{ "AXTRA", "rrrm", 4, 0 },
{ "AY", "rX", 6, 0 },
{ "BAKR", "rr", 4, 0 },
{ "BAL", "rx", 4, 0 },
{ "BALR", "rr", 2, 0 },
{ "BAS", "rx", 4, 0 },
{ "BASR", "rr", 2, 0 },
{ "BASSM", "rr", 2, 0 },
{ "BC", "mx", 4, 0 },
{ "BCR", "mr", 2, 0 },
{ "BCT", "rx", 4, 0 },
{ "BCTG", "rX", 6, 0 },
{ "BCTGR", "rr", 4, 0 },
{ "BCTR", "rr", 2, 0 },
{ "BIC", "mX", 6, 0 },
{ "BPP", "mjd", 6, 0 },
{ "BPRP", "mtu", 6, 0 },
{ "BRAS", "rj", 4, 0 },
{ "BRASL", "rJ", 6, 0 },
{ "BRC", "mj", 4, 0 },
{ "BRCL", "mJ", 6, 0 },
{ "BRCT", "rj", 4, 0 },
{ "BRCTG", "rj", 4, 0 },
{ "BRCTH", "rJ", 6, 0 },
{ "BRXH", "rrj", 4, 0 },
{ "BRXHG", "rrj", 6, 0 },
{ "BRXLE", "rrj", 4, 0 },
{ "BRXLG", "rrj", 6, 0 },
{ "BSA", "rr", 4, 0 },
{ "BSG", "rr", 4, 0 },
{ "BSM", "rr", 2, 0 },
{ "BXH", "rrd", 4, 0 },
{ "BXHG", "rrD", 6, 0 },
{ "BXLE", "rrd", 4, 0 },
{ "BXLEG", "rrD", 6, 0 },
{ "C", "rx", 4, 0 },
{ "CD", "rx", 4, 0 },
{ "CDB", "rx", 6, 0 },
{ "CDBR", "rr", 4, 0 },
{ "CDFBR", "rr", 4, 0 },
{ "CDFBRA", "rmrm", 4, 0 },
{ "CDFR", "rr", 4, 0 },
{ "CDFTR", "rmrm", 4, 0 },
{ "CDGBR", "rr", 4, 0 },
{ "CDGBRA", "rmrm", 4, 0 },
{ "CDGR", "rr", 4, 0 },
{ "CDGTR", "rr", 4, 0 },
{ "CDGTRA", "rmrm", 4, 0 },
{ "CDLFBR", "rmrm", 4, 0 },
{ "CDLFTR", "rmrm", 4, 0 },
{ "CDLGBR", "rmrm", 4, 0 },
{ "CDLGTR", "rmrm", 4, 0 },
{ "CDPT", "rlm", 6, 0 },
{ "CDR", "rr", 2, 0 },
{ "CDS", "rrd", 4, 0 },
{ "CDSG", "rrD", 6, 0 },
{ "CDSTR", "rr", 4, 0 },
{ "CDSY", "rrD", 6, 0 },
{ "CDTR", "rr", 4, 0 },
{ "CDUTR", "rr", 4, 0 },
{ "CDZT", "rlm", 6, 0 },
{ "CE", "rx", 4, 0 },
{ "CEB", "rx", 6, 0 },
{ "CEBR", "rr", 4, 0 },
{ "CEDTR", "rr", 4, 0 },
{ "CEFBR", "rr", 4, 0 },
{ "CEFBRA", "rmrm", 4, 0 },
{ "CEFR", "rr", 4, 0 },
{ "CEGBR", "rr", 4, 0 },
{ "CEGBRA", "rmrm", 4, 0 },
{ "CEGR", "rr", 4, 0 },
{ "CELFBR", "rmrm", 4, 0 },
{ "CELGBR", "rmrm", 4, 0 },
{ "CER", "rr", 2, 0 },
{ "CEXTR", "rr", 4, 0 },
{ "CFC", "d", 4, 0 },
{ "CFDBR", "rmr", 4, 0 },
{ "CFDBRA", "rmrm", 4, 0 },
{ "CFDR", "rmr", 4, 0 },
{ "CFDTR", "rmrm", 4, 0 },
{ "CFEBR", "rmr", 4, 0 },
{ "CFEBRA", "rmrm", 4, 0 },
{ "CFER", "rmr", 4, 0 },
{ "CFI", "rw", 6, 0 },
{ "CFXBR", "rmr", 4, 0 },
{ "CFXBRA", "rmrm", 4, 0 },
{ "CFXR", "rmr", 4, 0 },
{ "CFXTR", "rmrm", 4, 0 },
{ "CG", "rX", 6, 0 },
{ "CGDBR", "rmr", 4, 0 },
{ "CGDBRA", "rmrm", 4, 0 },
{ "CGDR", "rmr", 4, 0 },
{ "CGDTR", "rmr", 4, 0 },
{ "CGDTRA", "rmrm", 4, 0 },
{ "CGEBR", "rmr", 4, 0 },
{ "CGEBRA", "rmrm", 4, 0 },
{ "CGER", "rmr", 4, 0 },
{ "CGF", "rX", 6, 0 },
{ "CGFI", "rw", 6, 0 },
{ "CGFR", "rr", 4, 0 },
{ "CGFRL", "rJ", 6, 0 },
{ "CGH", "rX", 6, 0 },
{ "CGHI", "rh", 4, 0 },
{ "CGHRL", "rJ", 6, 0 },
{ "CGHSI", "dh", 6, 0 },
{ "CGIB", "rsmd", 6, 0 },
{ "CGIJ", "rsmj", 6, 0 },
{ "CGIT", "rhm", 6, 0 },
{ "CGR", "rr", 4, 0 },
{ "CGRB", "rrmd", 6, 0 },
{ "CGRJ", "rrmj", 6, 0 },
{ "CGRL", "rJ", 6, 0 },
{ "CGRT", "rrm", 4, 0 },
{ "CGXBR", "rmr", 4, 0 },
{ "CGXBRA", "rmrm", 4, 0 },
{ "CGXR", "rmr", 4, 0 },
{ "CGXTR", "rmr", 4, 0 },
{ "CGXTRA", "rmrm", 4, 0 },
{ "CH", "rx", 4, 0 },
{ "CHF", "rX", 6, 0 },
{ "CHHR", "rr", 4, 0 },
{ "CHHSI", "dh", 6, 0 },
{ "CHI", "rh", 4, 0 },
{ "CHLR", "rr", 4, 0 },
{ "CHRL", "rJ", 6, 0 },
{ "CHSI", "dh", 6, 0 },
{ "CHY", "rX", 6, 0 },
{ "CIB", "rsmd", 6, 0 },
{ "CIH", "rw", 6, 0 },
{ "CIJ", "rsmj", 6, 0 },
{ "CIT", "rhm", 6, 0 },
{ "CKSM", "rr", 4, 0 },
{ "CL", "rx", 4, 0 },
{ "CLC", "ld", 6, 0 },
{ "CLCL", "rr", 2, 0 },
{ "CLCLE", "rrd", 4, 0 },
{ "CLCLU", "rrD", 6, 0 },
{ "CLFDBR", "rmrm", 4, 0 },
{ "CLFDTR", "rmrm", 4, 0 },
{ "CLFEBR", "rmrm", 4, 0 },
{ "CLFHSI", "dH", 6, 0 },
{ "CLFI", "rw", 6, 0 },
{ "CLFIT", "rHm", 6, 0 },
{ "CLFXBR", "rmrm", 4, 0 },
{ "CLFXTR", "rmrm", 4, 0 },
{ "CLG", "rX", 6, 0 },
{ "CLGDBR", "rmrm", 4, 0 },
{ "CLGDTR", "rmrm", 4, 0 },
{ "CLGEBR", "rmrm", 4, 0 },
{ "CLGF", "rX", 6, 0 },
{ "CLGFI", "rw", 6, 0 },
{ "CLGFR", "rr", 4, 0 },
{ "CLGFRL", "rJ", 6, 0 },
{ "CLGHRL", "rJ", 6, 0 },
{ "CLGHSI", "dH", 6, 0 },
{ "CLGIB", "rbmd", 6, 0 },
{ "CLGIJ", "rbmj", 6, 0 },
{ "CLGIT", "rHm", 6, 0 },
{ "CLGR", "rr", 4, 0 },
{ "CLGRB", "rrmd", 6, 0 },
{ "CLGRJ", "rrmj", 6, 0 },
{ "CLGRL", "rJ", 6, 0 },
{ "CLGRT", "rrm", 4, 0 },
{ "CLGT", "rmD", 6, 0 },
{ "CLGXBR", "rmrm", 4, 0 },
{ "CLGXTR", "rmrm", 4, 0 },
{ "CLHF", "rX", 6, 0 },
{ "CLHHR", "rr", 4, 0 },
{ "CLHHSI", "dH", 6, 0 },
{ "CLHLR", "rr", 4, 0 },
{ "CLHRL", "rJ", 6, 0 },
{ "CLI", "db", 4, 0 },
{ "CLIB", "rbmd", 6, 0 },
{ "CLIH", "rw", 6, 0 },
{ "CLIJ", "rbmj", 6, 0 },
{ "CLIY", "Db", 6, 0 },
{ "CLM", "rmd", 4, 0 },
{ "CLMH", "rmD", 6, 0 },
{ "CLMY", "rmD", 6, 0 },
{ "CLR", "rr", 2, 0 },
{ "CLRB", "rrmd", 6, 0 },
{ "CLRCH", "d", 4, 0 },
{ "CLRIO", "d", 4, 0 },
{ "CLRJ", "rrmj", 6, 0 },
{ "CLRL", "rJ", 6, 0 },
{ "CLRT", "rrm", 4, 0 },
{ "CLST", "rr", 4, 0 },
{ "CLT", "rmD", 6, 0 },
{ "CLY", "rX", 6, 0 },
{ "CMPSC", "rr", 4, 0 },
{ "CONCS", "d", 4, 0 },
{ "CP", "kk", 6, 0 },
{ "CPDT", "rlm", 6, 0 },
{ "CPSDR", "rrr", 4, 0 },
{ "CPXT", "rlm", 6, 0 },
{ "CPYA", "rr", 4, 0 },
{ "CR", "rr", 2, 0 },
{ "CRB", "rrmd", 6, 0 },
{ "CRDTE", "rrrm", 4, 1 },
{ "CRJ", "rrmj", 6, 0 },
{ "CRL", "rJ", 6, 0 },
{ "CRT", "rrm", 4, 0 },
{ "CS", "rrd", 4, 0 },
{ "CSCH", "", 4, 0 },
{ "CSDTR", "rrm", 4, 0 },
{ "CSG", "rrD", 6, 0 },
{ "CSP", "rr", 4, 0 },
{ "CSPG", "rr", 4, 0 },
{ "CSST", "ddr", 6, 0 },
{ "CSXTR", "rrm", 4, 0 },
{ "CSY", "rrD", 6, 0 },
{ "CU12", "rrm", 4, 1 },
{ "CU14", "rrm", 4, 1 },
{ "CU21", "rrm", 4, 0 },
{ "CU24", "rrm", 4, 1 },
{ "CU41", "rr", 4, 0 },
{ "CU42", "rr", 4, 0 },
{ "CUDTR", "rr", 4, 0 },
{ "CUSE", "rr", 4, 0 },
{ "CUTFU", "rrm", 4, 1 },
{ "CUUTF", "rrm", 4, 0 },
{ "CUXTR", "rr", 4, 0 },
{ "CVB", "rx", 4, 0 },
{ "CVBG", "rX", 6, 0 },
{ "CVBY", "rX", 6, 0 },
{ "CVD", "rx", 4, 0 },
{ "CVDG", "rX", 6, 0 },
{ "CVDY", "rX", 6, 0 },
{ "CXBR", "rr", 4, 0 },
{ "CXFBR", "rr", 4, 0 },
{ "CXFBRA", "rmrm", 4, 0 },
{ "CXFR", "rr", 4, 0 },
{ "CXFTR", "rmrm", 4, 0 },
{ "CXGBR", "rr", 4, 0 },
{ "CXGBRA", "rmrm", 4, 0 },
{ "CXGR", "rr", 4, 0 },
{ "CXGTR", "rr", 4, 0 },
{ "CXGTRA", "rmrm", 4, 0 },
{ "CXLFBR", "rmrm", 4, 0 },
{ "CXLFTR", "rmrm", 4, 0 },
{ "CXLGBR", "rmrm", 4, 0 },
{ "CXLGTR", "rmrm", 4, 0 },
{ "CXPT", "rlm", 6, 0 },
{ "CXR", "rr", 4, 0 },
{ "CXSTR", "rr", 4, 0 },
{ "CXTR", "rr", 4, 0 },
{ "CXUTR", "rr", 4, 0 },
{ "CXZT", "rlm", 6, 0 },
{ "CY", "rX", 6, 0 },
{ "CZDT", "rlm", 6, 0 },
{ "CZXT", "rlm", 6, 0 },
{ "D", "rx", 4, 0 },
{ "DD", "rx", 4, 0 },
{ "DDB", "rx", 6, 0 },
{ "DDBR", "rr", 4, 0 },
{ "DDR", "rr", 2, 0 },
{ "DDTR", "rrr", 4, 0 },
{ "DDTRA", "rrrm", 4, 0 },
{ "DE", "rx", 4, 0 },
{ "DEB", "rx", 6, 0 },
{ "DEBR", "rr", 4, 0 },
{ "DER", "rr", 2, 0 },
{ "DFLTCC", "rrr", 4, 0 },
{ "DIDBR", "rrrm", 4, 0 },
{ "DIEBR", "rrrm", 4, 0 },
{ "DISCS", "d", 4, 0 },
{ "DL", "rX", 6, 0 },
{ "DLG", "rX", 6, 0 },
{ "DLGR", "rr", 4, 0 },
{ "DLR", "rr", 4, 0 },
{ "DP", "kk", 6, 0 },
{ "DR", "rr", 2, 0 },
{ "DSG", "rX", 6, 0 },
{ "DSGF", "rX", 6, 0 },
{ "DSGFR", "rr", 4, 0 },
{ "DSGR", "rr", 4, 0 },
{ "DXBR", "rr", 4, 0 },
{ "DXR", "rr", 4, 0 },
{ "DXTR", "rrr", 4, 0 },
{ "DXTRA", "rrrm", 4, 0 },
{ "EAR", "rr", 4, 0 },
{ "ECAG", "rrD", 6, 0 },
{ "ECCTR", "rr", 4, 0 },
{ "ECPGA", "rr", 4, 0 },
{ "ECTG", "ddr", 6, 0 },
{ "ED", "ld", 6, 0 },
{ "EDMK", "ld", 6, 0 },
{ "EEDTR", "rr", 4, 0 },
{ "EEXTR", "rr", 4, 0 },
{ "EFPC", "r", 4, 0 },
{ "EPAIR", "r", 4, 0 },
{ "EPAR", "r", 4, 0 },
{ "EPCTR", "rr", 4, 0 },
{ "EPSW", "rr", 4, 0 },
{ "EREG", "rr", 4, 0 },
{ "EREGG", "rr", 4, 0 },
{ "ESAIR", "r", 4, 0 },
{ "ESAR", "r", 4, 0 },
{ "ESDTR", "rr", 4, 0 },
{ "ESEA", "r", 4, 0 },
{ "ESTA", "rr", 4, 0 },
{ "ESXTR", "rr", 4, 0 },
{ "ETND", "r", 4, 0 },
{ "EX", "rx", 4, 0 },
{ "EXRL", "rJ", 6, 0 },
{ "FIDBR", "rmr", 4, 0 },
{ "FIDBRA", "rmrm", 4, 0 },
{ "FIDR", "rr", 4, 0 },
{ "FIDTR", "rmrm", 4, 0 },
{ "FIEBR", "rmr", 4, 0 },
{ "FIEBRA", "rmrm", 4, 0 },
{ "FIER", "rr", 4, 0 },
{ "FIXBR", "rmr", 4, 0 },
{ "FIXBRA", "rmrm", 4, 0 },
{ "FIXR", "rr", 4, 0 },
{ "FIXTR", "rmrm", 4, 0 },
{ "FLOGR", "rr", 4, 0 },
{ "HDR", "rr", 2, 0 },
{ "HDV", "d", 4, 0 },
{ "HER", "rr", 2, 0 },
{ "HIO", "d", 4, 0 },
{ "HSCH", "", 4, 0 },
{ "IAC", "r", 4, 0 },
{ "IC", "rx", 4, 0 },
{ "ICM", "rmd", 4, 0 },
{ "ICMH", "rmD", 6, 0 },
{ "ICMY", "rmD", 6, 0 },
{ "ICY", "rX", 6, 0 },
{ "IDTE", "rrrm", 4, 1 },
{ "IEDTR", "rrr", 4, 0 },
{ "IEXTR", "rrr", 4, 0 },
{ "IIHF", "rw", 6, 0 },
{ "IIHH", "rH", 4, 0 },
{ "IIHL", "rH", 4, 0 },
{ "IILF", "rw", 6, 0 },
{ "IILH", "rH", 4, 0 },
{ "IILL", "rH", 4, 0 },
{ "IPK", "", 4, 0 },
{ "IPM", "r", 4, 0 },
{ "IPTE", "rrrm", 4, 2 },
{ "IRBM", "rr", 4, 0 },
{ "ISK", "rr", 2, 0 },
{ "ISKE", "rr", 4, 0 },
{ "IVSK", "rr", 4, 0 },
{ "KDB", "rx", 6, 0 },
{ "KDBR", "rr", 4, 0 },
{ "KDSA", "rr", 4, 0 },
{ "KDTR", "rr", 4, 0 },
{ "KEB", "rx", 6, 0 },
{ "KEBR", "rr", 4, 0 },
{ "KIMD", "rr", 4, 0 },
{ "KLMD", "rr", 4, 0 },
{ "KM", "rr", 4, 0 },
{ "KMA", "rrr", 4, 0 },
{ "KMAC", "rr", 4, 0 },
{ "KMC", "rr", 4, 0 },
{ "KMCTR", "rrr", 4, 0 },
{ "KMF", "rr", 4, 0 },
{ "KMO", "rr", 4, 0 },
{ "KXBR", "rr", 4, 0 },
{ "KXTR", "rr", 4, 0 },
{ "L", "rx", 4, 0 },
{ "LA", "rx", 4, 0 },
{ "LAA", "rrD", 6, 0 },
{ "LAAG", "rrD", 6, 0 },
{ "LAAL", "rrD", 6, 0 },
{ "LAALG", "rrD", 6, 0 },
{ "LAE", "rx", 4, 0 },
{ "LAEY", "rX", 6, 0 },
{ "LAM", "rrd", 4, 0 },
{ "LAMY", "rrD", 6, 0 },
{ "LAN", "rrD", 6, 0 },
{ "LANG", "rrD", 6, 0 },
{ "LAO", "rrD", 6, 0 },
{ "LAOG", "rrD", 6, 0 },
{ "LARL", "rJ", 6, 0 },
{ "LASP", "dd", 6, 0 },
{ "LAT", "rX", 6, 0 },
{ "LAX", "rrD", 6, 0 },
{ "LAXG", "rrD", 6, 0 },
{ "LAY", "rX", 6, 0 },
{ "LB", "rX", 6, 0 },
{ "LBH", "rX", 6, 0 },
{ "LBR", "rr", 4, 0 },
{ "LCBB", "rxm", 6, 0 },
{ "LCCTL", "d", 4, 0 },
{ "LCDBR", "rr", 4, 0 },
{ "LCDFR", "rr", 4, 0 },
{ "LCDR", "rr", 2, 0 },
{ "LCEBR", "rr", 4, 0 },
{ "LCER", "rr", 2, 0 },
{ "LCGFR", "rr", 4, 0 },
{ "LCGR", "rr", 4, 0 },
{ "LCR", "rr", 2, 0 },
{ "LCTL", "rrd", 4, 0 },
{ "LCTLG", "rrD", 6, 0 },
{ "LCXBR", "rr", 4, 0 },
{ "LCXR", "rr", 4, 0 },
{ "LD", "rx", 4, 0 },
{ "LDE", "rx", 6, 0 },
{ "LDEB", "rr", 4, 0 },
{ "LDEBR", "rr", 4, 0 },
{ "LDER", "rr", 4, 0 },
{ "LDETR", "rrm", 4, 0 },
{ "LDGR", "rr", 4, 0 },
{ "LDR", "rr", 2, 0 },
{ "LDXBR", "rr", 4, 0 },
{ "LDXBRA", "rmrm", 4, 0 },
{ "LDXR", "rr", 2, 0 },
{ "LDXTR", "rmrm", 4, 0 },
{ "LDY", "rX", 6, 0 },
{ "LE", "rx", 4, 0 },
{ "LEDBR", "rr", 4, 0 },
{ "LEDBRA", "rmrm", 4, 0 },
{ "LEDR", "rr", 2, 0 },
{ "LEDTR", "rmrm", 4, 0 },
{ "LER", "rr", 2, 0 },
{ "LEXBR", "rr", 4, 0 },
{ "LEXBRA", "rmrm", 4, 0 },
{ "LEXR", "rr", 4, 0 },
{ "LEY", "rX", 6, 0 },
{ "LFAS", "d", 4, 0 },
{ "LFH", "rX", 6, 0 },
{ "LFHAT", "rX", 6, 0 },
{ "LFPC", "d", 4, 0 },
{ "LG", "rX", 6, 0 },
{ "LGAT", "rX", 6, 0 },
{ "LGB", "rX", 6, 0 },
{ "LGBR", "rr", 4, 0 },
{ "LGDR", "rr", 4, 0 },
{ "LGF", "rX", 6, 0 },
{ "LGFI", "rw", 6, 0 },
{ "LGFR", "rr", 4, 0 },
{ "LGFRL", "rJ", 6, 0 },
{ "LGG", "rX", 6, 0 },
{ "LGH", "rX", 6, 0 },
{ "LGHI", "rh", 4, 0 },
{ "LGHR", "rr", 4, 0 },
{ "LGHRL", "rJ", 6, 0 },
{ "LGR", "rr", 4, 0 },
{ "LGRL", "rJ", 6, 0 },
{ "LGSC", "rX", 6, 0 },
{ "LH", "rx", 4, 0 },
{ "LHH", "rX", 6, 0 },
{ "LHI", "rh", 4, 0 },
{ "LHR", "rr", 4, 0 },
{ "LHRL", "rJ", 6, 0 },
{ "LHY", "rX", 6, 0 },
{ "LLC", "rX", 6, 0 },
{ "LLCH", "rX", 6, 0 },
{ "LLCR", "rr", 4, 0 },
{ "LLGC", "rX", 6, 0 },
{ "LLGCR", "rr", 4, 0 },
{ "LLGF", "rX", 6, 0 },
{ "LLGFAT", "rX", 6, 0 },
{ "LLGFR", "rr", 4, 0 },
{ "LLGFRL", "rJ", 6, 0 },
{ "LLGFSG", "rX", 6, 0 },
{ "LLGH", "rX", 6, 0 },
{ "LLGHR", "rr", 4, 0 },
{ "LLGHRL", "rJ", 6, 0 },
{ "LLGT", "rX", 6, 0 },
{ "LLGTAT", "rX", 6, 0 },
{ "LLGTR", "rr", 4, 0 },
{ "LLH", "rX", 6, 0 },
{ "LLHH", "rX", 6, 0 },
{ "LLHR", "rr", 4, 0 },
{ "LLHRL", "rJ", 6, 0 },
{ "LLIHF", "rw", 6, 0 },
{ "LLIHH", "rh", 4, 0 },
{ "LLIHL", "rh", 4, 0 },
{ "LLILF", "rw", 6, 0 },
{ "LLILH", "rh", 4, 0 },
{ "LLILL", "rh", 4, 0 },
{ "LLZRGF", "rX", 6, 0 },
{ "LM", "rrd", 4, 0 },
{ "LMD", "rrdd", 6, 0 },
{ "LMG", "rrD", 6, 0 },
{ "LMH", "rrD", 6, 0 },
{ "LMY", "rrD", 6, 0 },
{ "LNDBR", "rr", 4, 0 },
{ "LNDFR", "rr", 4, 0 },
{ "LNDR", "rr", 2, 0 },
{ "LNEBR", "rr", 4, 0 },
{ "LNER", "rr", 2, 0 },
{ "LNGFR", "rr", 4, 0 },
{ "LNGR", "rr", 4, 0 },
{ "LNR", "rr", 2, 0 },
{ "LNXBR", "rr", 4, 0 },
{ "LNXR", "rr", 4, 0 },
{ "LOC", "rDm", 6, 0 },
{ "LOCFH", "rDm", 6, 0 },
{ "LOCFHR", "rrm", 4, 0 },
{ "LOCG", "rDm", 6, 0 },
{ "LOCGHI", "rhm", 6, 0 },
{ "LOCGR", "rrm", 4, 0 },
{ "LOCHHI", "rhm", 6, 0 },
{ "LOCHI", "rhm", 6, 0 },
{ "LOCR", "rrm", 4, 0 },
{ "LPCTL", "d", 4, 0 },
{ "LPD", "rdd", 6, 0 },
{ "LPDBR", "rr", 4, 0 },
{ "LPDFR", "rr", 4, 0 },
{ "LPDG", "rdd", 6, 0 },
{ "LPDR", "rr", 2, 0 },
{ "LPEBR", "rr", 4, 0 },
{ "LPER", "rr", 2, 0 },
{ "LPGFR", "rr", 4, 0 },
{ "LPGR", "rr", 4, 0 },
{ "LPP", "d", 4, 0 },
{ "LPQ", "rX", 6, 0 },
{ "LPR", "rr", 2, 0 },
{ "LPSW", "d", 4, 0 },
{ "LPSWE", "d", 4, 0 },
{ "LPTEA", "rrrm", 4, 0 },
{ "LPXBR", "rr", 4, 0 },
{ "LPXR", "rr", 4, 0 },
{ "LR", "rr", 2, 0 },
{ "LRA", "rx", 4, 0 },
{ "LRAG", "rX", 6, 0 },
{ "LRAY", "rX", 6, 0 },
{ "LRDR", "rr", 2, 0 },
{ "LRER", "rr", 2, 0 },
{ "LRL", "rJ", 6, 0 },
{ "LRV", "rX", 6, 0 },
{ "LRVG", "rX", 6, 0 },
{ "LRVGR", "rr", 4, 0 },
{ "LRVH", "rX", 6, 0 },
{ "LRVR", "rr", 4, 0 },
{ "LSCTL", "d", 4, 0 },
{ "LT", "rX", 6, 0 },
{ "LTDBR", "rr", 4, 0 },
{ "LTDR", "rr", 2, 0 },
{ "LTDTR", "rr", 4, 0 },
{ "LTEBR", "rr", 4, 0 },
{ "LTER", "rr", 2, 0 },
{ "LTG", "rX", 6, 0 },
{ "LTGF", "rX", 6, 0 },
{ "LTGFR", "rr", 4, 0 },
{ "LTGR", "rr", 4, 0 },
{ "LTR", "rr", 2, 0 },
{ "LTXBR", "rr", 4, 0 },
{ "LTXR", "rr", 4, 0 },
{ "LTXTR", "rr", 4, 0 },
{ "LURA", "rr", 4, 0 },
{ "LURAG", "rr", 4, 0 },
{ "LXD", "rx", 6, 0 },
{ "LXDB", "rr", 4, 0 },
{ "LXDBR", "rr", 4, 0 },
{ "LXDR", "rr", 4, 0 },
{ "LXDTR", "rrm", 4, 0 },
{ "LXE", "rx", 6, 0 },
{ "LXEB", "rr", 4, 0 },
{ "LXEBR", "rr", 4, 0 },
{ "LXER", "rr", 4, 0 },
{ "LXR", "rr", 4, 0 },
{ "LY", "rX", 6, 0 },
{ "LZDR", "r", 4, 0 },
{ "LZER", "r", 4, 0 },
{ "LZRF", "rX", 6, 0 },
{ "LZRG", "rX", 6, 0 },
{ "LZXR", "r", 4, 0 },
{ "M", "rx", 4, 0 },
{ "MAD", "rrx", 6, 0 },
{ "MADB", "rrx", 6, 0 },
{ "MADBR", "rrr", 4, 0 },
{ "MADR", "rrr", 4, 0 },
{ "MAE", "rrx", 6, 0 },
{ "MAEB", "rrx", 6, 0 },
{ "MAEBR", "rrr", 4, 0 },
{ "MAER", "rrr", 4, 0 },
{ "MAY", "rrx", 6, 0 },
{ "MAYH", "rrx", 6, 0 },
{ "MAYHR", "rrr", 4, 0 },
{ "MAYL", "rrx", 6, 0 },
{ "MAYLR", "rrr", 4, 0 },
{ "MAYR", "rrr", 4, 0 },
{ "MC", "db", 4, 0 },
{ "MD", "rx", 4, 0 },
{ "MDB", "rx", 6, 0 },
{ "MDBR", "rr", 4, 0 },
{ "MDE", "rx", 4, 0 },
{ "MDEB", "rx", 6, 0 },
{ "MDEBR", "rr", 4, 0 },
{ "MDER", "rr", 2, 0 },
{ "MDR", "rr", 2, 0 },
{ "MDTR", "rrr", 4, 0 },
{ "MDTRA", "rrrm", 4, 0 },
{ "ME", "rx", 4, 0 },
{ "MEE", "rx", 6, 0 },
{ "MEEB", "rx", 6, 0 },
{ "MEEBR", "rr", 4, 0 },
{ "MEER", "rr", 4, 0 },
{ "MER", "rr", 2, 0 },
{ "MFY", "rX", 6, 0 },
{ "MG", "rX", 6, 0 },
{ "MGH", "rX", 6, 0 },
{ "MGHI", "rh", 4, 0 },
{ "MGRK", "rrr", 4, 0 },
{ "MH", "rx", 4, 0 },
{ "MHI", "rh", 4, 0 },
{ "MHY", "rX", 6, 0 },
{ "ML", "rX", 6, 0 },
{ "MLG", "rX", 6, 0 },
{ "MLGR", "rr", 4, 0 },
{ "MLR", "rr", 4, 0 },
{ "MP", "kk", 6, 0 },
{ "MR", "rr", 2, 0 },
{ "MS", "rx", 4, 0 },
{ "MSC", "rX", 6, 0 },
{ "MSCH", "d", 4, 0 },
{ "MSD", "rrx", 6, 0 },
{ "MSDB", "rrx", 6, 0 },
{ "MSDBR", "rrr", 4, 0 },
{ "MSDR", "rrr", 4, 0 },
{ "MSE", "rrx", 6, 0 },
{ "MSEB", "rrx", 6, 0 },
{ "MSEBR", "rrr", 4, 0 },
{ "MSER", "rrr", 4, 0 },
{ "MSFI", "rw", 6, 0 },
{ "MSG", "rX", 6, 0 },
{ "MSGC", "rX", 6, 0 },
{ "MSGF", "rX", 6, 0 },
{ "MSGFI", "rw", 6, 0 },
{ "MSGFR", "rr", 4, 0 },
{ "MSGR", "rr", 4, 0 },
{ "MSGRKC", "rrr", 4, 0 },
{ "MSR", "rr", 4, 0 },
{ "MSRKC", "rrr", 4, 0 },
{ "MSTA", "r", 4, 0 },
{ "MSY", "rX", 6, 0 },
{ "MVC", "ld", 6, 0 },
{ "MVCDK", "dd", 6, 0 },
{ "MVCIN", "ld", 6, 0 },
{ "MVCK", "qdr", 6, 0 },
{ "MVCL", "rr", 2, 0 },
{ "MVCLE", "rrd", 4, 0 },
{ "MVCLU", "rrD", 6, 0 },
{ "MVCOS", "ddr", 6, 0 },
{ "MVCP", "qdr", 6, 0 },
{ "MVCRL", "dd", 6, 0 },
{ "MVCS", "qdr", 6, 0 },
{ "MVCSK", "dd", 6, 0 },
{ "MVGHI", "dh", 6, 0 },
{ "MVHHI", "dh", 6, 0 },
{ "MVHI", "dh", 6, 0 },
{ "MVI", "db", 4, 0 },
{ "MVIY", "Db", 6, 0 },
{ "MVN", "ld", 6, 0 },
{ "MVO", "kk", 6, 0 },
{ "MVPG", "rr", 4, 0 },
{ "MVST", "rr", 4, 0 },
{ "MVZ", "ld", 6, 0 },
{ "MXBR", "rr", 4, 0 },
{ "MXD", "rx", 4, 0 },
{ "MXDB", "rx", 6, 0 },
{ "MXDBR", "rr", 4, 0 },
{ "MXDR", "rr", 2, 0 },
{ "MXR", "rr", 2, 0 },
{ "MXTR", "rrr", 4, 0 },
{ "MXTRA", "rrrm", 4, 0 },
{ "MY", "rrx", 6, 0 },
{ "MYH", "rrx", 6, 0 },
{ "MYHR", "rrr", 4, 0 },
{ "MYL", "rrx", 6, 0 },
{ "MYLR", "rrr", 4, 0 },
{ "MYR", "rrr", 4, 0 },
{ "N", "rx", 4, 0 },
{ "NC", "ld", 6, 0 },
{ "NCGRK", "rrr", 4, 0 },
{ "NCRK", "rrr", 4, 0 },
{ "NG", "rX", 6, 0 },
{ "NGR", "rr", 4, 0 },
{ "NGRK", "rrr", 4, 0 },
{ "NI", "db", 4, 0 },
{ "NIAI", "nn", 4, 0 },
{ "NIHF", "rw", 6, 0 },
{ "NIHH", "rH", 4, 0 },
{ "NIHL", "rH", 4, 0 },
{ "NILF", "rw", 6, 0 },
{ "NILH", "rH", 4, 0 },
{ "NILL", "rH", 4, 0 },
{ "NIY", "Db", 6, 0 },
{ "NNGRK", "rrr", 4, 0 },
{ "NNRK", "rrr", 4, 0 },
{ "NOGRK", "rrr", 4, 0 },
{ "NORK", "rrr", 4, 0 },
{ "NR", "rr", 2, 0 },
{ "NRK", "rrr", 4, 0 },
{ "NTSTG", "rX", 6, 0 },
{ "NXGRK", "rrr", 4, 0 },
{ "NXRK", "rrr", 4, 0 },
{ "NY", "rX", 6, 0 },
{ "O", "rx", 4, 0 },
{ "OC", "ld", 6, 0 },
{ "OCGRK", "rrr", 4, 0 },
{ "OCRK", "rrr", 4, 0 },
{ "OG", "rX", 6, 0 },
{ "OGR", "rr", 4, 0 },
{ "OGRK", "rrr", 4, 0 },
{ "OI", "db", 4, 0 },
{ "OIHF", "rw", 6, 0 },
{ "OIHH", "rh", 4, 0 },
{ "OIHL", "rh", 4, 0 },
{ "OILF", "rw", 6, 0 },
{ "OILH", "rh", 4, 0 },
{ "OILL", "rh", 4, 0 },
{ "OIY", "Db", 6, 0 },
{ "OR", "rr", 2, 0 },
{ "ORK", "rrr", 4, 0 },
{ "OY", "rX", 6, 0 },
{ "PACK", "kk", 6, 0 },
{ "PALB", "", 4, 0 },
{ "PC", "d", 4, 0 },
{ "PCC", "", 4, 0 },
{ "PCKMO", "", 4, 0 },
{ "PFD", "mX", 6, 0 },
{ "PFDRL", "mJ", 6, 0 },
{ "PFMF", "rr", 4, 0 },
{ "PFPO", "", 2, 0 },
{ "PGIN", "rr", 4, 0 },
{ "PGOUT", "rr", 4, 0 },
{ "PKA", "dl", 6, 0 },
{ "PKU", "dl", 6, 0 },
{ "PLO", "rdrd", 6, 0 },
{ "POPCNT", "rrm", 4, 1 },
{ "PPA", "rrm", 4, 0 },
{ "PPNO", "rr", 4, 0 },
{ "PR", "", 2, 0 },
{ "PRNO", "rr", 4, 0 },
{ "PT", "rr", 4, 0 },
{ "PTF", "r", 4, 0 },
{ "PTFF", "", 2, 0 },
{ "PTI", "rr", 4, 0 },
{ "PTLB", "", 4, 0 },
{ "QADTR", "rrrm", 4, 0 },
{ "QAXTR", "rrrm", 4, 0 },
{ "QCTRI", "d", 4, 0 },
{ "QSI", "d", 4, 0 },
{ "RCHP", "", 4, 0 },
{ "RISBG", "rrbbb", 6, 1 },
{ "RISBGN", "rrbbb", 6, 1 },
{ "RISBGNZ", "rrbbb", 6, 1 },
{ "RISBGZ", "rrbbb", 6, 1 },
{ "RISBHG", "rrbbb", 6, 1 },
{ "RISBHGZ", "rrbbb", 6, 1 },
{ "RISBLG", "rrbbb", 6, 1 },
{ "RISBLGZ", "rrbbb", 6, 1 },
{ "RLL", "rrD", 6, 0 },
{ "RLLG", "rrD", 6, 0 },
{ "RNSBG", "rrbbb", 6, 1 },
{ "RNSBGT", "rrbbb", 6, 1 },
{ "ROSBG", "rrbbb", 6, 1 },
{ "ROSBGT", "rrbbb", 6, 1 },
{ "RP", "d", 4, 0 },
{ "RRB", "d", 4, 0 },
{ "RRBE", "rr", 4, 0 },
{ "RRBM", "rr", 4, 0 },
{ "RRDTR", "rrrm", 4, 0 },
{ "RRXTR", "rrrm", 4, 0 },
{ "RSCH", "", 4, 0 },
{ "RXSBG", "rrbbb", 6, 1 },
{ "RXSBGT", "rrbbb", 6, 1 },
{ "S", "rx", 4, 0 },
{ "SAC", "d", 4, 0 },
{ "SACF", "d", 4, 0 },
{ "SAL", "", 4, 0 },
{ "SAM24", "", 2, 0 },
{ "SAM31", "", 2, 0 },
{ "SAM64", "", 2, 0 },
{ "SAR", "rr", 4, 0 },
{ "SCCTR", "rr", 4, 0 },
{ "SCHM", "", 4, 0 },
{ "SCK", "d", 4, 0 },
{ "SCKC", "d", 4, 0 },
{ "SCKPF", "", 2, 0 },
{ "SD", "rx", 4, 0 },
{ "SDB", "rx", 6, 0 },
{ "SDBR", "rr", 4, 0 },
{ "SDR", "rr", 2, 0 },
{ "SDTR", "rrr", 4, 0 },
{ "SDTRA", "rrrm", 4, 0 },
{ "SE", "rx", 4, 0 },
{ "SEB", "rx", 6, 0 },
{ "SEBR", "rr", 4, 0 },
{ "SELFHR", "rrrm", 4, 0 },
{ "SELGR", "rrrm", 4, 0 },
{ "SELR", "rrrm", 4, 0 },
{ "SER", "rr", 2, 0 },
{ "SFASR", "r", 4, 0 },
{ "SFPC", "r", 4, 0 },
{ "SG", "rX", 6, 0 },
{ "SGF", "rX", 6, 0 },
{ "SGFR", "rr", 4, 0 },
{ "SGH", "rX", 6, 0 },
{ "SGR", "rr", 4, 0 },
{ "SGRK", "rrr", 4, 0 },
{ "SH", "rx", 4, 0 },
{ "SHHHR", "rrr", 4, 0 },
{ "SHHLR", "rrr", 4, 0 },
{ "SHY", "rX", 6, 0 },
{ "SIE", "d", 4, 0 },
{ "SIGP", "rrd", 4, 0 },
{ "SIO", "d", 4, 0 },
{ "SIOF", "d", 4, 0 },
{ "SL", "rx", 4, 0 },
{ "SLA", "rd", 4, 0 },
{ "SLAG", "rrD", 6, 0 },
{ "SLAK", "rrD", 6, 0 },
{ "SLB", "rX", 6, 0 },
{ "SLBG", "rX", 6, 0 },
{ "SLBGR", "rr", 4, 0 },
{ "SLBR", "rr", 4, 0 },
{ "SLDA", "rd", 4, 0 },
{ "SLDL", "rd", 4, 0 },
{ "SLDT", "rrx", 6, 0 },
{ "SLFI", "rw", 6, 0 },
{ "SLG", "rX", 6, 0 },
{ "SLGF", "rX", 6, 0 },
{ "SLGFI", "rw", 6, 0 },
{ "SLGFR", "rr", 4, 0 },
{ "SLGR", "rr", 4, 0 },
{ "SLGRK", "rrr", 4, 0 },
{ "SLHHHR", "rrr", 4, 0 },
{ "SLHHLR", "rrr", 4, 0 },
{ "SLL", "rd", 4, 0 },
{ "SLLG", "rrD", 6, 0 },
{ "SLLK", "rrD", 6, 0 },
{ "SLR", "rr", 2, 0 },
{ "SLRK", "rrr", 4, 0 },
{ "SLXT", "rrx", 6, 0 },
{ "SLY", "rX", 6, 0 },
{ "SORTL", "rr", 4, 0 },
{ "SP", "kk", 6, 0 },
{ "SPCTR", "rr", 4, 0 },
{ "SPKA", "d", 4, 0 },
{ "SPM", "r", 2, 0 },
{ "SPT", "d", 4, 0 },
{ "SPX", "d", 4, 0 },
{ "SQD", "rx", 6, 0 },
{ "SQDB", "rx", 6, 0 },
{ "SQDBR", "rr", 4, 0 },
{ "SQDR", "rr", 4, 0 },
{ "SQE", "rx", 6, 0 },
{ "SQEB", "rx", 6, 0 },
{ "SQEBR", "rr", 4, 0 },
{ "SQER", "rr", 4, 0 },
{ "SQXBR", "rr", 4, 0 },
{ "SQXR", "rr", 4, 0 },
{ "SR", "rr", 2, 0 },
{ "SRA", "rd", 4, 0 },
{ "SRAG", "rrD", 6, 0 },
{ "SRAK", "rrD", 6, 0 },
{ "SRDA", "rd", 4, 0 },
{ "SRDL", "rd", 4, 0 },
{ "SRDT", "rrx", 6, 0 },
{ "SRK", "rrr", 4, 0 },
{ "SRL", "rd", 4, 0 },
{ "SRLG", "rrD", 6, 0 },
{ "SRLK", "rrD", 6, 0 },
{ "SRNM", "d", 4, 0 },
{ "SRNMB", "d", 4, 0 },
{ "SRNMT", "d", 4, 0 },
{ "SRP", "kdn", 6, 0 },
{ "SRST", "rr", 4, 0 },
{ "SRSTU", "rr", 4, 0 },
{ "SRXT", "rrx", 6, 0 },
{ "SSAIR", "r", 4, 0 },
{ "SSAR", "r", 4, 0 },
{ "SSCH", "d", 4, 0 },
{ "SSK", "rr", 2, 0 },
{ "SSKE", "rrm", 4, 1 },
{ "SSM", "d", 4, 0 },
{ "ST", "rx", 4, 0 },
{ "STAM", "rrd", 4, 0 },
{ "STAMY", "rrD", 6, 0 },
{ "STAP", "d", 4, 0 },
{ "STC", "rx", 4, 0 },
{ "STCH", "rX", 6, 0 },
{ "STCK", "d", 4, 0 },
{ "STCKC", "d", 4, 0 },
{ "STCKE", "d", 4, 0 },
{ "STCKF", "d", 4, 0 },
{ "STCM", "rmd", 4, 0 },
{ "STCMH", "rmD", 6, 0 },
{ "STCMY", "rmD", 6, 0 },
{ "STCPS", "d", 4, 0 },
{ "STCRW", "d", 4, 0 },
{ "STCTG", "rrD", 6, 0 },
{ "STCTL", "rrd", 4, 0 },
{ "STCY", "rX", 6, 0 },
{ "STD", "rx", 4, 0 },
{ "STDY", "rX", 6, 0 },
{ "STE", "rx", 4, 0 },
{ "STEY", "rX", 6, 0 },
{ "STFH", "rX", 6, 0 },
{ "STFL", "d", 4, 0 },
{ "STFLE", "d", 4, 0 },
{ "STFPC", "d", 4, 0 },
{ "STG", "rX", 6, 0 },
{ "STGRL", "rJ", 6, 0 },
{ "STGSC", "rX", 6, 0 },
{ "STH", "rx", 4, 0 },
{ "STHH", "rX", 6, 0 },
{ "STHRL", "rJ", 6, 0 },
{ "STHY", "rX", 6, 0 },
{ "STIDC", "d", 4, 0 },
{ "STIDP", "d", 4, 0 },
{ "STM", "rrd", 4, 0 },
{ "STMG", "rrD", 6, 0 },
{ "STMH", "rrD", 6, 0 },
{ "STMY", "rrD", 6, 0 },
{ "STNSM", "db", 4, 0 },
{ "STOC", "rDm", 6, 0 },
{ "STOCFH", "rDm", 6, 0 },
{ "STOCG", "rDm", 6, 0 },
{ "STOSM", "db", 4, 0 },
{ "STPQ", "rX", 6, 0 },
{ "STPT", "d", 4, 0 },
{ "STPX", "d", 4, 0 },
{ "STRAG", "dd", 6, 0 },
{ "STRL", "rJ", 6, 0 },
{ "STRV", "rX", 6, 0 },
{ "STRVG", "rX", 6, 0 },
{ "STRVH", "rX", 6, 0 },
{ "STSCH", "d", 4, 0 },
{ "STSI", "d", 4, 0 },
{ "STURA", "rr", 4, 0 },
{ "STURG", "rr", 4, 0 },
{ "STY", "rX", 6, 0 },
{ "SU", "rx", 4, 0 },
{ "SUR", "rr", 2, 0 },
{ "SVC", "b", 2, 0 },
{ "SW", "rx", 4, 0 },
{ "SWR", "rr", 2, 0 },
{ "SXBR", "rr", 4, 0 },
{ "SXR", "rr", 2, 0 },
{ "SXTR", "rrr", 4, 0 },
{ "SXTRA", "rrrm", 4, 0 },
{ "SY", "rX", 6, 0 },
{ "TABORT", "d", 4, 0 },
{ "TAM", "", 2, 0 },
{ "TAR", "rr", 4, 0 },
{ "TB", "rr", 4, 0 },
{ "TBDR", "rmr", 4, 0 },
{ "TBEDR", "rmr", 4, 0 },
{ "TBEGIN", "dh", 6, 0 },
{ "TBEGINC", "dh", 6, 0 },
{ "TCDB", "rx", 6, 0 },
{ "TCEB", "rx", 6, 0 },
{ "TCH", "d", 4, 0 },
{ "TCXB", "rx", 6, 0 },
{ "TDCDT", "rx", 6, 0 },
{ "TDCET", "rx", 6, 0 },
{ "TDCXT", "rx", 6, 0 },
{ "TDGDT", "rx", 6, 0 },
{ "TDGET", "rx", 6, 0 },
{ "TDGXT", "rx", 6, 0 },
{ "TEND", "", 4, 0 },
{ "THDER", "rr", 4, 0 },
{ "THDR", "rr", 4, 0 },
{ "TIO", "d", 4, 0 },
{ "TM", "db", 4, 0 },
{ "TMH", "rH", 4, 0 },
{ "TMHH", "rH", 4, 0 },
{ "TMHL", "rH", 4, 0 },
{ "TML", "rH", 4, 0 },
{ "TMLH", "rH", 4, 0 },
{ "TMLL", "rH", 4, 0 },
{ "TMY", "Db", 6, 0 },
{ "TP", "k", 6, 0 },
{ "TPEI", "rr", 4, 0 },
{ "TPI", "d", 4, 0 },
{ "TPROT", "dd", 6, 0 },
{ "TR", "ld", 6, 0 },
{ "TRACE", "rrd", 4, 0 },
{ "TRACG", "rrD", 6, 0 },
{ "TRAP2", "", 2, 0 },
{ "TRAP4", "d", 4, 0 },
{ "TRE", "rr", 4, 0 },
{ "TROO", "rrm", 4, 1 },
{ "TROT", "rrm", 4, 1 },
{ "TRT", "ld", 6, 0 },
{ "TRTE", "rrm", 4, 1 },
{ "TRTO", "rrm", 4, 1 },
{ "TRTR", "ld", 6, 0 },
{ "TRTRE", "rrm", 4, 1 },
{ "TRTT", "rrm", 4, 1 },
{ "TS", "d", 4, 0 },
{ "TSCH", "d", 4, 0 },
{ "UNPK", "kk", 6, 0 },
{ "UNPKA", "ld", 6, 0 },
{ "UNPKU", "ld", 6, 0 },
{ "UPT", "", 2, 0 },
{ "VA", "vvvm", 6, 0 },
{ "VAC", "vvvvm", 6, 0 },
{ "VACC", "vvvm", 6, 0 },
{ "VACCC", "vvvvm", 6, 0 },
{ "VACD", "rH", 4, 0 },
{ "VACE", "rH", 4, 0 },
{ "VACRS", "rr", 4, 0 },
{ "VACSV", "rr", 4, 0 },
{ "VAD", "rH", 4, 0 },
{ "VADS", "rH", 4, 0 },
{ "VAE", "rH", 4, 0 },
{ "VAES", "rH", 4, 0 },
{ "VAP", "vvvbm", 6, 0 },
{ "VAS", "rH", 4, 0 },
{ "VAVG", "vvvm", 6, 0 },
{ "VAVGL", "vvvm", 6, 0 },
{ "VBPERM", "vvv", 6, 0 },
{ "VC", "rH", 4, 0 },
{ "VCD", "rH", 4, 0 },
{ "VCDS", "rH", 4, 0 },
{ "VCE", "rH", 4, 0 },
{ "VCEQ", "vvvmm", 6, 0 },
{ "VCES", "rH", 4, 0 },
{ "VCFPL", "vvmmm", 6, 0 },
{ "VCFPS", "vvmmm", 6, 0 },
{ "VCH", "vvvmm", 6, 0 },
{ "VCHL", "vvvmm", 6, 0 },
{ "VCKSM", "vvv", 6, 0 },
{ "VCLFP", "vvmmm", 6, 0 },
{ "VCLGD", "vvmmm", 6, 0 },
{ "VCLZ", "vvm", 6, 0 },
{ "VCOVM", "rr", 4, 0 },
{ "VCP", "vvm", 6, 0 },
{ "VCS", "rH", 4, 0 },
{ "VCSFP", "vvmmm", 6, 0 },
{ "VCTZ", "vvm", 6, 0 },
{ "VCVB", "rvm", 6, 0 },
{ "VCVBG", "rvm", 6, 0 },
{ "VCVM", "rr", 4, 0 },
{ "VCZVM", "rr", 4, 0 },
{ "VDD", "rH", 4, 0 },
{ "VDDS", "rH", 4, 0 },
{ "VDE", "rH", 4, 0 },
{ "VDES", "rH", 4, 0 },
{ "VDP", "vvvbm", 6, 0 },
{ "VEC", "vvm", 6, 0 },
{ "VECL", "vvm", 6, 0 },
{ "VERIM", "vvvbm", 6, 0 },
{ "VERLL", "vvdm", 6, 0 },
{ "VERLLV", "vvvm", 6, 0 },
{ "VESL", "vvdm", 6, 0 },
{ "VESLV", "vvvm", 6, 0 },
{ "VESRA", "vvdm", 6, 0 },
{ "VESRAV", "vvvm", 6, 0 },
{ "VESRL", "vvdm", 6, 0 },
{ "VESRLV", "vvvm", 6, 0 },
{ "VFA", "vvvmm", 6, 0 },
{ "VFAE", "vvvmm", 6, 1 },
{ "VFCE", "vvvmmm", 6, 0 },
{ "VFCH", "vvvmmm", 6, 0 },
{ "VFCHE", "vvvmmm", 6, 0 },
{ "VFD", "vvvmm", 6, 0 },
{ "VFEE", "vvvmm", 6, 1 },
{ "VFENE", "vvvmm", 6, 1 },
{ "VFI", "vvmmm", 6, 0 },
{ "VFLL", "vvmm", 6, 0 },
{ "VFLR", "vvmmm", 6, 0 },
{ "VFM", "vvvmm", 6, 0 },
{ "VFMA", "vvvvmm", 6, 0 },
{ "VFMAX", "vvvmmm", 6, 0 },
{ "VFMIN", "vvvmmm", 6, 0 },
{ "VFMS", "vvvvmm", 6, 0 },
{ "VFNMA", "vvvvmm", 6, 0 },
{ "VFNMS", "vvvvmm", 6, 0 },
{ "VFPSO", "vvmmm", 6, 0 },
{ "VFS", "vvvmm", 6, 0 },
{ "VFSQ", "vvmm", 6, 0 },
{ "VGBM", "vH", 6, 0 },
{ "VGEF", "vym", 6, 0 },
{ "VGEG", "vym", 6, 0 },
{ "VGFM", "vvvm", 6, 0 },
{ "VGFMA", "vvvvm", 6, 0 },
{ "VGM", "vbbm", 6, 0 },
{ "VISTR", "vvmm", 6, 1 },
{ "VL", "vxm", 6, 1 },
{ "VLBB", "vxm", 6, 0 },
{ "VLBIX", "rr", 4, 0 },
{ "VLBR", "vxm", 6, 0 },
{ "VLBRREP", "vxm", 6, 0 },
{ "VLC", "vvm", 6, 0 },
{ "VLCVM", "rr", 4, 0 },
{ "VLD", "rH", 4, 0 },
{ "VLEB", "vxm", 6, 0 },
{ "VLEBRG", "vxm", 6, 0 },
{ "VLEBRH", "vxm", 6, 0 },
{ "VLEF", "vxm", 6, 0 },
{ "VLEG", "vxm", 6, 0 },
{ "VLEH", "vxm", 6, 0 },
{ "VLEIB", "vhm", 6, 0 },
{ "VLEIF", "vhm", 6, 0 },
{ "VLEIG", "vhm", 6, 0 },
{ "VLEIH", "vhm", 6, 0 },
{ "VLELD", "rr", 4, 0 },
{ "VLELE", "rr", 4, 0 },
{ "VLER", "vxm", 6, 0 },
{ "VLGV", "rvdm", 6, 0 },
{ "VLH", "rH", 4, 0 },
{ "VLI", "rr", 4, 0 },
{ "VLID", "rr", 4, 0 },
{ "VLINT", "rH", 4, 0 },
{ "VLL", "vrd", 6, 0 },
{ "VLLEBRZ", "vxm", 6, 0 },
{ "VLLEZ", "vxm", 6, 0 },
{ "VLM", "vvdm", 6, 1 },
{ "VLMD", "rH", 4, 0 },
{ "VLP", "vvm", 6, 0 },
{ "VLR", "vv", 6, 0 },
{ "VLREP", "vxm", 6, 0 },
{ "VLRL", "vdb", 6, 0 },
{ "VLRLR", "vrd", 6, 0 },
{ "VLVCA", "rr", 4, 0 },
{ "VLVCU", "rr", 4, 0 },
{ "VLVG", "vrdm", 6, 0 },
{ "VLVGP", "vrr", 6, 0 },
{ "VLVM", "rr", 4, 0 },
{ "VLY", "rH", 4, 0 },
{ "VLYD", "rH", 4, 0 },
{ "VM", "rH", 4, 0 },
{ "VMAD", "rH", 4, 0 },
{ "VMADS", "rH", 4, 0 },
{ "VMAE", "vvvvm", 6, 0 },
{ "VMAES", "rH", 4, 0 },
{ "VMAH", "vvvvm", 6, 0 },
{ "VMAL", "vvvvm", 6, 0 },
{ "VMALE", "vvvvm", 6, 0 },
{ "VMALH", "vvvvm", 6, 0 },
{ "VMALO", "vvvvm", 6, 0 },
{ "VMAO", "vvvvm", 6, 0 },
{ "VMCD", "rH", 4, 0 },
{ "VMCE", "rH", 4, 0 },
{ "VMD", "rH", 4, 0 },
{ "VMDS", "rH", 4, 0 },
{ "VME", "vvvm", 6, 0 },
{ "VMES", "rH", 4, 0 },
{ "VMH", "vvvm", 6, 0 },
{ "VML", "vvvm", 6, 0 },
{ "VMLE", "vvvm", 6, 0 },
{ "VMLH", "vvvm", 6, 0 },
{ "VMLO", "vvvm", 6, 0 },
{ "VMN", "vvvm", 6, 0 },
{ "VMNL", "vvvm", 6, 0 },
{ "VMNSD", "rr", 4, 0 },
{ "VMNSE", "rr", 4, 0 },
{ "VMO", "vvvm", 6, 0 },
{ "VMP", "vvvbm", 6, 0 },
{ "VMRH", "vvvm", 6, 0 },
{ "VMRL", "vvvm", 6, 0 },
{ "VMRRS", "rr", 4, 0 },
{ "VMRSV", "rr", 4, 0 },
{ "VMS", "rH", 4, 0 },
{ "VMSD", "rH", 4, 0 },
{ "VMSDS", "rH", 4, 0 },
{ "VMSE", "rH", 4, 0 },
{ "VMSES", "rH", 4, 0 },
{ "VMSL", "vvvvmm", 6, 0 },
{ "VMSP", "vvvbm", 6, 0 },
{ "VMX", "vvvm", 6, 0 },
{ "VMXAD", "rr", 4, 0 },
{ "VMXAE", "rr", 4, 0 },
{ "VMXL", "vvvm", 6, 0 },
{ "VMXSE", "rr", 4, 0 },
{ "VN", "vvv", 6, 0 },
{ "VNC", "vvv", 6, 0 },
{ "VNN", "vvv", 6, 0 },
{ "VNO", "vvv", 6, 0 },
{ "VNS", "rH", 4, 0 },
{ "VNVM", "rr", 4, 0 },
{ "VNX", "vvv", 6, 0 },
{ "VO", "vvv", 6, 0 },
{ "VOC", "vvv", 6, 0 },
{ "VOS", "rH", 4, 0 },
{ "VOVM", "rr", 4, 0 },
{ "VPDI", "vvvm", 6, 0 },
{ "VPERM", "vvvv", 6, 0 },
{ "VPK", "vvvm", 6, 0 },
{ "VPKLS", "vvvmm", 6, 0 },
{ "VPKS", "vvvmm", 6, 0 },
{ "VPKZ", "vdb", 6, 0 },
{ "VPOPCT", "vvm", 6, 0 },
{ "VPSOP", "vvbbm", 6, 0 },
{ "VRCL", "rr", 4, 0 },
{ "VREP", "vvHm", 6, 0 },
{ "VREPI", "vhm", 6, 0 },
{ "VRP", "vvvbm", 6, 0 },
{ "VRRS", "rr", 4, 0 },
{ "VRSV", "rr", 4, 0 },
{ "VRSVC", "rr", 4, 0 },
{ "VS", "vvvm", 6, 0 },
{ "VSBCBI", "vvvvm", 6, 0 },
{ "VSBI", "vvvvm", 6, 0 },
{ "VSCBI", "vvvm", 6, 0 },
{ "VSCEF", "vym", 6, 0 },
{ "VSCEG", "vym", 6, 0 },
{ "VSD", "rH", 4, 0 },
{ "VSDP", "vvvbm", 6, 0 },
{ "VSDS", "rH", 4, 0 },
{ "VSE", "rH", 4, 0 },
{ "VSEG", "vvm", 6, 0 },
{ "VSEL", "vvvv", 6, 0 },
{ "VSES", "rH", 4, 0 },
{ "VSL", "vvv", 6, 0 },
{ "VSLB", "vvv", 6, 0 },
{ "VSLD", "vvvb", 6, 0 },
{ "VSLDB", "vvvb", 6, 0 },
{ "VSLL", "rr", 4, 0 },
{ "VSP", "vvvbm", 6, 0 },
{ "VSPSD", "rr", 4, 0 },
{ "VSRA", "vvv", 6, 0 },
{ "VSRAB", "vvv", 6, 0 },
{ "VSRD", "vvvb", 6, 0 },
{ "VSRL", "vvv", 6, 0 },
{ "VSRLB", "vvv", 6, 0 },
{ "VSRRS", "rr", 4, 0 },
{ "VSRSV", "rr", 4, 0 },
{ "VSS", "rH", 4, 0 },
{ "VST", "vxm", 6, 1 },
{ "VSTBR", "vxm", 6, 0 },
{ "VSTD", "rH", 4, 0 },
{ "VSTEB", "vxm", 6, 0 },
{ "VSTEBRF", "vxm", 6, 0 },
{ "VSTEBRG", "vxm", 6, 0 },
{ "VSTEBRH", "vxm", 6, 0 },
{ "VSTEF", "vxm", 6, 0 },
{ "VSTEG", "vxm", 6, 0 },
{ "VSTEH", "vxm", 6, 0 },
{ "VSTER", "vxm", 6, 0 },
{ "VSTH", "rH", 4, 0 },
{ "VSTI", "rr", 4, 0 },
{ "VSTID", "rr", 4, 0 },
{ "VSTK", "rH", 4, 0 },
{ "VSTKD", "rH", 4, 0 },
{ "VSTL", "vrd", 6, 0 },
{ "VSTM", "vvdm", 6, 1 },
{ "VSTMD", "rH", 4, 0 },
{ "VSTRC", "vvvvmm", 6, 1 },
{ "VSTRL", "vdb", 6, 0 },
{ "VSTRLR", "vrd", 6, 0 },
{ "VSTRS", "vvvvmm", 6, 1 },
{ "VSTVM", "rr", 4, 0 },
{ "VSTVP", "rr", 4, 0 },
{ "VSUM", "vvvm", 6, 0 },
{ "VSUMG", "vvvm", 6, 0 },
{ "VSUMQ", "vvvm", 6, 0 },
{ "VSVMM", "rr", 4, 0 },
{ "VTM", "vv", 6, 0 },
{ "VTP", "v", 6, 0 },
{ "VTVM", "rr", 4, 0 },
{ "VUPH", "vvm", 6, 0 },
{ "VUPKZ", "vdb", 6, 0 },
{ "VUPL", "vvm", 6, 0 },
{ "VUPLH", "vvm", 6, 0 },
{ "VUPLL", "vvm", 6, 0 },
{ "VX", "vvv", 6, 0 },
{ "VXELD", "rr", 4, 0 },
{ "VXELE", "rr", 4, 0 },
{ "VXS", "rH", 4, 0 },
{ "VXVC", "rr", 4, 0 },
{ "VXVM", "rr", 4, 0 },
{ "VXVMM", "rr", 4, 0 },
{ "VZPSD", "rr", 4, 0 },
{ "WFC", "vvmm", 6, 0 },
{ "WFK", "vvmm", 6, 0 },
{ "X", "rx", 4, 0 },
{ "XC", "ld", 6, 0 },
{ "XG", "rX", 6, 0 },
{ "XGR", "rr", 4, 0 },
{ "XGRK", "rrr", 4, 0 },
{ "XI", "db", 4, 0 },
{ "XIHF", "rw", 6, 0 },
{ "XILF", "rw", 6, 0 },
{ "XIY", "Db", 6, 0 },
{ "XR", "rr", 2, 0 },
{ "XRK", "rrr", 4, 0 },
{ "XSCH", "", 4, 0 },
{ "XY", "rX", 6, 0 },
{ "ZAP", "kk", 6, 0 },
{ "B", "x", 4, 0 },
{ "BE", "x", 4, 0 },
{ "BER", "r", 2, 0 },
{ "BH", "x", 4, 0 },
{ "BHR", "r", 2, 0 },
{ "BI", "X", 6, 0 },
{ "BIE", "X", 6, 0 },
{ "BIH", "X", 6, 0 },
{ "BIL", "X", 6, 0 },
{ "BIM", "X", 6, 0 },
{ "BINE", "X", 6, 0 },
{ "BINH", "X", 6, 0 },
{ "BINL", "X", 6, 0 },
{ "BINM", "X", 6, 0 },
{ "BINO", "X", 6, 0 },
{ "BINP", "X", 6, 0 },
{ "BINZ", "X", 6, 0 },
{ "BIO", "X", 6, 0 },
{ "BIP", "X", 6, 0 },
{ "BIZ", "X", 6, 0 },
{ "BL", "x", 4, 0 },
{ "BLR", "r", 2, 0 },
{ "BM", "x", 4, 0 },
{ "BMR", "r", 2, 0 },
{ "BNE", "x", 4, 0 },
{ "BNER", "r", 2, 0 },
{ "BNH", "x", 4, 0 },
{ "BNHR", "r", 2, 0 },
{ "BNL", "x", 4, 0 },
{ "BNLR", "r", 2, 0 },
{ "BNM", "x", 4, 0 },
{ "BNMR", "r", 2, 0 },
{ "BNO", "x", 4, 0 },
{ "BNOR", "r", 2, 0 },
{ "BNP", "x", 4, 0 },
{ "BNPR", "r", 2, 0 },
{ "BNZ", "x", 4, 0 },
{ "BNZR", "r", 2, 0 },
{ "BO", "x", 4, 0 },
{ "BOR", "r", 2, 0 },
{ "BP", "x", 4, 0 },
{ "BPR", "r", 2, 0 },
{ "BR", "r", 2, 0 },
{ "BRE", "j", 4, 0 },
{ "BREL", "J", 6, 0 },
{ "BRH", "j", 4, 0 },
{ "BRHL", "J", 6, 0 },
{ "BRL", "j", 4, 0 },
{ "BRLL", "J", 6, 0 },
{ "BRM", "j", 4, 0 },
{ "BRML", "J", 6, 0 },
{ "BRNE", "j", 4, 0 },
{ "BRNEL", "J", 6, 0 },
{ "BRNH", "j", 4, 0 },
{ "BRNHL", "J", 6, 0 },
{ "BRNL", "j", 4, 0 },
{ "BRNLL", "J", 6, 0 },
{ "BRNM", "j", 4, 0 },
{ "BRNML", "J", 6, 0 },
{ "BRNO", "j", 4, 0 },
{ "BRNOL", "J", 6, 0 },
{ "BRNP", "j", 4, 0 },
{ "BRNPL", "J", 6, 0 },
{ "BRNZ", "j", 4, 0 },
{ "BRNZL", "J", 6, 0 },
{ "BRO", "j", 4, 0 },
{ "BROL", "J", 6, 0 },
{ "BRP", "j", 4, 0 },
{ "BRPL", "J", 6, 0 },
{ "BRU", "j", 4, 0 },
{ "BRUL", "J", 6, 0 },
{ "BRZ", "j", 4, 0 },
{ "BRZL", "J", 6, 0 },
{ "BZ", "x", 4, 0 },
{ "BZR", "r", 2, 0 },
{ "CGIBE", "rsd", 6, 0 },
{ "CGIBH", "rsd", 6, 0 },
{ "CGIBL", "rsd", 6, 0 },
{ "CGIBNE", "rsd", 6, 0 },
{ "CGIBNH", "rsd", 6, 0 },
{ "CGIBNL", "rsd", 6, 0 },
{ "CGIJE", "rsj", 6, 0 },
{ "CGIJH", "rsj", 6, 0 },
{ "CGIJL", "rsj", 6, 0 },
{ "CGIJNE", "rsj", 6, 0 },
{ "CGIJNH", "rsj", 6, 0 },
{ "CGIJNL", "rsj", 6, 0 },
{ "CGITE", "rh", 6, 0 },
{ "CGITH", "rh", 6, 0 },
{ "CGITL", "rh", 6, 0 },
{ "CGITNE", "rh", 6, 0 },
{ "CGITNH", "rh", 6, 0 },
{ "CGITNL", "rh", 6, 0 },
{ "CGRBE", "rrd", 6, 0 },
{ "CGRBH", "rrd", 6, 0 },
{ "CGRBL", "rrd", 6, 0 },
{ "CGRBNE", "rrd", 6, 0 },
{ "CGRBNH", "rrd", 6, 0 },
{ "CGRBNL", "rrd", 6, 0 },
{ "CGRJE", "rrj", 6, 0 },
{ "CGRJH", "rrj", 6, 0 },
{ "CGRJL", "rrj", 6, 0 },
{ "CGRJNE", "rrj", 6, 0 },
{ "CGRJNH", "rrj", 6, 0 },
{ "CGRJNL", "rrj", 6, 0 },
{ "CGRTE", "rr", 4, 0 },
{ "CGRTH", "rr", 4, 0 },
{ "CGRTL", "rr", 4, 0 },
{ "CGRTNE", "rr", 4, 0 },
{ "CGRTNH", "rr", 4, 0 },
{ "CGRTNL", "rr", 4, 0 },
{ "CIBE", "rsd", 6, 0 },
{ "CIBH", "rsd", 6, 0 },
{ "CIBL", "rsd", 6, 0 },
{ "CIBNE", "rsd", 6, 0 },
{ "CIBNH", "rsd", 6, 0 },
{ "CIBNL", "rsd", 6, 0 },
{ "CIJE", "rsj", 6, 0 },
{ "CIJH", "rsj", 6, 0 },
{ "CIJL", "rsj", 6, 0 },
{ "CIJNE", "rsj", 6, 0 },
{ "CIJNH", "rsj", 6, 0 },
{ "CIJNL", "rsj", 6, 0 },
{ "CITE", "rh", 6, 0 },
{ "CITH", "rh", 6, 0 },
{ "CITL", "rh", 6, 0 },
{ "CITNE", "rh", 6, 0 },
{ "CITNH", "rh", 6, 0 },
{ "CITNL", "rh", 6, 0 },
{ "CLFITE", "rH", 6, 0 },
{ "CLFITH", "rH", 6, 0 },
{ "CLFITL", "rH", 6, 0 },
{ "CLFITNE", "rH", 6, 0 },
{ "CLFITNH", "rH", 6, 0 },
{ "CLFITNL", "rH", 6, 0 },
{ "CLGIBE", "rbd", 6, 0 },
{ "CLGIBH", "rbd", 6, 0 },
{ "CLGIBL", "rbd", 6, 0 },
{ "CLGIBNE", "rbd", 6, 0 },
{ "CLGIBNH", "rbd", 6, 0 },
{ "CLGIBNL", "rbd", 6, 0 },
{ "CLGIJE", "rbj", 6, 0 },
{ "CLGIJH", "rbj", 6, 0 },
{ "CLGIJL", "rbj", 6, 0 },
{ "CLGIJNE", "rbj", 6, 0 },
{ "CLGIJNH", "rbj", 6, 0 },
{ "CLGIJNL", "rbj", 6, 0 },
{ "CLGITE", "rH", 6, 0 },
{ "CLGITH", "rH", 6, 0 },
{ "CLGITL", "rH", 6, 0 },
{ "CLGITNE", "rH", 6, 0 },
{ "CLGITNH", "rH", 6, 0 },
{ "CLGITNL", "rH", 6, 0 },
{ "CLGRBE", "rrd", 6, 0 },
{ "CLGRBH", "rrd", 6, 0 },
{ "CLGRBL", "rrd", 6, 0 },
{ "CLGRBNE", "rrd", 6, 0 },
{ "CLGRBNH", "rrd", 6, 0 },
{ "CLGRBNL", "rrd", 6, 0 },
{ "CLGRJE", "rrj", 6, 0 },
{ "CLGRJH", "rrj", 6, 0 },
{ "CLGRJL", "rrj", 6, 0 },
{ "CLGRJNE", "rrj", 6, 0 },
{ "CLGRJNH", "rrj", 6, 0 },
{ "CLGRJNL", "rrj", 6, 0 },
{ "CLGRTE", "rr", 4, 0 },
{ "CLGRTH", "rr", 4, 0 },
{ "CLGRTL", "rr", 4, 0 },
{ "CLGRTNE", "rr", 4, 0 },
{ "CLGRTNH", "rr", 4, 0 },
{ "CLGRTNL", "rr", 4, 0 },
{ "CLGTE", "rD", 6, 0 },
{ "CLGTH", "rD", 6, 0 },
{ "CLGTL", "rD", 6, 0 },
{ "CLGTNE", "rD", 6, 0 },
{ "CLGTNH", "rD", 6, 0 },
{ "CLGTNL", "rD", 6, 0 },
{ "CLIBE", "rbd", 6, 0 },
{ "CLIBH", "rbd", 6, 0 },
{ "CLIBL", "rbd", 6, 0 },
{ "CLIBNE", "rbd", 6, 0 },
{ "CLIBNH", "rbd", 6, 0 },
{ "CLIBNL", "rbd", 6, 0 },
{ "CLIJE", "rbj", 6, 0 },
{ "CLIJH", "rbj", 6, 0 },
{ "CLIJL", "rbj", 6, 0 },
{ "CLIJNE", "rbj", 6, 0 },
{ "CLIJNH", "rbj", 6, 0 },
{ "CLIJNL", "rbj", 6, 0 },
{ "CLRBE", "rrd", 6, 0 },
{ "CLRBH", "rrd", 6, 0 },
{ "CLRBL", "rrd", 6, 0 },
{ "CLRBNE", "rrd", 6, 0 },
{ "CLRBNH", "rrd", 6, 0 },
{ "CLRBNL", "rrd", 6, 0 },
{ "CLRJE", "rrj", 6, 0 },
{ "CLRJH", "rrj", 6, 0 },
{ "CLRJL", "rrj", 6, 0 },
{ "CLRJNE", "rrj", 6, 0 },
{ "CLRJNH", "rrj", 6, 0 },
{ "CLRJNL", "rrj", 6, 0 },
{ "CLRTE", "rr", 4, 0 },
{ "CLRTH", "rr", 4, 0 },
{ "CLRTL", "rr", 4, 0 },
{ "CLRTNE", "rr", 4, 0 },
{ "CLRTNH", "rr", 4, 0 },
{ "CLRTNL", "rr", 4, 0 },
{ "CLTE", "rD", 6, 0 },
{ "CLTH", "rD", 6, 0 },
{ "CLTL", "rD", 6, 0 },
{ "CLTNE", "rD", 6, 0 },
{ "CLTNH", "rD", 6, 0 },
{ "CLTNL", "rD", 6, 0 },
{ "CRBE", "rrd", 6, 0 },
{ "CRBH", "rrd", 6, 0 },
{ "CRBL", "rrd", 6, 0 },
{ "CRBNE", "rrd", 6, 0 },
{ "CRBNH", "rrd", 6, 0 },
{ "CRBNL", "rrd", 6, 0 },
{ "CRJE", "rrj", 6, 0 },
{ "CRJH", "rrj", 6, 0 },
{ "CRJL", "rrj", 6, 0 },
{ "CRJNE", "rrj", 6, 0 },
{ "CRJNH", "rrj", 6, 0 },
{ "CRJNL", "rrj", 6, 0 },
{ "CRTE", "rr", 4, 0 },
{ "CRTH", "rr", 4, 0 },
{ "CRTL", "rr", 4, 0 },
{ "CRTNE", "rr", 4, 0 },
{ "CRTNH", "rr", 4, 0 },
{ "CRTNL", "rr", 4, 0 },
{ "J", "j", 4, 0 },
{ "JAS", "rj", 4, 0 },
{ "JASL", "rJ", 6, 0 },
{ "JC", "mj", 4, 0 },
{ "JCT", "rj", 4, 0 },
{ "JCTG", "rj", 4, 0 },
{ "JE", "j", 4, 0 },
{ "JH", "j", 4, 0 },
{ "JL", "j", 4, 0 },
{ "JLE", "J", 6, 0 },
{ "JLH", "J", 6, 0 },
{ "JLL", "J", 6, 0 },
{ "JLM", "J", 6, 0 },
{ "JLNE", "J", 6, 0 },
{ "JLNH", "J", 6, 0 },
{ "JLNL", "J", 6, 0 },
{ "JLNM", "J", 6, 0 },
{ "JLNO", "J", 6, 0 },
{ "JLNOP", "J", 6, 0 },
{ "JLNP", "J", 6, 0 },
{ "JLNZ", "J", 6, 0 },
{ "JLO", "J", 6, 0 },
{ "JLP", "J", 6, 0 },
{ "JLU", "J", 6, 0 },
{ "JLZ", "J", 6, 0 },
{ "JM", "j", 4, 0 },
{ "JNE", "j", 4, 0 },
{ "JNH", "j", 4, 0 },
{ "JNL", "j", 4, 0 },
{ "JNM", "j", 4, 0 },
{ "JNO", "j", 4, 0 },
{ "JNOP", "j", 4, 0 },
{ "JNP", "j", 4, 0 },
{ "JNZ", "j", 4, 0 },
{ "JO", "j", 4, 0 },
{ "JP", "j", 4, 0 },
{ "JXH", "rrj", 4, 0 },
{ "JXHG", "rrj", 6, 0 },
{ "JXLE", "rrj", 4, 0 },
{ "JXLEG", "rrj", 6, 0 },
{ "JZ", "j", 4, 0 },
{ "LDRV", "vx", 6, 0 },
{ "LERV", "vx", 6, 0 },
{ "LHHR", "rrb", 6, 1 },
{ "LHLR", "rr", 6, 0 },
{ "LLCHHR", "rrb", 6, 1 },
{ "LLCHLR", "rr", 6, 0 },
{ "LLCLHR", "rr", 6, 0 },
{ "LLHFR", "rr", 6, 0 },
{ "LLHHHR", "rrb", 6, 1 },
{ "LLHHLR", "rr", 6, 0 },
{ "LLHLHR", "rr", 6, 0 },
{ "LOCE", "rD", 6, 0 },
{ "LOCFHE", "rD", 6, 0 },
{ "LOCFHH", "rD", 6, 0 },
{ "LOCFHL", "rD", 6, 0 },
{ "LOCFHNE", "rD", 6, 0 },
{ "LOCFHNH", "rD", 6, 0 },
{ "LOCFHNL", "rD", 6, 0 },
{ "LOCFHNO", "rD", 6, 0 },
{ "LOCFHO", "rD", 6, 0 },
{ "LOCFHRE", "rr", 4, 0 },
{ "LOCFHRH", "rr", 4, 0 },
{ "LOCFHRL", "rr", 4, 0 },
{ "LOCFHRNE", "rr", 4, 0 },
{ "LOCFHRNH", "rr", 4, 0 },
{ "LOCFHRNL", "rr", 4, 0 },
{ "LOCFHRNO", "rr", 4, 0 },
{ "LOCFHRO", "rr", 4, 0 },
{ "LOCGE", "rD", 6, 0 },
{ "LOCGH", "rD", 6, 0 },
{ "LOCGHIE", "rh", 6, 0 },
{ "LOCGHIH", "rh", 6, 0 },
{ "LOCGHIL", "rh", 6, 0 },
{ "LOCGHINE", "rh", 6, 0 },
{ "LOCGHINH", "rh", 6, 0 },
{ "LOCGHINL", "rh", 6, 0 },
{ "LOCGHINO", "rh", 6, 0 },
{ "LOCGHIO", "rh", 6, 0 },
{ "LOCGL", "rD", 6, 0 },
{ "LOCGNE", "rD", 6, 0 },
{ "LOCGNH", "rD", 6, 0 },
{ "LOCGNL", "rD", 6, 0 },
{ "LOCGNO", "rD", 6, 0 },
{ "LOCGO", "rD", 6, 0 },
{ "LOCGRE", "rr", 4, 0 },
{ "LOCGRH", "rr", 4, 0 },
{ "LOCGRL", "rr", 4, 0 },
{ "LOCGRNE", "rr", 4, 0 },
{ "LOCGRNH", "rr", 4, 0 },
{ "LOCGRNL", "rr", 4, 0 },
{ "LOCGRNO", "rr", 4, 0 },
{ "LOCGRO", "rr", 4, 0 },
{ "LOCH", "rD", 6, 0 },
{ "LOCHHIE", "rh", 6, 0 },
{ "LOCHHIH", "rh", 6, 0 },
{ "LOCHHIL", "rh", 6, 0 },
{ "LOCHHINE", "rh", 6, 0 },
{ "LOCHHINH", "rh", 6, 0 },
{ "LOCHHINL", "rh", 6, 0 },
{ "LOCHHINO", "rh", 6, 0 },
{ "LOCHHIO", "rh", 6, 0 },
{ "LOCHIE", "rh", 6, 0 },
{ "LOCHIH", "rh", 6, 0 },
{ "LOCHIL", "rh", 6, 0 },
{ "LOCHINE", "rh", 6, 0 },
{ "LOCHINH", "rh", 6, 0 },
{ "LOCHINL", "rh", 6, 0 },
{ "LOCHINO", "rh", 6, 0 },
{ "LOCHIO", "rh", 6, 0 },
{ "LOCL", "rD", 6, 0 },
{ "LOCNE", "rD", 6, 0 },
{ "LOCNH", "rD", 6, 0 },
{ "LOCNL", "rD", 6, 0 },
{ "LOCNO", "rD", 6, 0 },
{ "LOCO", "rD", 6, 0 },
{ "LOCRE", "rr", 4, 0 },
{ "LOCRH", "rr", 4, 0 },
{ "LOCRL", "rr", 4, 0 },
{ "LOCRNE", "rr", 4, 0 },
{ "LOCRNH", "rr", 4, 0 },
{ "LOCRNL", "rr", 4, 0 },
{ "LOCRNO", "rr", 4, 0 },
{ "LOCRO", "rr", 4, 0 },
{ "NHHR", "rrb", 6, 1 },
{ "NHLR", "rr", 6, 0 },
{ "NLHR", "rr", 6, 0 },
{ "NOP", "x", 4, 0 },
{ "NOPR", "r", 2, 0 },
{ "NOTGR", "rr", 4, 0 },
{ "NOTR", "rr", 4, 0 },
{ "OHHR", "rrb", 6, 1 },
{ "OHLR", "rr", 6, 0 },
{ "OLHR", "rr", 6, 0 },
{ "SELFHRE", "rrr", 4, 0 },
{ "SELFHRH", "rrr", 4, 0 },
{ "SELFHRL", "rrr", 4, 0 },
{ "SELFHRNE", "rrr", 4, 0 },
{ "SELFHRNH", "rrr", 4, 0 },
{ "SELFHRNL", "rrr", 4, 0 },
{ "SELFHRNO", "rrr", 4, 0 },
{ "SELFHRO", "rrr", 4, 0 },
{ "SELGRE", "rrr", 4, 0 },
{ "SELGRH", "rrr", 4, 0 },
{ "SELGRL", "rrr", 4, 0 },
{ "SELGRNE", "rrr", 4, 0 },
{ "SELGRNH", "rrr", 4, 0 },
{ "SELGRNL", "rrr", 4, 0 },
{ "SELGRNO", "rrr", 4, 0 },
{ "SELGRO", "rrr", 4, 0 },
{ "SELRE", "rrr", 4, 0 },
{ "SELRH", "rrr", 4, 0 },
{ "SELRL", "rrr", 4, 0 },
{ "SELRNE", "rrr", 4, 0 },
{ "SELRNH", "rrr", 4, 0 },
{ "SELRNL", "rrr", 4, 0 },
{ "SELRNO", "rrr", 4, 0 },
{ "SELRO", "rrr", 4, 0 },
{ "STDRV", "vx", 6, 0 },
{ "STERV", "vx", 6, 0 },
{ "STOCE", "rD", 6, 0 },
{ "STOCFHE", "rD", 6, 0 },
{ "STOCFHH", "rD", 6, 0 },
{ "STOCFHL", "rD", 6, 0 },
{ "STOCFHNE", "rD", 6, 0 },
{ "STOCFHNH", "rD", 6, 0 },
{ "STOCFHNL", "rD", 6, 0 },
{ "STOCFHNO", "rD", 6, 0 },
{ "STOCFHO", "rD", 6, 0 },
{ "STOCGE", "rD", 6, 0 },
{ "STOCGH", "rD", 6, 0 },
{ "STOCGL", "rD", 6, 0 },
{ "STOCGNE", "rD", 6, 0 },
{ "STOCGNH", "rD", 6, 0 },
{ "STOCGNL", "rD", 6, 0 },
{ "STOCGNO", "rD", 6, 0 },
{ "STOCGO", "rD", 6, 0 },
{ "STOCH", "rD", 6, 0 },
{ "STOCL", "rD", 6, 0 },
{ "STOCNE", "rD", 6, 0 },
{ "STOCNH", "rD", 6, 0 },
{ "STOCNL", "rD", 6, 0 },
{ "STOCNO", "rD", 6, 0 },
{ "STOCO", "rD", 6, 0 },
{ "VAB", "vvv", 6, 0 },
{ "VACCB", "vvv", 6, 0 },
{ "VACCCQ", "vvvm", 6, 0 },
{ "VACCF", "vvv", 6, 0 },
{ "VACCG", "vvv", 6, 0 },
{ "VACCH", "vvv", 6, 0 },
{ "VACCQ", "vvv", 6, 0 },
{ "VACQ", "vvvm", 6, 0 },
{ "VAF", "vvv", 6, 0 },
{ "VAG", "vvv", 6, 0 },
{ "VAH", "vvv", 6, 0 },
{ "VAQ", "vvv", 6, 0 },
{ "VAVGB", "vvv", 6, 0 },
{ "VAVGF", "vvv", 6, 0 },
{ "VAVGG", "vvv", 6, 0 },
{ "VAVGH", "vvv", 6, 0 },
{ "VAVGLB", "vvv", 6, 0 },
{ "VAVGLF", "vvv", 6, 0 },
{ "VAVGLG", "vvv", 6, 0 },
{ "VAVGLH", "vvv", 6, 0 },
{ "VCDG", "vvmmm", 6, 0 },
{ "VCDGB", "vvmm", 6, 0 },
{ "VCDLG", "vvmmm", 6, 0 },
{ "VCDLGB", "vvmm", 6, 0 },
{ "VCEFB", "vvmm", 6, 0 },
{ "VCELFB", "vvmm", 6, 0 },
{ "VCEQB", "vvv", 6, 0 },
{ "VCEQBS", "vvv", 6, 0 },
{ "VCEQF", "vvv", 6, 0 },
{ "VCEQFS", "vvv", 6, 0 },
{ "VCEQG", "vvv", 6, 0 },
{ "VCEQGS", "vvv", 6, 0 },
{ "VCEQH", "vvv", 6, 0 },
{ "VCEQHS", "vvv", 6, 0 },
{ "VCFEB", "vvmm", 6, 0 },
{ "VCGD", "vvmmm", 6, 0 },
{ "VCGDB", "vvmm", 6, 0 },
{ "VCHB", "vvv", 6, 0 },
{ "VCHBS", "vvv", 6, 0 },
{ "VCHF", "vvv", 6, 0 },
{ "VCHFS", "vvv", 6, 0 },
{ "VCHG", "vvv", 6, 0 },
{ "VCHGS", "vvv", 6, 0 },
{ "VCHH", "vvv", 6, 0 },
{ "VCHHS", "vvv", 6, 0 },
{ "VCHLB", "vvv", 6, 0 },
{ "VCHLBS", "vvv", 6, 0 },
{ "VCHLF", "vvv", 6, 0 },
{ "VCHLFS", "vvv", 6, 0 },
{ "VCHLG", "vvv", 6, 0 },
{ "VCHLGS", "vvv", 6, 0 },
{ "VCHLH", "vvv", 6, 0 },
{ "VCHLHS", "vvv", 6, 0 },
{ "VCLFEB", "vvmm", 6, 0 },
{ "VCLGDB", "vvmm", 6, 0 },
{ "VCLZB", "vv", 6, 0 },
{ "VCLZF", "vv", 6, 0 },
{ "VCLZG", "vv", 6, 0 },
{ "VCLZH", "vv", 6, 0 },
{ "VECB", "vv", 6, 0 },
{ "VECF", "vv", 6, 0 },
{ "VECG", "vv", 6, 0 },
{ "VECH", "vv", 6, 0 },
{ "VECLB", "vv", 6, 0 },
{ "VECLF", "vv", 6, 0 },
{ "VECLG", "vv", 6, 0 },
{ "VECLH", "vv", 6, 0 },
{ "VERIMB", "vvvb", 6, 0 },
{ "VERIMF", "vvvb", 6, 0 },
{ "VERIMG", "vvvb", 6, 0 },
{ "VERIMH", "vvvb", 6, 0 },
{ "VERLLB", "vvd", 6, 0 },
{ "VERLLF", "vvd", 6, 0 },
{ "VERLLG", "vvd", 6, 0 },
{ "VERLLH", "vvd", 6, 0 },
{ "VERLLVB", "vvv", 6, 0 },
{ "VERLLVF", "vvv", 6, 0 },
{ "VERLLVG", "vvv", 6, 0 },
{ "VERLLVH", "vvv", 6, 0 },
{ "VESLB", "vvd", 6, 0 },
{ "VESLF", "vvd", 6, 0 },
{ "VESLG", "vvd", 6, 0 },
{ "VESLH", "vvd", 6, 0 },
{ "VESLVB", "vvv", 6, 0 },
{ "VESLVF", "vvv", 6, 0 },
{ "VESLVG", "vvv", 6, 0 },
{ "VESLVH", "vvv", 6, 0 },
{ "VESRAB", "vvd", 6, 0 },
{ "VESRAF", "vvd", 6, 0 },
{ "VESRAG", "vvd", 6, 0 },
{ "VESRAH", "vvd", 6, 0 },
{ "VESRAVB", "vvv", 6, 0 },
{ "VESRAVF", "vvv", 6, 0 },
{ "VESRAVG", "vvv", 6, 0 },
{ "VESRAVH", "vvv", 6, 0 },
{ "VESRLB", "vvd", 6, 0 },
{ "VESRLF", "vvd", 6, 0 },
{ "VESRLG", "vvd", 6, 0 },
{ "VESRLH", "vvd", 6, 0 },
{ "VESRLVB", "vvv", 6, 0 },
{ "VESRLVF", "vvv", 6, 0 },
{ "VESRLVG", "vvv", 6, 0 },
{ "VESRLVH", "vvv", 6, 0 },
{ "VFADB", "vvv", 6, 0 },
{ "VFAEB", "vvvm", 6, 1 },
{ "VFAEBS", "vvvm", 6, 1 },
{ "VFAEF", "vvvm", 6, 1 },
{ "VFAEFS", "vvvm", 6, 1 },
{ "VFAEH", "vvvm", 6, 1 },
{ "VFAEHS", "vvvm", 6, 1 },
{ "VFAEZB", "vvvm", 6, 1 },
{ "VFAEZBS", "vvvm", 6, 1 },
{ "VFAEZF", "vvvm", 6, 1 },
{ "VFAEZFS", "vvvm", 6, 1 },
{ "VFAEZH", "vvvm", 6, 1 },
{ "VFAEZHS", "vvvm", 6, 1 },
{ "VFASB", "vvv", 6, 0 },
{ "VFCEDB", "vvv", 6, 0 },
{ "VFCEDBS", "vvv", 6, 0 },
{ "VFCESB", "vvv", 6, 0 },
{ "VFCESBS", "vvv", 6, 0 },
{ "VFCHDB", "vvv", 6, 0 },
{ "VFCHDBS", "vvv", 6, 0 },
{ "VFCHEDB", "vvv", 6, 0 },
{ "VFCHEDBS", "vvv", 6, 0 },
{ "VFCHESB", "vvv", 6, 0 },
{ "VFCHESBS", "vvv", 6, 0 },
{ "VFCHSB", "vvv", 6, 0 },
{ "VFCHSBS", "vvv", 6, 0 },
{ "VFDDB", "vvv", 6, 0 },
{ "VFDSB", "vvv", 6, 0 },
{ "VFEEB", "vvvm", 6, 1 },
{ "VFEEBS", "vvv", 6, 0 },
{ "VFEEF", "vvvm", 6, 1 },
{ "VFEEFS", "vvv", 6, 0 },
{ "VFEEGS", "vvv", 6, 0 },
{ "VFEEH", "vvvm", 6, 1 },
{ "VFEEZB", "vvv", 6, 0 },
{ "VFEEZBS", "vvv", 6, 0 },
{ "VFEEZF", "vvv", 6, 0 },
{ "VFEEZFS", "vvv", 6, 0 },
{ "VFEEZH", "vvv", 6, 0 },
{ "VFEEZHS", "vvv", 6, 0 },
{ "VFENEB", "vvvm", 6, 1 },
{ "VFENEBS", "vvv", 6, 0 },
{ "VFENEF", "vvvm", 6, 1 },
{ "VFENEFS", "vvv", 6, 0 },
{ "VFENEH", "vvvm", 6, 1 },
{ "VFENEHS", "vvv", 6, 0 },
{ "VFENEZB", "vvv", 6, 0 },
{ "VFENEZBS", "vvv", 6, 0 },
{ "VFENEZF", "vvv", 6, 0 },
{ "VFENEZFS", "vvv", 6, 0 },
{ "VFENEZH", "vvv", 6, 0 },
{ "VFENEZHS", "vvv", 6, 0 },
{ "VFIDB", "vvmm", 6, 0 },
{ "VFISB", "vvmm", 6, 0 },
{ "VFKEDB", "vvv", 6, 0 },
{ "VFKEDBS", "vvv", 6, 0 },
{ "VFKESB", "vvv", 6, 0 },
{ "VFKESBS", "vvv", 6, 0 },
{ "VFKHDB", "vvv", 6, 0 },
{ "VFKHDBS", "vvv", 6, 0 },
{ "VFKHEDB", "vvv", 6, 0 },
{ "VFKHEDBS", "vvv", 6, 0 },
{ "VFKHESB", "vvv", 6, 0 },
{ "VFKHESBS", "vvv", 6, 0 },
{ "VFKHSB", "vvv", 6, 0 },
{ "VFKHSBS", "vvv", 6, 0 },
{ "VFLCDB", "vv", 6, 0 },
{ "VFLCSB", "vv", 6, 0 },
{ "VFLLS", "vv", 6, 0 },
{ "VFLNDB", "vv", 6, 0 },
{ "VFLNSB", "vv", 6, 0 },
{ "VFLPDB", "vv", 6, 0 },
{ "VFLPSB", "vv", 6, 0 },
{ "VFLRD", "vvmm", 6, 0 },
{ "VFMADB", "vvvv", 6, 0 },
{ "VFMASB", "vvvv", 6, 0 },
{ "VFMAXDB", "vvvm", 6, 0 },
{ "VFMAXSB", "vvvm", 6, 0 },
{ "VFMDB", "vvv", 6, 0 },
{ "VFMINDB", "vvvm", 6, 0 },
{ "VFMINSB", "vvvm", 6, 0 },
{ "VFMSB", "vvv", 6, 0 },
{ "VFMSDB", "vvvv", 6, 0 },
{ "VFMSSB", "vvvv", 6, 0 },
{ "VFNMADB", "vvvv", 6, 0 },
{ "VFNMASB", "vvvv", 6, 0 },
{ "VFNMSDB", "vvvv", 6, 0 },
{ "VFNMSSB", "vvvv", 6, 0 },
{ "VFPSODB", "vvm", 6, 0 },
{ "VFPSOSB", "vvm", 6, 0 },
{ "VFSDB", "vvm", 6, 0 },
{ "VFSQDB", "vv", 6, 0 },
{ "VFSQSB", "vv", 6, 0 },
{ "VFSSB", "vvm", 6, 0 },
{ "VFTCIDB", "vvi", 6, 0 },
{ "VFTCISB", "vvi", 6, 0 },
{ "VGFMAB", "vvvv", 6, 0 },
{ "VGFMAF", "vvvv", 6, 0 },
{ "VGFMAG", "vvvv", 6, 0 },
{ "VGFMAH", "vvvv", 6, 0 },
{ "VGFMB", "vvv", 6, 0 },
{ "VGFMF", "vvv", 6, 0 },
{ "VGFMG", "vvv", 6, 0 },
{ "VGFMH", "vvv", 6, 0 },
{ "VGMB", "vbb", 6, 0 },
{ "VGMF", "vbb", 6, 0 },
{ "VGMG", "vbb", 6, 0 },
{ "VGMH", "vbb", 6, 0 },
{ "VISTRB", "vvm", 6, 1 },
{ "VISTRBS", "vv", 6, 0 },
{ "VISTRF", "vvm", 6, 1 },
{ "VISTRFS", "vv", 6, 0 },
{ "VISTRH", "vvm", 6, 1 },
{ "VISTRHS", "vv", 6, 0 },
{ "VLBRF", "vx", 6, 0 },
{ "VLBRG", "vx", 6, 0 },
{ "VLBRH", "vx", 6, 0 },
{ "VLBRQ", "vx", 6, 0 },
{ "VLBRREPF", "vx", 6, 0 },
{ "VLBRREPG", "vx", 6, 0 },
{ "VLBRREPH", "vx", 6, 0 },
{ "VLCB", "vv", 6, 0 },
{ "VLCF", "vv", 6, 0 },
{ "VLCG", "vv", 6, 0 },
{ "VLCH", "vv", 6, 0 },
{ "VLDE", "vvmm", 6, 0 },
{ "VLDEB", "vv", 6, 0 },
{ "VLED", "vvmmm", 6, 0 },
{ "VLEDB", "vvmm", 6, 0 },
{ "VLERF", "vx", 6, 0 },
{ "VLERG", "vx", 6, 0 },
{ "VLERH", "vx", 6, 0 },
{ "VLGVB", "rvd", 6, 0 },
{ "VLGVF", "rvd", 6, 0 },
{ "VLGVG", "rvd", 6, 0 },
{ "VLGVH", "rvd", 6, 0 },
{ "VLLEBRZE", "vx", 6, 0 },
{ "VLLEBRZF", "vx", 6, 0 },
{ "VLLEBRZG", "vx", 6, 0 },
{ "VLLEBRZH", "vx", 6, 0 },
{ "VLLEZB", "vx", 6, 0 },
{ "VLLEZF", "vx", 6, 0 },
{ "VLLEZG", "vx", 6, 0 },
{ "VLLEZH", "vx", 6, 0 },
{ "VLLEZLF", "vx", 6, 0 },
{ "VLPB", "vv", 6, 0 },
{ "VLPF", "vv", 6, 0 },
{ "VLPG", "vv", 6, 0 },
{ "VLPH", "vv", 6, 0 },
{ "VLREPB", "vx", 6, 0 },
{ "VLREPF", "vx", 6, 0 },
{ "VLREPG", "vx", 6, 0 },
{ "VLREPH", "vx", 6, 0 },
{ "VLVGB", "vrd", 6, 0 },
{ "VLVGF", "vrd", 6, 0 },
{ "VLVGG", "vrd", 6, 0 },
{ "VLVGH", "vrd", 6, 0 },
{ "VMAEB", "vvvv", 6, 0 },
{ "VMAEF", "vvvv", 6, 0 },
{ "VMAEH", "vvvv", 6, 0 },
{ "VMAHB", "vvvv", 6, 0 },
{ "VMAHF", "vvvv", 6, 0 },
{ "VMAHH", "vvvv", 6, 0 },
{ "VMALB", "vvvv", 6, 0 },
{ "VMALEB", "vvvv", 6, 0 },
{ "VMALEF", "vvvv", 6, 0 },
{ "VMALEH", "vvvv", 6, 0 },
{ "VMALF", "vvvv", 6, 0 },
{ "VMALHB", "vvvv", 6, 0 },
{ "VMALHF", "vvvv", 6, 0 },
{ "VMALHH", "vvvv", 6, 0 },
{ "VMALHW", "vvvv", 6, 0 },
{ "VMALOB", "vvvv", 6, 0 },
{ "VMALOF", "vvvv", 6, 0 },
{ "VMALOH", "vvvv", 6, 0 },
{ "VMAOB", "vvvv", 6, 0 },
{ "VMAOF", "vvvv", 6, 0 },
{ "VMAOH", "vvvv", 6, 0 },
{ "VMEB", "vvv", 6, 0 },
{ "VMEF", "vvv", 6, 0 },
{ "VMEH", "vvv", 6, 0 },
{ "VMHB", "vvv", 6, 0 },
{ "VMHF", "vvv", 6, 0 },
{ "VMHH", "vvv", 6, 0 },
{ "VMLB", "vvv", 6, 0 },
{ "VMLEB", "vvv", 6, 0 },
{ "VMLEF", "vvv", 6, 0 },
{ "VMLEH", "vvv", 6, 0 },
{ "VMLF", "vvv", 6, 0 },
{ "VMLHB", "vvv", 6, 0 },
{ "VMLHF", "vvv", 6, 0 },
{ "VMLHH", "vvv", 6, 0 },
{ "VMLHW", "vvv", 6, 0 },
{ "VMLOB", "vvv", 6, 0 },
{ "VMLOF", "vvv", 6, 0 },
{ "VMLOH", "vvv", 6, 0 },
{ "VMNB", "vvv", 6, 0 },
{ "VMNF", "vvv", 6, 0 },
{ "VMNG", "vvv", 6, 0 },
{ "VMNH", "vvv", 6, 0 },
{ "VMNLB", "vvv", 6, 0 },
{ "VMNLF", "vvv", 6, 0 },
{ "VMNLG", "vvv", 6, 0 },
{ "VMNLH", "vvv", 6, 0 },
{ "VMOB", "vvv", 6, 0 },
{ "VMOF", "vvv", 6, 0 },
{ "VMOH", "vvv", 6, 0 },
{ "VMRHB", "vvv", 6, 0 },
{ "VMRHF", "vvv", 6, 0 },
{ "VMRHG", "vvv", 6, 0 },
{ "VMRHH", "vvv", 6, 0 },
{ "VMRLB", "vvv", 6, 0 },
{ "VMRLF", "vvv", 6, 0 },
{ "VMRLG", "vvv", 6, 0 },
{ "VMRLH", "vvv", 6, 0 },
{ "VMSLG", "vvvvm", 6, 0 },
{ "VMXB", "vvv", 6, 0 },
{ "VMXF", "vvv", 6, 0 },
{ "VMXG", "vvv", 6, 0 },
{ "VMXH", "vvv", 6, 0 },
{ "VMXLB", "vvv", 6, 0 },
{ "VMXLF", "vvv", 6, 0 },
{ "VMXLG", "vvv", 6, 0 },
{ "VMXLH", "vvv", 6, 0 },
{ "VNOT", "vv", 6, 0 },
{ "VONE", "v", 6, 0 },
{ "VPKF", "vvv", 6, 0 },
{ "VPKG", "vvv", 6, 0 },
{ "VPKH", "vvv", 6, 0 },
{ "VPKLSF", "vvv", 6, 0 },
{ "VPKLSFS", "vvv", 6, 0 },
{ "VPKLSG", "vvv", 6, 0 },
{ "VPKLSGS", "vvv", 6, 0 },
{ "VPKLSH", "vvv", 6, 0 },
{ "VPKLSHS", "vvv", 6, 0 },
{ "VPKSF", "vvv", 6, 0 },
{ "VPKSFS", "vvv", 6, 0 },
{ "VPKSG", "vvv", 6, 0 },
{ "VPKSGS", "vvv", 6, 0 },
{ "VPKSH", "vvv", 6, 0 },
{ "VPKSHS", "vvv", 6, 0 },
{ "VPOPCTB", "vv", 6, 0 },
{ "VPOPCTF", "vv", 6, 0 },
{ "VPOPCTG", "vv", 6, 0 },
{ "VPOPCTH", "vv", 6, 0 },
{ "VREPB", "vvH", 6, 0 },
{ "VREPF", "vvH", 6, 0 },
{ "VREPG", "vvH", 6, 0 },
{ "VREPH", "vvH", 6, 0 },
{ "VREPIB", "vh", 6, 0 },
{ "VREPIF", "vh", 6, 0 },
{ "VREPIG", "vh", 6, 0 },
{ "VREPIH", "vh", 6, 0 },
{ "VSB", "vvv", 6, 0 },
{ "VSBCBIQ", "vvvv", 6, 0 },
{ "VSBIQ", "vvvv", 6, 0 },
{ "VSCBIB", "vvv", 6, 0 },
{ "VSCBIF", "vvv", 6, 0 },
{ "VSCBIG", "vvv", 6, 0 },
{ "VSCBIH", "vvv", 6, 0 },
{ "VSCBIQ", "vvv", 6, 0 },
{ "VSEGB", "vv", 6, 0 },
{ "VSEGF", "vv", 6, 0 },
{ "VSEGH", "vv", 6, 0 },
{ "VSF", "vvv", 6, 0 },
{ "VSG", "vvv", 6, 0 },
{ "VSH", "vvv", 6, 0 },
{ "VSQ", "vvv", 6, 0 },
{ "VSTBRF", "vx", 6, 0 },
{ "VSTBRG", "vx", 6, 0 },
{ "VSTBRH", "vx", 6, 0 },
{ "VSTBRQ", "vx", 6, 0 },
{ "VSTERF", "vx", 6, 0 },
{ "VSTERG", "vx", 6, 0 },
{ "VSTERH", "vx", 6, 0 },
{ "VSTRCB", "vvvvm", 6, 1 },
{ "VSTRCBS", "vvvvm", 6, 1 },
{ "VSTRCF", "vvvvm", 6, 1 },
{ "VSTRCFS", "vvvvm", 6, 1 },
{ "VSTRCH", "vvvvm", 6, 1 },
{ "VSTRCHS", "vvvvm", 6, 1 },
{ "VSTRCZB", "vvvvm", 6, 1 },
{ "VSTRCZBS", "vvvvm", 6, 1 },
{ "VSTRCZF", "vvvvm", 6, 1 },
{ "VSTRCZFS", "vvvvm", 6, 1 },
{ "VSTRCZH", "vvvvm", 6, 1 },
{ "VSTRCZHS", "vvvvm", 6, 1 },
{ "VSTRSB", "vvvvm", 6, 1 },
{ "VSTRSF", "vvvvm", 6, 1 },
{ "VSTRSH", "vvvvm", 6, 1 },
{ "VSTRSZB", "vvvv", 6, 0 },
{ "VSUMB", "vvv", 6, 0 },
{ "VSUMGF", "vvv", 6, 0 },
{ "VSUMGH", "vvv", 6, 0 },
{ "VSUMH", "vvv", 6, 0 },
{ "VSUMQF", "vvv", 6, 0 },
{ "VSUMQG", "vvv", 6, 0 },
{ "VUPHB", "vv", 6, 0 },
{ "VUPHF", "vv", 6, 0 },
{ "VUPHH", "vv", 6, 0 },
{ "VUPLB", "vv", 6, 0 },
{ "VUPLF", "vv", 6, 0 },
{ "VUPLHB", "vv", 6, 0 },
{ "VUPLHF", "vv", 6, 0 },
{ "VUPLHG", "vv", 6, 0 },
{ "VUPLHW", "vv", 6, 0 },
{ "VUPLLB", "vv", 6, 0 },
{ "VUPLLF", "vv", 6, 0 },
{ "VUPLLH", "vv", 6, 0 },
{ "VZERO", "H", 6, 0 },
{ "WCDGB", "vvmm", 6, 0 },
{ "WCDLGB", "vvmm", 6, 0 },
{ "WCEFB", "vvmm", 6, 0 },
{ "WCELFB", "vvmm", 6, 0 },
{ "WCFEB", "vvmm", 6, 0 },
{ "WCGDB", "vvmm", 6, 0 },
{ "WCLFEB", "vvmm", 6, 0 },
{ "WCLGDB", "vvmm", 6, 0 },
{ "WFADB", "vvv", 6, 0 },
{ "WFASB", "vvv", 6, 0 },
{ "WFAXB", "vvv", 6, 0 },
{ "WFCDB", "vv", 6, 0 },
{ "WFCEDB", "vvv", 6, 0 },
{ "WFCEDBS", "vvv", 6, 0 },
{ "WFCESB", "vvv", 6, 0 },
{ "WFCESBS", "vvv", 6, 0 },
{ "WFCEXB", "vvv", 6, 0 },
{ "WFCEXBS", "vvv", 6, 0 },
{ "WFCHDB", "vvv", 6, 0 },
{ "WFCHDBS", "vvv", 6, 0 },
{ "WFCHEDB", "vvv", 6, 0 },
{ "WFCHEDBS", "vvv", 6, 0 },
{ "WFCHESB", "vvv", 6, 0 },
{ "WFCHESBS", "vvv", 6, 0 },
{ "WFCHEXB", "vvv", 6, 0 },
{ "WFCHEXBS", "vvv", 6, 0 },
{ "WFCHSB", "vvv", 6, 0 },
{ "WFCHSBS", "vvv", 6, 0 },
{ "WFCHXB", "vvv", 6, 0 },
{ "WFCHXBS", "vvv", 6, 0 },
{ "WFCSB", "vv", 6, 0 },
{ "WFCXB", "vv", 6, 0 },
{ "WFDDB", "vvv", 6, 0 },
{ "WFDSB", "vvv", 6, 0 },
{ "WFDXB", "vvv", 6, 0 },
{ "WFIDB", "vvmm", 6, 0 },
{ "WFISB", "vvmm", 6, 0 },
{ "WFIXB", "vvmm", 6, 0 },
{ "WFKDB", "vv", 6, 0 },
{ "WFKEDB", "vvv", 6, 0 },
{ "WFKEDBS", "vvv", 6, 0 },
{ "WFKESB", "vvv", 6, 0 },
{ "WFKESBS", "vvv", 6, 0 },
{ "WFKEXB", "vvv", 6, 0 },
{ "WFKEXBS", "vvv", 6, 0 },
{ "WFKHDB", "vvv", 6, 0 },
{ "WFKHDBS", "vvv", 6, 0 },
{ "WFKHEDB", "vvv", 6, 0 },
{ "WFKHEDBS", "vvv", 6, 0 },
{ "WFKHESB", "vvv", 6, 0 },
{ "WFKHESBS", "vvv", 6, 0 },
{ "WFKHEXB", "vvv", 6, 0 },
{ "WFKHEXBS", "vvv", 6, 0 },
{ "WFKHSB", "vvv", 6, 0 },
{ "WFKHSBS", "vvv", 6, 0 },
{ "WFKHXB", "vvv", 6, 0 },
{ "WFKHXBS", "vvv", 6, 0 },
{ "WFKSB", "vv", 6, 0 },
{ "WFKXB", "vv", 6, 0 },
{ "WFLCDB", "vv", 6, 0 },
{ "WFLCSB", "vv", 6, 0 },
{ "WFLCXB", "vv", 6, 0 },
{ "WFLLD", "vv", 6, 0 },
{ "WFLLS", "vv", 6, 0 },
{ "WFLNDB", "vv", 6, 0 },
{ "WFLNSB", "vv", 6, 0 },
{ "WFLNXB", "vv", 6, 0 },
{ "WFLPDB", "vv", 6, 0 },
{ "WFLPSB", "vv", 6, 0 },
{ "WFLPXB", "vv", 6, 0 },
{ "WFLRD", "vvmm", 6, 0 },
{ "WFLRX", "vvmm", 6, 0 },
{ "WFMADB", "vvvv", 6, 0 },
{ "WFMASB", "vvvv", 6, 0 },
{ "WFMAXB", "vvvv", 6, 0 },
{ "WFMAXDB", "vvvm", 6, 0 },
{ "WFMAXSB", "vvvm", 6, 0 },
{ "WFMAXXB", "vvvm", 6, 0 },
{ "WFMDB", "vvv", 6, 0 },
{ "WFMINDB", "vvvm", 6, 0 },
{ "WFMINSB", "vvvm", 6, 0 },
{ "WFMINXB", "vvvm", 6, 0 },
{ "WFMSB", "vvv", 6, 0 },
{ "WFMSDB", "vvvv", 6, 0 },
{ "WFMSSB", "vvvv", 6, 0 },
{ "WFMSXB", "vvvv", 6, 0 },
{ "WFMXB", "vvv", 6, 0 },
{ "WFNMADB", "vvvv", 6, 0 },
{ "WFNMASB", "vvvv", 6, 0 },
{ "WFNMAXB", "vvvv", 6, 0 },
{ "WFNMSDB", "vvvv", 6, 0 },
{ "WFNMSSB", "vvvv", 6, 0 },
{ "WFNMSXB", "vvvv", 6, 0 },
{ "WFPSODB", "vvm", 6, 0 },
{ "WFPSOSB", "vvm", 6, 0 },
{ "WFPSOXB", "vvm", 6, 0 },
{ "WFSDB", "vvm", 6, 0 },
{ "WFSQDB", "vv", 6, 0 },
{ "WFSQSB", "vv", 6, 0 },
{ "WFSQXB", "vv", 6, 0 },
{ "WFSSB", "vvm", 6, 0 },
{ "WFSXB", "vvm", 6, 0 },
{ "WFTCIDB", "vvi", 6, 0 },
{ "WFTCISB", "vvi", 6, 0 },
{ "WFTCIXB", "vvi", 6, 0 },
{ "WLDEB", "vv", 6, 0 },
{ "WLEDB", "vvmm", 6, 0 },
{ "XHHR", "rrb", 6, 1 },
{ "XHLR", "rr", 6, 0 },
{ "XLHR", "rr", 6, 0 },
