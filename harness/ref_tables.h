// generated by tools/design.py: do not edit
#pragma once
struct RefFir { int stage, bits, n; double c[52]; };
struct RefIir { int stage, bits, n; double group_delay, atten; double c[9]; };
static const RefFir ref_fir[] = {
  { 2, 8, 16, { -0.0026367453410966863, 0.0056954995988467262, -0.010750637983096077, 0.018689598049002065, -0.03124362867459771, 0.052760932803671091, -0.099248122111822379, 0.31597034387100925, 0.31597034387100925, -0.099248122111822379, 0.052760932803671091, -0.03124362867459771, 0.018689598049002065, -0.010750637983096077, 0.0056954995988467262, -0.0026367453410966863 } },
  { 2, 12, 24, { -0.00031919473602139722, 0.00083854004488146381, -0.0017905303270299951, 0.0033731130894814358, -0.0058408892523820269, 0.0095314079754320671, -0.014935625615431889, 0.022881655727240439, -0.035057791064865278, 0.055817399757994685, -0.10122584733772395, 0.3166547243045269, 0.3166547243045269, -0.10122584733772395, 0.055817399757994685, -0.035057791064865278, 0.022881655727240439, -0.014935625615431889, 0.0095314079754320671, -0.0058408892523820269, 0.0033731130894814358, -0.0017905303270299951, 0.00083854004488146381, -0.00031919473602139722 } },
  { 2, 16, 32, { -3.5142734993475509e-05, 0.00011358789579769223, -0.00028037958674221865, 0.00059293788160310983, -0.0011294540908177316, 0.0019917372726928621, -0.0033089217809885089, 0.0052441962508098247, -0.0080093910223938969, 0.011898075091115791, -0.017362581771322497, 0.025204120984314179, -0.037100932061169621, 0.05741611276580523, -0.10224463341225128, 0.31700464719515836, 0.31700464719515836, -0.10224463341225128, 0.05741611276580523, -0.037100932061169621, 0.025204120984314179, -0.017362581771322497, 0.011898075091115791, -0.0080093910223938969, 0.0052441962508098247, -0.0033089217809885089, 0.0019917372726928621, -0.0011294540908177316, 0.00059293788160310983, -0.00028037958674221865, 0.00011358789579769223, -3.5142734993475509e-05 } },
  { 2, 20, 42, { 2.462921679677098e-06, -9.7990456966297642e-06, 2.8137964376907089e-05, -6.7464881821882147e-05, 0.00014336862073315238, -0.00027870276326314282, 0.00050528391212769828, -0.00086555167177915693, 0.001414202687011198, -0.0022199926486379351, 0.0033682362854527102, -0.0049651473206042927, 0.0071463283371986609, -0.010094148846828677, 0.014074361299068239, -0.019516906264665297, 0.027209499082148168, -0.038828382182376324, 0.058747406804456517, -0.1030846689616977, 0.31729177522077329, 0.31729177522077329, -0.1030846689616977, 0.058747406804456517, -0.038828382182376324, 0.027209499082148168, -0.019516906264665297, 0.014074361299068239, -0.010094148846828677, 0.0071463283371986609, -0.0049651473206042927, 0.0033682362854527102, -0.0022199926486379351, 0.001414202687011198, -0.00086555167177915693, 0.00050528391212769828, -0.00027870276326314282, 0.00014336862073315238, -6.7464881821882147e-05, 2.8137964376907089e-05, -9.7990456966297642e-06, 2.462921679677098e-06 } },
  { 2, 24, 52, { -1.8966490206871498e-07, 8.9375397078733038e-07, -2.9108958281584037e-06, 7.7609698680953084e-06, -1.8119956302920573e-05, 3.8375105842230289e-05, -7.5309071659469422e-05, 0.00013889694095199881, -0.00024318689587188479, 0.00040722732084583771, -0.00065600665137277266, 0.0010213950184175897, -0.0015431295374089668, 0.0022699842719303867, -0.0032614400850958349, 0.0045904754831414749, -0.0063486601639801757, 0.0086558345711950473, -0.011679015470590493, 0.015670714074410209, -0.021051408534455151, 0.028604536062639324, -0.040008178410666846, 0.059644444619411104, -0.10364569487012833, 0.31748269557078485, 0.31748269557078485, -0.10364569487012833, 0.059644444619411104, -0.040008178410666846, 0.028604536062639324, -0.021051408534455151, 0.015670714074410209, -0.011679015470590493, 0.0086558345711950473, -0.0063486601639801757, 0.0045904754831414749, -0.0032614400850958349, 0.0022699842719303867, -0.0015431295374089668, 0.0010213950184175897, -0.00065600665137277266, 0.00040722732084583771, -0.00024318689587188479, 0.00013889694095199881, -7.5309071659469422e-05, 3.8375105842230289e-05, -1.8119956302920573e-05, 7.7609698680953084e-06, -2.9108958281584037e-06, 8.9375397078733038e-07, -1.8966490206871498e-07 } },
  { 4, 8, 6, { 0.013331613494158892, -0.063984766541747701, 0.30161384865948215, 0.30161384865948215, -0.063984766541747701, 0.013331613494158892 } },
  { 4, 12, 8, { -0.0025910542040449166, 0.017312836258421897, -0.068161446853832547, 0.30340841235941451, 0.30340841235941451, -0.068161446853832547, 0.017312836258421897, -0.0025910542040449166 } },
  { 4, 16, 10, { 0.00055713256761683624, -0.0048543666906354322, 0.021809335002826419, -0.07314151522060984, 0.30562814686107154, 0.30562814686107154, -0.07314151522060984, 0.021809335002826419, -0.0048543666906354322, 0.00055713256761683624 } },
  { 4, 20, 14, { 4.3979674631863828e-05, -0.00050306469192140831, 0.0027962504087410017, -0.0104701145940854, 0.030755143193163845, -0.082041866707154049, 0.30941949170527266, 0.30941949170527266, -0.082041866707154049, 0.030755143193163845, -0.0104701145940854, 0.0027962504087410017, -0.00050306469192140831, 4.3979674631863828e-05 } },
  { 4, 24, 16, { -7.8113862062895426e-06, 0.00011777177340253329, -0.00080979027642968135, 0.0035914299596684998, -0.011907675232141863, 0.032618531462663011, -0.083680449562963541, 0.31007801153486508, 0.31007801153486508, -0.083680449562963541, 0.032618531462663011, -0.011907675232141863, 0.0035914299596684998, -0.00080979027642968135, 0.00011777177340253329, -7.8113862062895426e-06 } },
  { 8, 8, 4, { -0.037276258261764339, 0.28635090020526976, 0.28635090020526976, -0.037276258261764339 } },
  { 8, 12, 6, { 0.0058721484201940686, -0.04927503533113451, 0.29336813890765773, 0.29336813890765773, -0.04927503533113451, 0.0058721484201940686 } },
  { 8, 16, 8, { -0.0010885239331601666, 0.011649378449320132, -0.059557473859641025, 0.29900137394294291, 0.29900137394294291, -0.059557473859641025, 0.011649378449320132, -0.0010885239331601666 } },
  { 8, 20, 10, { 0.00017230594713343024, -0.0025517318194462676, 0.015994679393099197, -0.065650666770903893, 0.30203532650661635, 0.30203532650661635, -0.065650666770903893, 0.015994679393099197, -0.0025517318194462676, 0.00017230594713343024 } },
  { 8, 24, 12, { -3.0345557546583282e-05, 0.00057384655742621232, -0.0043830674681261178, 0.020226878808907018, -0.070915964811982507, 0.30452864347609138, 0.30452864347609138, -0.070915964811982507, 0.020226878808907018, -0.0043830674681261178, 0.00057384655742621232, -3.0345557546583282e-05 } },
  { 2, 1, 2, { 0.25, 0.25 } },
  { 4, 1, 2, { 0.25, 0.25 } },
  { 8, 1, 2, { 0.25, 0.25 } },
};
static const RefIir ref_iir[] = {
  { 2, 8, 3, 1.74969403837, 51.189552, { 0.13533476491166643, 0.4445905980823659, 0.80006724816152353 } },
  { 4, 8, 2, 1.55428965104, 71.899298, { 0.12564829488677642, 0.56413565549877887 } },
  { 8, 8, 1, 0.980631159131, 59.520851, { 0.3421040326880479 } },
  { 2, 12, 5, 2.75851148794, 83.881015, { 0.057369561854075039, 0.20954360813168779, 0.41352768544651602, 0.63513490110424087, 0.86943780167618079 } },
  { 4, 12, 3, 2.16238869588, 103.06726, { 0.063242386110161669, 0.26520245698601164, 0.66713594063632731 } },
  { 8, 12, 2, 1.60344779304, 103.21514, { 0.11010398332299401, 0.53640535169020831 } },
  { 2, 16, 6, 3.25851797906, 100.22676, { 0.041451595119442269, 0.15510356876083611, 0.31565680487417447, 0.49770230748789707, 0.68754139898746192, 0.88864894857989485 } },
  { 4, 16, 3, 2.16238869588, 103.06726, { 0.063242386110161669, 0.26520245698601164, 0.66713594063632731 } },
  { 8, 16, 2, 1.60344779304, 103.21514, { 0.11010398332299401, 0.53640535169020831 } },
  { 2, 20, 8, 4.25857478083, 132.91826, { 0.024474822059978397, 0.094054346501929828, 0.19872162695194265, 0.32597599445882575, 0.46482603848881737, 0.60862663328164512, 0.75647898374965294, 0.91392075106875581 } },
  { 4, 20, 4, 2.77178574642, 134.23522, { 0.038060547476233234, 0.15621232623983725, 0.37118048037197932, 0.73087698794651035 } },
  { 8, 20, 3, 2.22722366965, 146.90944, { 0.054591151801738888, 0.23954799102030067, 0.6433572047209577 } },
  { 2, 24, 9, 4.75875208779, 149.26401, { 0.019646942767440643, 0.076088803821783457, 0.16263241326637881, 0.27042251375210274, 0.39083229614395826, 0.51740920918216593, 0.6470358330763375, 0.78046246223929072, 0.92268241849452004 } },
  { 4, 24, 5, 3.38247889149, 165.40318, { 0.025414320818610971, 0.10332655701804293, 0.24011358015046405, 0.45161232259949813, 0.77416388521129154 } },
  { 8, 24, 3, 2.22722366965, 146.90944, { 0.054591151801738888, 0.23954799102030067, 0.6433572047209577 } },
};
