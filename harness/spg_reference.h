// the 530 tabulated settings: Hall number, international number, Hall symbol, three international symbols, choice, centring, point group
struct Setting{ int h,n; const char *hall,*s,*full,*shrt,*choice; int br,pg; };
static const Setting SETTINGS[530]={
{1,1,"P 1","P 1","P 1","P1","",1,1},
{2,2,"-P 1","P -1","P -1","P-1","",1,2},
{3,3,"P 2y","P 2 = P 1 2 1","P 1 2 1","P2","b",1,3},
{4,3,"P 2","P 2 = P 1 1 2","P 1 1 2","P2","c",1,3},
{5,3,"P 2x","P 2 = P 2 1 1","P 2 1 1","P2","a",1,3},
{6,4,"P 2yb","P 2_1 = P 1 2_1 1","P 1 2_1 1","P2_1","b",1,3},
{7,4,"P 2c","P 2_1 = P 1 1 2_1","P 1 1 2_1","P2_1","c",1,3},
{8,4,"P 2xa","P 2_1 = P 2_1 1 1","P 2_1 1 1","P2_1","a",1,3},
{9,5,"C 2y","C 2 = C 1 2 1","C 1 2 1","C2","b1",4,3},
{10,5,"A 2y","C 2 = A 1 2 1","A 1 2 1","C2","b2",2,3},
{11,5,"I 2y","C 2 = I 1 2 1","I 1 2 1","C2","b3",5,3},
{12,5,"A 2","C 2 = A 1 1 2","A 1 1 2","C2","c1",2,3},
{13,5,"B 2","C 2 = B 1 1 2 = B 2","B 1 1 2","C2","c2",3,3},
{14,5,"I 2","C 2 = I 1 1 2","I 1 1 2","C2","c3",5,3},
{15,5,"B 2x","C 2 = B 2 1 1","B 2 1 1","C2","a1",3,3},
{16,5,"C 2x","C 2 = C 2 1 1","C 2 1 1","C2","a2",4,3},
{17,5,"I 2x","C 2 = I 2 1 1","I 2 1 1","C2","a3",5,3},
{18,6,"P -2y","P m = P 1 m 1","P 1 m 1","Pm","b",1,4},
{19,6,"P -2","P m = P 1 1 m","P 1 1 m","Pm","c",1,4},
{20,6,"P -2x","P m = P m 1 1","P m 1 1","Pm","a",1,4},
{21,7,"P -2yc","P c = P 1 c 1","P 1 c 1","Pc","b1",1,4},
{22,7,"P -2yac","P c = P 1 n 1","P 1 n 1","Pc","b2",1,4},
{23,7,"P -2ya","P c = P 1 a 1","P 1 a 1","Pc","b3",1,4},
{24,7,"P -2a","P c = P 1 1 a","P 1 1 a","Pc","c1",1,4},
{25,7,"P -2ab","P c = P 1 1 n","P 1 1 n","Pc","c2",1,4},
{26,7,"P -2b","P c = P 1 1 b = P b","P 1 1 b","Pc","c3",1,4},
{27,7,"P -2xb","P c = P b 1 1","P b 1 1","Pc","a1",1,4},
{28,7,"P -2xbc","P c = P n 1 1","P n 1 1","Pc","a2",1,4},
{29,7,"P -2xc","P c = P c 1 1","P c 1 1","Pc","a3",1,4},
{30,8,"C -2y","C m = C 1 m 1","C 1 m 1","Cm","b1",4,4},
{31,8,"A -2y","C m = A 1 m 1","A 1 m 1","Cm","b2",2,4},
{32,8,"I -2y","C m = I 1 m 1","I 1 m 1","Cm","b3",5,4},
{33,8,"A -2","C m = A 1 1 m","A 1 1 m","Cm","c1",2,4},
{34,8,"B -2","C m = B 1 1 m = B m","B 1 1 m","Cm","c2",3,4},
{35,8,"I -2","C m = I 1 1 m","I 1 1 m","Cm","c3",5,4},
{36,8,"B -2x","C m = B m 1 1","B m 1 1","Cm","a1",3,4},
{37,8,"C -2x","C m = C m 1 1","C m 1 1","Cm","a2",4,4},
{38,8,"I -2x","C m = I m 1 1","I m 1 1","Cm","a3",5,4},
{39,9,"C -2yc","C c = C 1 c 1","C 1 c 1","Cc","b1",4,4},
{40,9,"A -2yac","C c = A 1 n 1","A 1 n 1","Cc","b2",2,4},
{41,9,"I -2ya","C c = I 1 a 1","I 1 a 1","Cc","b3",5,4},
{42,9,"A -2ya","C c = A 1 a 1","A 1 a 1","Cc","-b1",2,4},
{43,9,"C -2ybc","C c = C 1 n 1","C 1 n 1","Cc","-b2",4,4},
{44,9,"I -2yc","C c = I 1 c 1","I 1 c 1","Cc","-b3",5,4},
{45,9,"A -2a","C c = A 1 1 a","A 1 1 a","Cc","c1",2,4},
{46,9,"B -2bc","C c = B 1 1 n","B 1 1 n","Cc","c2",3,4},
{47,9,"I -2b","C c = I 1 1 b","I 1 1 b","Cc","c3",5,4},
{48,9,"B -2b","C c = B 1 1 b = B b","B 1 1 b","Cc","-c1",3,4},
{49,9,"A -2ac","C c = A 1 1 n","A 1 1 n","Cc","-c2",2,4},
{50,9,"I -2a","C c = I 1 1 a","I 1 1 a","Cc","-c3",5,4},
{51,9,"B -2xb","C c = B b 1 1","B b 1 1","Cc","a1",3,4},
{52,9,"C -2xbc","C c = C n 1 1","C n 1 1","Cc","a2",4,4},
{53,9,"I -2xc","C c = I c 1 1","I c 1 1","Cc","a3",5,4},
{54,9,"C -2xc","C c = C c 1 1","C c 1 1","Cc","-a1",4,4},
{55,9,"B -2xbc","C c = B n 1 1","B n 1 1","Cc","-a2",3,4},
{56,9,"I -2xb","C c = I b 1 1","I b 1 1","Cc","-a3",5,4},
{57,10,"-P 2y","P 2/m = P 1 2/m 1","P 1 2/m 1","P2/m","b",1,5},
{58,10,"-P 2","P 2/m = P 1 1 2/m","P 1 1 2/m","P2/m","c",1,5},
{59,10,"-P 2x","P 2/m = P 2/m 1 1","P 2/m 1 1","P2/m","a",1,5},
{60,11,"-P 2yb","P 2_1/m = P 1 2_1/m 1","P 1 2_1/m 1","P2_1/m","b",1,5},
{61,11,"-P 2c","P 2_1/m = P 1 1 2_1/m","P 1 1 2_1/m","P2_1/m","c",1,5},
{62,11,"-P 2xa","P 2_1/m = P 2_1/m 1 1","P 2_1/m 1 1","P2_1/m","a",1,5},
{63,12,"-C 2y","C 2/m = C 1 2/m 1","C 1 2/m 1","C2/m","b1",4,5},
{64,12,"-A 2y","C 2/m = A 1 2/m 1","A 1 2/m 1","C2/m","b2",2,5},
{65,12,"-I 2y","C 2/m = I 1 2/m 1","I 1 2/m 1","C2/m","b3",5,5},
{66,12,"-A 2","C 2/m = A 1 1 2/m","A 1 1 2/m","C2/m","c1",2,5},
{67,12,"-B 2","C 2/m = B 1 1 2/m = B 2/m","B 1 1 2/m","C2/m","c2",3,5},
{68,12,"-I 2","C 2/m = I 1 1 2/m","I 1 1 2/m","C2/m","c3",5,5},
{69,12,"-B 2x","C 2/m = B 2/m 1 1","B 2/m 1 1","C2/m","a1",3,5},
{70,12,"-C 2x","C 2/m = C 2/m 1 1","C 2/m 1 1","C2/m","a2",4,5},
{71,12,"-I 2x","C 2/m = I 2/m 1 1","I 2/m 1 1","C2/m","a3",5,5},
{72,13,"-P 2yc","P 2/c = P 1 2/c 1","P 1 2/c 1","P2/c","b1",1,5},
{73,13,"-P 2yac","P 2/c = P 1 2/n 1","P 1 2/n 1","P2/c","b2",1,5},
{74,13,"-P 2ya","P 2/c = P 1 2/a 1","P 1 2/a 1","P2/c","b3",1,5},
{75,13,"-P 2a","P 2/c = P 1 1 2/a","P 1 1 2/a","P2/c","c1",1,5},
{76,13,"-P 2ab","P 2/c = P 1 1 2/n","P 1 1 2/n","P2/c","c2",1,5},
{77,13,"-P 2b","P 2/c = P 1 1 2/b = P 2/b","P 1 1 2/b","P2/c","c3",1,5},
{78,13,"-P 2xb","P 2/c = P 2/b 1 1","P 2/b 1 1","P2/c","a1",1,5},
{79,13,"-P 2xbc","P 2/c = P 2/n 1 1","P 2/n 1 1","P2/c","a2",1,5},
{80,13,"-P 2xc","P 2/c = P 2/c 1 1","P 2/c 1 1","P2/c","a3",1,5},
{81,14,"-P 2ybc","P 2_1/c = P 1 2_1/c 1","P 1 2_1/c 1","P2_1/c","b1",1,5},
{82,14,"-P 2yn","P 2_1/c = P 1 2_1/n 1","P 1 2_1/n 1","P2_1/c","b2",1,5},
{83,14,"-P 2yab","P 2_1/c = P 1 2_1/a 1","P 1 2_1/a 1","P2_1/c","b3",1,5},
{84,14,"-P 2ac","P 2_1/c = P 1 1 2_1/a","P 1 1 2_1/a","P2_1/c","c1",1,5},
{85,14,"-P 2n","P 2_1/c = P 1 1 2_1/n","P 1 1 2_1/n","P2_1/c","c2",1,5},
{86,14,"-P 2bc","P 2_1/c = P 1 1 2_1/b = P 2_1/b","P 1 1 2_1/b","P2_1/c","c3",1,5},
{87,14,"-P 2xab","P 2_1/c = P 2_1/b 1 1","P 2_1/b 1 1","P2_1/c","a1",1,5},
{88,14,"-P 2xn","P 2_1/c = P 2_1/n 1 1","P 2_1/n 1 1","P2_1/c","a2",1,5},
{89,14,"-P 2xac","P 2_1/c = P 2_1/c 1 1","P 2_1/c 1 1","P2_1/c","a3",1,5},
{90,15,"-C 2yc","C 2/c = C 1 2/c 1","C 1 2/c 1","C2/c","b1",4,5},
{91,15,"-A 2yac","C 2/c = A 1 2/n 1","A 1 2/n 1","C2/c","b2",2,5},
{92,15,"-I 2ya","C 2/c = I 1 2/a 1","I 1 2/a 1","C2/c","b3",5,5},
{93,15,"-A 2ya","C 2/c = A 1 2/a 1","A 1 2/a 1","C2/c","-b1",2,5},
{94,15,"-C 2ybc","C 2/c = C 1 2/n 1","C 1 2/n 1","C2/c","-b2",4,5},
{95,15,"-I 2yc","C 2/c = I 1 2/c 1","I 1 2/c 1","C2/c","-b3",5,5},
{96,15,"-A 2a","C 2/c = A 1 1 2/a","A 1 1 2/a","C2/c","c1",2,5},
{97,15,"-B 2bc","C 2/c = B 1 1 2/n","B 1 1 2/n","C2/c","c2",3,5},
{98,15,"-I 2b","C 2/c = I 1 1 2/b","I 1 1 2/b","C2/c","c3",5,5},
{99,15,"-B 2b","C 2/c = B 1 1 2/b = B 2/b","B 1 1 2/b","C2/c","-c1",3,5},
{100,15,"-A 2ac","C 2/c = A 1 1 2/n","A 1 1 2/n","C2/c","-c2",2,5},
{101,15,"-I 2a","C 2/c = I 1 1 2/a","I 1 1 2/a","C2/c","-c3",5,5},
{102,15,"-B 2xb","C 2/c = B 2/b 1 1","B 2/b 1 1","C2/c","a1",3,5},
{103,15,"-C 2xbc","C 2/c = C 2/n 1 1","C 2/n 1 1","C2/c","a2",4,5},
{104,15,"-I 2xc","C 2/c = I 2/c 1 1","I 2/c 1 1","C2/c","a3",5,5},
{105,15,"-C 2xc","C 2/c = C 2/c 1 1","C 2/c 1 1","C2/c","-a1",4,5},
{106,15,"-B 2xbc","C 2/c = B 2/n 1 1","B 2/n 1 1","C2/c","-a2",3,5},
{107,15,"-I 2xb","C 2/c = I 2/b 1 1","I 2/b 1 1","C2/c","-a3",5,5},
{108,16,"P 2 2","P 2 2 2","P 2 2 2","P222","",1,6},
{109,17,"P 2c 2","P 2 2 2_1","P 2 2 2_1","P222_1","",1,6},
{110,17,"P 2a 2a","P 2_1 2 2","P 2_1 2 2","P2_122","cab",1,6},
{111,17,"P 2 2b","P 2 2_1 2","P 2 2_1 2","P22_12","bca",1,6},
{112,18,"P 2 2ab","P 2_1 2_1 2","P 2_1 2_1 2","P2_12_12","",1,6},
{113,18,"P 2bc 2","P 2 2_1 2_1","P 2 2_1 2_1","P22_12_1","cab",1,6},
{114,18,"P 2ac 2ac","P 2_1 2 2_1","P 2_1 2 2_1","P2_122_1","bca",1,6},
{115,19,"P 2ac 2ab","P 2_1 2_1 2_1","P 2_1 2_1 2_1","P2_12_12_1","",1,6},
{116,20,"C 2c 2","C 2 2 2_1","C 2 2 2_1","C222_1","",4,6},
{117,20,"A 2a 2a","A 2_1 2 2","A 2_1 2 2","A2_122","cab",2,6},
{118,20,"B 2 2b","B 2 2_1 2","B 2 2_1 2","B22_12","bca",3,6},
{119,21,"C 2 2","C 2 2 2","C 2 2 2","C222","",4,6},
{120,21,"A 2 2","A 2 2 2","A 2 2 2","A222","cab",2,6},
{121,21,"B 2 2","B 2 2 2","B 2 2 2","B222","bca",3,6},
{122,22,"F 2 2","F 2 2 2","F 2 2 2","F222","",6,6},
{123,23,"I 2 2","I 2 2 2","I 2 2 2","I222","",5,6},
{124,24,"I 2b 2c","I 2_1 2_1 2_1","I 2_1 2_1 2_1","I2_12_12_1","",5,6},
{125,25,"P 2 -2","P m m 2","P m m 2","Pmm2","",1,7},
{126,25,"P -2 2","P 2 m m","P 2 m m","P2mm","cab",1,7},
{127,25,"P -2 -2","P m 2 m","P m 2 m","Pm2m","bca",1,7},
{128,26,"P 2c -2","P m c 2_1","P m c 2_1","Pmc2_1","",1,7},
{129,26,"P 2c -2c","P c m 2_1","P c m 2_1","Pcm2_1","ba-c",1,7},
{130,26,"P -2a 2a","P 2_1 m a","P 2_1 m a","P2_1ma","cab",1,7},
{131,26,"P -2 2a","P 2_1 a m","P 2_1 a m","P2_1am","-cba",1,7},
{132,26,"P -2 -2b","P b 2_1 m","P b 2_1 m","Pb2_1m","bca",1,7},
{133,26,"P -2b -2","P m 2_1 b","P m 2_1 b","Pm2_1b","a-cb",1,7},
{134,27,"P 2 -2c","P c c 2","P c c 2","Pcc2","",1,7},
{135,27,"P -2a 2","P 2 a a","P 2 a a","P2aa","cab",1,7},
{136,27,"P -2b -2b","P b 2 b","P b 2 b","Pb2b","bca",1,7},
{137,28,"P 2 -2a","P m a 2","P m a 2","Pma2","",1,7},
{138,28,"P 2 -2b","P b m 2","P b m 2","Pbm2","ba-c",1,7},
{139,28,"P -2b 2","P 2 m b","P 2 m b","P2mb","cab",1,7},
{140,28,"P -2c 2","P 2 c m","P 2 c m","P2cm","-cba",1,7},
{141,28,"P -2c -2c","P c 2 m","P c 2 m","Pc2m","bca",1,7},
{142,28,"P -2a -2a","P m 2 a","P m 2 a","Pm2a","a-cb",1,7},
{143,29,"P 2c -2ac","P c a 2_1","P c a 2_1","Pca2_1","",1,7},
{144,29,"P 2c -2b","P b c 2_1","P b c 2_1","Pbc2_1","ba-c",1,7},
{145,29,"P -2b 2a","P 2_1 a b","P 2_1 a b","P2_1ab","cab",1,7},
{146,29,"P -2ac 2a","P 2_1 c a","P 2_1 c a","P2_1ca","-cba",1,7},
{147,29,"P -2bc -2c","P c 2_1 b","P c 2_1 b","Pc2_1b","bca",1,7},
{148,29,"P -2a -2ab","P b 2_1 a","P b 2_1 a","Pb2_1a","a-cb",1,7},
{149,30,"P 2 -2bc","P n c 2","P n c 2","Pnc2","",1,7},
{150,30,"P 2 -2ac","P c n 2","P c n 2","Pcn2","ba-c",1,7},
{151,30,"P -2ac 2","P 2 n a","P 2 n a","P2na","cab",1,7},
{152,30,"P -2ab 2","P 2 a n","P 2 a n","P2an","-cba",1,7},
{153,30,"P -2ab -2ab","P b 2 n","P b 2 n","Pb2n","bca",1,7},
{154,30,"P -2bc -2bc","P n 2 b","P n 2 b","Pn2b","a-cb",1,7},
{155,31,"P 2ac -2","P m n 2_1","P m n 2_1","Pmn2_1","",1,7},
{156,31,"P 2bc -2bc","P n m 2_1","P n m 2_1","Pnm2_1","ba-c",1,7},
{157,31,"P -2ab 2ab","P 2_1 m n","P 2_1 m n","P2_1mn","cab",1,7},
{158,31,"P -2 2ac","P 2_1 n m","P 2_1 n m","P2_1nm","-cba",1,7},
{159,31,"P -2 -2bc","P n 2_1 m","P n 2_1 m","Pn2_1m","bca",1,7},
{160,31,"P -2ab -2","P m 2_1 n","P m 2_1 n","Pm2_1n","a-cb",1,7},
{161,32,"P 2 -2ab","P b a 2","P b a 2","Pba2","",1,7},
{162,32,"P -2bc 2","P 2 c b","P 2 c b","P2cb","cab",1,7},
{163,32,"P -2ac -2ac","P c 2 a","P c 2 a","Pc2a","bca",1,7},
{164,33,"P 2c -2n","P n a 2_1","P n a 2_1","Pna2_1","",1,7},
{165,33,"P 2c -2ab","P b n 2_1","P b n 2_1","Pbn2_1","ba-c",1,7},
{166,33,"P -2bc 2a","P 2_1 n b","P 2_1 n b","P2_1nb","cab",1,7},
{167,33,"P -2n 2a","P 2_1 c n","P 2_1 c n","P2_1cn","-cba",1,7},
{168,33,"P -2n -2ac","P c 2_1 n","P c 2_1 n","Pc2_1n","bca",1,7},
{169,33,"P -2ac -2n","P n 2_1 a","P n 2_1 a","Pn2_1a","a-cb",1,7},
{170,34,"P 2 -2n","P n n 2","P n n 2","Pnn2","",1,7},
{171,34,"P -2n 2","P 2 n n","P 2 n n","P2nn","cab",1,7},
{172,34,"P -2n -2n","P n 2 n","P n 2 n","Pn2n","bca",1,7},
{173,35,"C 2 -2","C m m 2","C m m 2","Cmm2","",4,7},
{174,35,"A -2 2","A 2 m m","A 2 m m","A2mm","cab",2,7},
{175,35,"B -2 -2","B m 2 m","B m 2 m","Bm2m","bca",3,7},
{176,36,"C 2c -2","C m c 2_1","C m c 2_1","Cmc2_1","",4,7},
{177,36,"C 2c -2c","C c m 2_1","C c m 2_1","Ccm2_1","ba-c",4,7},
{178,36,"A -2a 2a","A 2_1 m a","A 2_1 m a","A2_1ma","cab",2,7},
{179,36,"A -2 2a","A 2_1 a m","A 2_1 a m","A2_1am","-cba",2,7},
{180,36,"B -2 -2b","B b 2_1 m","B b 2_1 m","Bb2_1m","bca",3,7},
{181,36,"B -2b -2","B m 2_1 b","B m 2_1 b","Bm2_1b","a-cb",3,7},
{182,37,"C 2 -2c","C c c 2","C c c 2","Ccc2","",4,7},
{183,37,"A -2a 2","A 2 a a","A 2 a a","A2aa","cab",2,7},
{184,37,"B -2b -2b","B b 2 b","B b 2 b","Bb2b","bca",3,7},
{185,38,"A 2 -2","A m m 2","A m m 2","Amm2","",2,7},
{186,38,"B 2 -2","B m m 2","B m m 2","Bmm2","ba-c",3,7},
{187,38,"B -2 2","B 2 m m","B 2 m m","B2mm","cab",3,7},
{188,38,"C -2 2","C 2 m m","C 2 m m","C2mm","-cba",4,7},
{189,38,"C -2 -2","C m 2 m","C m 2 m","Cm2m","bca",4,7},
{190,38,"A -2 -2","A m 2 m","A m 2 m","Am2m","a-cb",2,7},
{191,39,"A 2 -2c","A e m 2","A e m 2","Aem2","",2,7},
{192,39,"B 2 -2c","B m e 2","B m e 2","Bme2","ba-c",3,7},
{193,39,"B -2c 2","B 2 e m","B 2 e m","B2em","cab",3,7},
{194,39,"C -2b 2","C 2 m e","C 2 m e","C2me","-cba",4,7},
{195,39,"C -2b -2b","C m 2 e","C m 2 e","Cm2e","bca",4,7},
{196,39,"A -2c -2c","A e 2 m","A e 2 m","Ae2m","a-cb",2,7},
{197,40,"A 2 -2a","A m a 2","A m a 2","Ama2","",2,7},
{198,40,"B 2 -2b","B b m 2","B b m 2","Bbm2","ba-c",3,7},
{199,40,"B -2b 2","B 2 m b","B 2 m b","B2mb","cab",3,7},
{200,40,"C -2c 2","C 2 c m","C 2 c m","C2cm","-cba",4,7},
{201,40,"C -2c -2c","C c 2 m","C c 2 m","Cc2m","bca",4,7},
{202,40,"A -2a -2a","A m 2 a","A m 2 a","Am2a","a-cb",2,7},
{203,41,"A 2 -2ac","A e a 2","A e a 2","Aea2","",2,7},
{204,41,"B 2 -2bc","B b e 2","B b e 2","Bbe2","ba-c",3,7},
{205,41,"B -2bc 2","B 2 e b","B 2 e b","B2eb","cab",3,7},
{206,41,"C -2bc 2","C 2 c e","C 2 c e","C2ce","-cba",4,7},
{207,41,"C -2bc -2bc","C c 2 e","C c 2 e","Cc2e","bca",4,7},
{208,41,"A -2ac -2ac","A e 2 a","A e 2 a","Ae2a","a-cb",2,7},
{209,42,"F 2 -2","F m m 2","F m m 2","Fmm2","",6,7},
{210,42,"F -2 2","F 2 m m","F 2 m m","F2mm","cab",6,7},
{211,42,"F -2 -2","F m 2 m","F m 2 m","Fm2m","bca",6,7},
{212,43,"F 2 -2d","F d d 2","F d d 2","Fdd2","",6,7},
{213,43,"F -2d 2","F 2 d d","F 2 d d","F2dd","cab",6,7},
{214,43,"F -2d -2d","F d 2 d","F d 2 d","Fd2d","bca",6,7},
{215,44,"I 2 -2","I m m 2","I m m 2","Imm2","",5,7},
{216,44,"I -2 2","I 2 m m","I 2 m m","I2mm","cab",5,7},
{217,44,"I -2 -2","I m 2 m","I m 2 m","Im2m","bca",5,7},
{218,45,"I 2 -2c","I b a 2","I b a 2","Iba2","",5,7},
{219,45,"I -2a 2","I 2 c b","I 2 c b","I2cb","cab",5,7},
{220,45,"I -2b -2b","I c 2 a","I c 2 a","Ic2a","bca",5,7},
{221,46,"I 2 -2a","I m a 2","I m a 2","Ima2","",5,7},
{222,46,"I 2 -2b","I b m 2","I b m 2","Ibm2","ba-c",5,7},
{223,46,"I -2b 2","I 2 m b","I 2 m b","I2mb","cab",5,7},
{224,46,"I -2c 2","I 2 c m","I 2 c m","I2cm","-cba",5,7},
{225,46,"I -2c -2c","I c 2 m","I c 2 m","Ic2m","bca",5,7},
{226,46,"I -2a -2a","I m 2 a","I m 2 a","Im2a","a-cb",5,7},
{227,47,"-P 2 2","P m m m","P 2/m 2/m 2/m","Pmmm","",1,8},
{228,48,"P 2 2 -1n","P n n n","P 2/n 2/n 2/n","Pnnn","1",1,8},
{229,48,"-P 2ab 2bc","P n n n","P 2/n 2/n 2/n","Pnnn","2",1,8},
{230,49,"-P 2 2c","P c c m","P 2/c 2/c 2/m","Pccm","",1,8},
{231,49,"-P 2a 2","P m a a","P 2/m 2/a 2/a","Pmaa","cab",1,8},
{232,49,"-P 2b 2b","P b m b","P 2/b 2/m 2/b","Pbmb","bca",1,8},
{233,50,"P 2 2 -1ab","P b a n","P 2/b 2/a 2/n","Pban","1",1,8},
{234,50,"-P 2ab 2b","P b a n","P 2/b 2/a 2/n","Pban","2",1,8},
{235,50,"P 2 2 -1bc","P n c b","P 2/n 2/c 2/b","Pncb","1cab",1,8},
{236,50,"-P 2b 2bc","P n c b","P 2/n 2/c 2/b","Pncb","2cab",1,8},
{237,50,"P 2 2 -1ac","P c n a","P 2/c 2/n 2/a","Pcna","1bca",1,8},
{238,50,"-P 2a 2c","P c n a","P 2/c 2/n 2/a","Pcna","2bca",1,8},
{239,51,"-P 2a 2a","P m m a","P 2_1/m 2/m 2/a","Pmma","",1,8},
{240,51,"-P 2b 2","P m m b","P 2/m 2_1/m 2/b","Pmmb","ba-c",1,8},
{241,51,"-P 2 2b","P b m m","P 2/b 2_1/m 2/m","Pbmm","cab",1,8},
{242,51,"-P 2c 2c","P c m m","P 2/c 2/m 2_1/m","Pcmm","-cba",1,8},
{243,51,"-P 2c 2","P m c m","P 2/m 2/c 2_1/m","Pmcm","bca",1,8},
{244,51,"-P 2 2a","P m a m","P 2_1/m 2/a 2/m","Pmam","a-cb",1,8},
{245,52,"-P 2a 2bc","P n n a","P 2/n 2_1/n 2/a","Pnna","",1,8},
{246,52,"-P 2b 2n","P n n b","P 2_1/n 2/n 2/b","Pnnb","ba-c",1,8},
{247,52,"-P 2n 2b","P b n n","P 2/b 2/n 2_1/n","Pbnn","cab",1,8},
{248,52,"-P 2ab 2c","P c n n","P 2/c 2_1/n 2/n","Pcnn","-cba",1,8},
{249,52,"-P 2ab 2n","P n c n","P 2_1/n 2/c 2/n","Pncn","bca",1,8},
{250,52,"-P 2n 2bc","P n a n","P 2/n 2/a 2_1/n","Pnan","a-cb",1,8},
{251,53,"-P 2ac 2","P m n a","P 2/m 2/n 2_1/a","Pmna","",1,8},
{252,53,"-P 2bc 2bc","P n m b","P 2/n 2/m 2_1/b","Pnmb","ba-c",1,8},
{253,53,"-P 2ab 2ab","P b m n","P 2_1/b 2/m 2/n","Pbmn","cab",1,8},
{254,53,"-P 2 2ac","P c n m","P 2_1/c 2/n 2/m","Pcnm","-cba",1,8},
{255,53,"-P 2 2bc","P n c m","P 2/n 2_1/c 2/m","Pncm","bca",1,8},
{256,53,"-P 2ab 2","P m a n","P 2/m 2_1/a 2/n","Pman","a-cb",1,8},
{257,54,"-P 2a 2ac","P c c a","P 2_1/c 2/c 2/a","Pcca","",1,8},
{258,54,"-P 2b 2c","P c c b","P 2/c 2_1/c 2/b","Pccb","ba-c",1,8},
{259,54,"-P 2a 2b","P b a a","P 2/b 2_1/a 2/a","Pbaa","cab",1,8},
{260,54,"-P 2ac 2c","P c a a","P 2/c 2/a 2_1/a","Pcaa","-cba",1,8},
{261,54,"-P 2bc 2b","P b c b","P 2/b 2/c 2_1/b","Pbcb","bca",1,8},
{262,54,"-P 2b 2ab","P b a b","P 2_1/b 2/a 2/b","Pbab","a-cb",1,8},
{263,55,"-P 2 2ab","P b a m","P 2_1/b 2_1/a 2/m","Pbam","",1,8},
{264,55,"-P 2bc 2","P m c b","P 2/m 2_1/c 2_1/b","Pmcb","cab",1,8},
{265,55,"-P 2ac 2ac","P c m a","P 2_1/c 2/m 2_1/a","Pcma","bca",1,8},
{266,56,"-P 2ab 2ac","P c c n","P 2_1/c 2_1/c 2/n","Pccn","",1,8},
{267,56,"-P 2ac 2bc","P n a a","P 2/n 2_1/a 2_1/a","Pnaa","cab",1,8},
{268,56,"-P 2bc 2ab","P b n b","P 2_1/b 2/n 2_1/b","Pbnb","bca",1,8},
{269,57,"-P 2c 2b","P b c m","P 2/b 2_1/c 2_1/m","Pbcm","",1,8},
{270,57,"-P 2c 2ac","P c a m","P 2_1/c 2/a 2_1/m","Pcam","ba-c",1,8},
{271,57,"-P 2ac 2a","P m c a","P 2_1/m 2/c 2_1/a","Pmca","cab",1,8},
{272,57,"-P 2b 2a","P m a b","P 2_1/m 2_1/a 2/b","Pmab","-cba",1,8},
{273,57,"-P 2a 2ab","P b m a","P 2_1/b 2_1/m 2/a","Pbma","bca",1,8},
{274,57,"-P 2bc 2c","P c m b","P 2/c 2_1/m 2_1/b","Pcmb","a-cb",1,8},
{275,58,"-P 2 2n","P n n m","P 2_1/n 2_1/n 2/m","Pnnm","",1,8},
{276,58,"-P 2n 2","P m n n","P 2/m 2_1/n 2_1/n","Pmnn","cab",1,8},
{277,58,"-P 2n 2n","P n m n","P 2_1/n 2/m 2_1/n","Pnmn","bca",1,8},
{278,59,"P 2 2ab -1ab","P m m n","P 2_1/m 2_1/m 2/n","Pmmn","1",1,8},
{279,59,"-P 2ab 2a","P m m n","P 2_1/m 2_1/m 2/n","Pmmn","2",1,8},
{280,59,"P 2bc 2 -1bc","P n m m","P 2/n 2_1/m 2_1/m","Pnmm","1cab",1,8},
{281,59,"-P 2c 2bc","P n m m","P 2/n 2_1/m 2_1/m","Pnmm","2cab",1,8},
{282,59,"P 2ac 2ac -1ac","P m n m","P 2_1/m 2/n 2_1/m","Pmnm","1bca",1,8},
{283,59,"-P 2c 2a","P m n m","P 2_1/m 2/n 2_1/m","Pmnm","2bca",1,8},
{284,60,"-P 2n 2ab","P b c n","P 2_1/b 2/c 2_1/n","Pbcn","",1,8},
{285,60,"-P 2n 2c","P c a n","P 2/c 2_1/a 2_1/n","Pcan","ba-c",1,8},
{286,60,"-P 2a 2n","P n c a","P 2_1/n 2_1/c 2/a","Pnca","cab",1,8},
{287,60,"-P 2bc 2n","P n a b","P 2_1/n 2/a 2_1/b","Pnab","-cba",1,8},
{288,60,"-P 2ac 2b","P b n a","P 2/b 2_1/n 2_1/a","Pbna","bca",1,8},
{289,60,"-P 2b 2ac","P c n b","P 2_1/c 2_1/n 2/b","Pcnb","a-cb",1,8},
{290,61,"-P 2ac 2ab","P b c a","P 2_1/b 2_1/c 2_1/a","Pbca","",1,8},
{291,61,"-P 2bc 2ac","P c a b","P 2_1/c 2_1/a 2_1/b","Pcab","ba-c",1,8},
{292,62,"-P 2ac 2n","P n m a","P 2_1/n 2_1/m 2_1/a","Pnma","",1,8},
{293,62,"-P 2bc 2a","P m n b","P 2_1/m 2_1/n 2_1/b","Pmnb","ba-c",1,8},
{294,62,"-P 2c 2ab","P b n m","P 2_1/b 2_1/n 2_1/m","Pbnm","cab",1,8},
{295,62,"-P 2n 2ac","P c m n","P 2_1/c 2_1/m 2_1/n","Pcmn","-cba",1,8},
{296,62,"-P 2n 2a","P m c n","P 2_1/m 2_1/c 2_1/n","Pmcn","bca",1,8},
{297,62,"-P 2c 2n","P n a m","P 2_1/n 2_1/a 2_1/m","Pnam","a-cb",1,8},
{298,63,"-C 2c 2","C m c m","C 2/m 2/c 2_1/m","Cmcm","",4,8},
{299,63,"-C 2c 2c","C c m m","C 2/c 2/m 2_1/m","Ccmm","ba-c",4,8},
{300,63,"-A 2a 2a","A m m a","A 2_1/m 2/m 2/a","Amma","cab",2,8},
{301,63,"-A 2 2a","A m a m","A 2_1/m 2/a 2/m","Amam","-cba",2,8},
{302,63,"-B 2 2b","B b m m","B 2/b 2_1/m 2/m","Bbmm","bca",3,8},
{303,63,"-B 2b 2","B m m b","B 2/m 2_1/m 2/b","Bmmb","a-cb",3,8},
{304,64,"-C 2bc 2","C m c e","C 2/m 2/c 2_1/e","Cmce","",4,8},
{305,64,"-C 2bc 2bc","C c m e","C 2/c 2/m 2_1/e","Ccme","ba-c",4,8},
{306,64,"-A 2ac 2ac","A e m a","A 2_1/e 2/m 2/a","Aema","cab",2,8},
{307,64,"-A 2 2ac","A e a m","A 2_1/e 2/a 2/m","Aeam","-cba",2,8},
{308,64,"-B 2 2bc","B b e m","B 2/b 2_1/e 2/m","Bbem","bca",3,8},
{309,64,"-B 2bc 2","B m e b","B 2/m 2_1/e 2/b","Bmeb","a-cb",3,8},
{310,65,"-C 2 2","C m m m","C 2/m 2/m 2/m","Cmmm","",4,8},
{311,65,"-A 2 2","A m m m","A 2/m 2/m 2/m","Ammm","cab",2,8},
{312,65,"-B 2 2","B m m m","B 2/m 2/m 2/m","Bmmm","bca",3,8},
{313,66,"-C 2 2c","C c c m","C 2/c 2/c 2/m","Cccm","",4,8},
{314,66,"-A 2a 2","A m a a","A 2/m 2/a 2/a","Amaa","cab",2,8},
{315,66,"-B 2b 2b","B b m b","B 2/b 2/m 2/b","Bbmb","bca",3,8},
{316,67,"-C 2b 2","C m m e","C 2/m 2/m 2/e","Cmme","",4,8},
{317,67,"-C 2b 2b","C m m e","C 2/m 2/m 2/e","Cmme","ba-c",4,8},
{318,67,"-A 2c 2c","A e m m","A 2/e 2/m 2/m","Aemm","cab",2,8},
{319,67,"-A 2 2c","A e m m","A 2/e 2/m 2/m","Aemm","-cba",2,8},
{320,67,"-B 2 2c","B m e m","B 2/m 2/e 2/m","Bmem","bca",3,8},
{321,67,"-B 2c 2","B m e m","B 2/m 2/e 2/m","Bmem","a-cb",3,8},
{322,68,"C 2 2 -1bc","C c c e","C 2/c 2/c 2/e","Ccce","1",4,8},
{323,68,"-C 2b 2bc","C c c e","C 2/c 2/c 2/e","Ccce","2",4,8},
{324,68,"C 2 2 -1bc","C c c e","C 2/c 2/c 2/e","Ccce","1ba-c",4,8},
{325,68,"-C 2b 2c","C c c e","C 2/c 2/c 2/e","Ccce","2ba-c",4,8},
{326,68,"A 2 2 -1ac","A e a a","A 2/e 2/a 2/a","Aeaa","1cab",2,8},
{327,68,"-A 2a 2c","A e a a","A 2/e 2/a 2/a","Aeaa","2cab",2,8},
{328,68,"A 2 2 -1ac","A e a a","A 2/e 2/a 2/a","Aeaa","1-cba",2,8},
{329,68,"-A 2ac 2c","A e a a","A 2/e 2/a 2/a","Aeaa","2-cba",2,8},
{330,68,"B 2 2 -1bc","B b e b","B 2/b 2/e 2/b","Bbeb","1bca",3,8},
{331,68,"-B 2bc 2b","B b c b","B 2/b 2/e 2/b","Bbcb","2bca",3,8},
{332,68,"B 2 2 -1bc","B b e b","B 2/b 2/e 2/b","Bbeb","1a-cb",3,8},
{333,68,"-B 2b 2bc","B b e b","B 2/b 2/e 2/b","Bbeb","2a-cb",3,8},
{334,69,"-F 2 2","F m m m","F 2/m 2/m 2/m","Fmmm","",6,8},
{335,70,"F 2 2 -1d","F d d d","F 2/d 2/d 2/d","Fddd","1",6,8},
{336,70,"-F 2uv 2vw","F d d d","F 2/d 2/d 2/d","Fddd","2",6,8},
{337,71,"-I 2 2","I m m m","I 2/m 2/m 2/m","Immm","",5,8},
{338,72,"-I 2 2c","I b a m","I 2/b 2/a 2/m","Ibam","",5,8},
{339,72,"-I 2a 2","I m c b","I 2/m 2/c 2/b","Imcb","cab",5,8},
{340,72,"-I 2b 2b","I c m a","I 2/c 2/m 2/a","Icma","bca",5,8},
{341,73,"-I 2b 2c","I b c a","I 2/b 2/c 2/a","Ibca","",5,8},
{342,73,"-I 2a 2b","I c a b","I 2/c 2/a 2/b","Icab","ba-c",5,8},
{343,74,"-I 2b 2","I m m a","I 2/m 2/m 2/a","Imma","",5,8},
{344,74,"-I 2a 2a","I m m b","I 2/m 2/m 2/b","Immb","ba-c",5,8},
{345,74,"-I 2c 2c","I b m m","I 2/b 2/m 2/m","Ibmm","cab",5,8},
{346,74,"-I 2 2b","I c m m","I 2/c 2/m 2/m","Icmm","-cba",5,8},
{347,74,"-I 2 2a","I m c m","I 2/m 2/c 2/m","Imcm","bca",5,8},
{348,74,"-I 2c 2","I m a m","I 2/m 2/a 2/m","Imam","a-cb",5,8},
{349,75,"P 4","P 4","P 4","P4","",1,9},
{350,76,"P 4w","P 4_1","P 4_1","P4_1","",1,9},
{351,77,"P 4c","P 4_2","P 4_2","P4_2","",1,9},
{352,78,"P 4cw","P 4_3","P 4_3","P4_3","",1,9},
{353,79,"I 4","I 4","I 4","I4","",5,9},
{354,80,"I 4bw","I 4_1","I 4_1","I4_1","",5,9},
{355,81,"P -4","P -4","P -4","P-4","",1,10},
{356,82,"I -4","I -4","I -4","I-4","",5,10},
{357,83,"-P 4","P 4/m","P 4/m","P4/m","",1,11},
{358,84,"-P 4c","P 4_2/m","P 4_2/m","P4_2/m","",1,11},
{359,85,"P 4ab -1ab","P 4/n","P 4/n","P4/n","1",1,11},
{360,85,"-P 4a","P 4/n","P 4/n","P4/n","2",1,11},
{361,86,"P 4n -1n","P 4_2/n","P 4_2/n","P4_2/n","1",1,11},
{362,86,"-P 4bc","P 4_2/n","P 4_2/n","P4_2/n","2",1,11},
{363,87,"-I 4","I 4/m","I 4/m","I4/m","",5,11},
{364,88,"I 4bw -1bw","I 4_1/a","I 4_1/a","I4_1/a","1",5,11},
{365,88,"-I 4ad","I 4_1/a","I 4_1/a","I4_1/a","2",5,11},
{366,89,"P 4 2","P 4 2 2","P 4 2 2","P422","",1,12},
{367,90,"P 4ab 2ab","P 4 2_1 2","P 4 2_1 2","P42_12","",1,12},
{368,91,"P 4w 2c","P 4_1 2 2","P 4_1 2 2","P4_122","",1,12},
{369,92,"P 4abw 2nw","P 4_1 2_1 2","P 4_1 2_1 2","P4_12_12","",1,12},
{370,93,"P 4c 2","P 4_2 2 2","P 4_2 2 2","P4_222","",1,12},
{371,94,"P 4n 2n","P 4_2 2_1 2","P 4_2 2_1 2","P4_22_12","",1,12},
{372,95,"P 4cw 2c","P 4_3 2 2","P 4_3 2 2","P4_322","",1,12},
{373,96,"P 4nw 2abw","P 4_3 2_1 2","P 4_3 2_1 2","P4_32_12","",1,12},
{374,97,"I 4 2","I 4 2 2","I 4 2 2","I422","",5,12},
{375,98,"I 4bw 2bw","I 4_1 2 2","I 4_1 2 2","I4_122","",5,12},
{376,99,"P 4 -2","P 4 m m","P 4 m m","P4mm","",1,13},
{377,100,"P 4 -2ab","P 4 b m","P 4 b m","P4bm","",1,13},
{378,101,"P 4c -2c","P 4_2 c m","P 4_2 c m","P4_2cm","",1,13},
{379,102,"P 4n -2n","P 4_2 n m","P 4_2 n m","P4_2nm","",1,13},
{380,103,"P 4 -2c","P 4 c c","P 4 c c","P4cc","",1,13},
{381,104,"P 4 -2n","P 4 n c","P 4 n c","P4nc","",1,13},
{382,105,"P 4c -2","P 4_2 m c","P 4_2 m c","P4_2mc","",1,13},
{383,106,"P 4c -2ab","P 4_2 b c","P 4_2 b c","P4_2bc","",1,13},
{384,107,"I 4 -2","I 4 m m","I 4 m m","I4mm","",5,13},
{385,108,"I 4 -2c","I 4 c m","I 4 c m","I4cm","",5,13},
{386,109,"I 4bw -2","I 4_1 m d","I 4_1 m d","I4_1md","",5,13},
{387,110,"I 4bw -2c","I 4_1 c d","I 4_1 c d","I4_1cd","",5,13},
{388,111,"P -4 2","P -4 2 m","P -4 2 m","P-42m","",1,14},
{389,112,"P -4 2c","P -4 2 c","P -4 2 c","P-42c","",1,14},
{390,113,"P -4 2ab","P -4 2_1 m","P -4 2_1 m","P-42_1m","",1,14},
{391,114,"P -4 2n","P -4 2_1 c","P -4 2_1 c","P-42_1c","",1,14},
{392,115,"P -4 -2","P -4 m 2","P -4 m 2","P-4m2","",1,14},
{393,116,"P -4 -2c","P -4 c 2","P -4 c 2","P-4c2","",1,14},
{394,117,"P -4 -2ab","P -4 b 2","P -4 b 2","P-4b2","",1,14},
{395,118,"P -4 -2n","P -4 n 2","P -4 n 2","P-4n2","",1,14},
{396,119,"I -4 -2","I -4 m 2","I -4 m 2","I-4m2","",5,14},
{397,120,"I -4 -2c","I -4 c 2","I -4 c 2","I-4c2","",5,14},
{398,121,"I -4 2","I -4 2 m","I -4 2 m","I-42m","",5,14},
{399,122,"I -4 2bw","I -4 2 d","I -4 2 d","I-42d","",5,14},
{400,123,"-P 4 2","P 4/m m m","P 4/m 2/m 2/m","P4/mmm","",1,15},
{401,124,"-P 4 2c","P 4/m c c","P 4/m 2/c 2/c","P4/mcc","",1,15},
{402,125,"P 4 2 -1ab","P 4/n b m","P 4/n 2/b 2/m","P4/nbm","1",1,15},
{403,125,"-P 4a 2b","P 4/n b m","P 4/n 2/b 2/m","P4/nbm","2",1,15},
{404,126,"P 4 2 -1n","P 4/n n c","P 4/n 2/n 2/c","P4/nnc","1",1,15},
{405,126,"-P 4a 2bc","P 4/n n c","P 4/n 2/n 2/c","P4/nnc","2",1,15},
{406,127,"-P 4 2ab","P 4/m b m","P 4/m 2_1/b m","P4/mbm","",1,15},
{407,128,"-P 4 2n","P 4/m n c","P 4/m 2_1/n c","P4/mnc","",1,15},
{408,129,"P 4ab 2ab -1ab","P 4/n m m","P 4/n 2_1/m m","P4/nmm","1",1,15},
{409,129,"-P 4a 2a","P 4/n m m","P 4/n 2_1/m m","P4/nmm","2",1,15},
{410,130,"P 4ab 2n -1ab","P 4/n c c","P 4/n 2_1/c c","P4/ncc","1",1,15},
{411,130,"-P 4a 2ac","P 4/n c c","P 4/n 2_1/c c","P4/ncc","2",1,15},
{412,131,"-P 4c 2","P 4_2/m m c","P 4_2/m 2/m 2/c","P4_2/mmc","",1,15},
{413,132,"-P 4c 2c","P 4_2/m c m","P 4_2/m 2/c 2/m","P4_2/mcm","",1,15},
{414,133,"P 4n 2c -1n","P 4_2/n b c","P 4_2/n 2/b 2/c","P4_2/nbc","1",1,15},
{415,133,"-P 4ac 2b","P 4_2/n b c","P 4_2/n 2/b 2/c","P4_2/nbc","2",1,15},
{416,134,"P 4n 2 -1n","P 4_2/n n m","P 4_2/n 2/n 2/m","P4_2/nnm","1",1,15},
{417,134,"-P 4ac 2bc","P 4_2/n n m","P 4_2/n 2/n 2/m","P4_2/nnm","2",1,15},
{418,135,"-P 4c 2ab","P 4_2/m b c","P 4_2/m 2_1/b 2/c","P4_2/mbc","",1,15},
{419,136,"-P 4n 2n","P 4_2/m n m","P 4_2/m 2_1/n 2/m","P4_2/mnm","",1,15},
{420,137,"P 4n 2n -1n","P 4_2/n m c","P 4_2/n 2_1/m 2/c","P4_2/nmc","1",1,15},
{421,137,"-P 4ac 2a","P 4_2/n m c","P 4_2/n 2_1/m 2/c","P4_2/nmc","2",1,15},
{422,138,"P 4n 2ab -1n","P 4_2/n c m","P 4_2/n 2_1/c 2/m","P4_2/ncm","1",1,15},
{423,138,"-P 4ac 2ac","P 4_2/n c m","P 4_2/n 2_1/c 2/m","P4_2/ncm","2",1,15},
{424,139,"-I 4 2","I 4/m m m","I 4/m 2/m 2/m","I4/mmm","",5,15},
{425,140,"-I 4 2c","I 4/m c m","I 4/m 2/c 2/m","I4/mcm","",5,15},
{426,141,"I 4bw 2bw -1bw","I 4_1/a m d","I 4_1/a 2/m 2/d","I4_1/amd","1",5,15},
{427,141,"-I 4bd 2","I 4_1/a m d","I 4_1/a 2/m 2/d","I4_1/amd","2",5,15},
{428,142,"I 4bw 2aw -1bw","I 4_1/a c d","I 4_1/a 2/c 2/d","I4_1/acd","1",5,15},
{429,142,"-I 4bd 2c","I 4_1/a c d","I 4_1/a 2/c 2/d","I4_1/acd","2",5,15},
{430,143,"P 3","P 3","P 3","P3","",1,16},
{431,144,"P 31","P 3_1","P 3_1","P3_1","",1,16},
{432,145,"P 32","P 3_2","P 3_2","P3_2","",1,16},
{433,146,"R 3","R 3","R 3","R3","H",7,16},
{434,146,"P 3*","R 3","R 3","R3","R",1,16},
{435,147,"-P 3","P -3","P -3","P-3","",1,17},
{436,148,"-R 3","R -3","R -3","R-3","H",7,17},
{437,148,"-P 3*","R -3","R -3","R-3","R",1,17},
{438,149,"P 3 2","P 3 1 2","P 3 1 2","P312","",1,18},
{439,150,"P 3 2\"","P 3 2 1","P 3 2 1","P321","",1,18},
{440,151,"P 31 2c (0 0 1)","P 3_1 1 2","P 3_1 1 2","P3_112","",1,18},
{441,152,"P 31 2\"","P 3_1 2 1","P 3_1 2 1","P3_121","",1,18},
{442,153,"P 32 2c (0 0 -1)","P 3_2 1 2","P 3_2 1 2","P3_212","",1,18},
{443,154,"P 32 2\"","P 3_2 2 1","P 3_2 2 1","P3_221","",1,18},
{444,155,"R 3 2\"","R 3 2","R 3 2","R32","H",7,18},
{445,155,"P 3* 2","R 3 2","R 3 2","R32","R",1,18},
{446,156,"P 3 -2\"","P 3 m 1","P 3 m 1","P3m1","",1,19},
{447,157,"P 3 -2","P 3 1 m","P 3 1 m","P31m","",1,19},
{448,158,"P 3 -2\"c","P 3 c 1","P 3 c 1","P3c1","",1,19},
{449,159,"P 3 -2c","P 3 1 c","P 3 1 c","P31c","",1,19},
{450,160,"R 3 -2\"","R 3 m","R 3 m","R3m","H",7,19},
{451,160,"P 3* -2","R 3 m","R 3 m","R3m","R",1,19},
{452,161,"R 3 -2\"c","R 3 c","R 3 c","R3c","H",7,19},
{453,161,"P 3* -2n","R 3 c","R 3 c","R3c","R",1,19},
{454,162,"-P 3 2","P -3 1 m","P -3 1 2/m","P-31m","",1,20},
{455,163,"-P 3 2c","P -3 1 c","P -3 1 2/c","P-31c","",1,20},
{456,164,"-P 3 2\"","P -3 m 1","P -3 2/m 1","P-3m1","",1,20},
{457,165,"-P 3 2\"c","P -3 c 1","P -3 2/c 1","P-3c1","",1,20},
{458,166,"-R 3 2\"","R -3 m","R -3 2/m","R-3m","H",7,20},
{459,166,"-P 3* 2","R -3 m","R -3 2/m","R-3m","R",1,20},
{460,167,"-R 3 2\"c","R -3 c","R -3 2/c","R-3c","H",7,20},
{461,167,"-P 3* 2n","R -3 c","R -3 2/c","R-3c","R",1,20},
{462,168,"P 6","P 6","P 6","P6","",1,21},
{463,169,"P 61","P 6_1","P 6_1","P6_1","",1,21},
{464,170,"P 65","P 6_5","P 6_5","P6_5","",1,21},
{465,171,"P 62","P 6_2","P 6_2","P6_2","",1,21},
{466,172,"P 64","P 6_4","P 6_4","P6_4","",1,21},
{467,173,"P 6c","P 6_3","P 6_3","P6_3","",1,21},
{468,174,"P -6","P -6","P -6","P-6","",1,22},
{469,175,"-P 6","P 6/m","P 6/m","P6/m","",1,23},
{470,176,"-P 6c","P 6_3/m","P 6_3/m","P6_3/m","",1,23},
{471,177,"P 6 2","P 6 2 2","P 6 2 2","P622","",1,24},
{472,178,"P 61 2 (0 0 -1)","P 6_1 2 2","P 6_1 2 2","P6_122","",1,24},
{473,179,"P 65 2 (0 0 1)","P 6_5 2 2","P 6_5 2 2","P6_522","",1,24},
{474,180,"P 62 2c (0 0 1)","P 6_2 2 2","P 6_2 2 2","P6_222","",1,24},
{475,181,"P 64 2c (0 0 -1)","P 6_4 2 2","P 6_4 2 2","P6_422","",1,24},
{476,182,"P 6c 2c","P 6_3 2 2","P 6_3 2 2","P6_322","",1,24},
{477,183,"P 6 -2","P 6 m m","P 6 m m","P6mm","",1,25},
{478,184,"P 6 -2c","P 6 c c","P 6 c c","P6cc","",1,25},
{479,185,"P 6c -2","P 6_3 c m","P 6_3 c m","P6_3cm","",1,25},
{480,186,"P 6c -2c","P 6_3 m c","P 6_3 m c","P6_3mc","",1,25},
{481,187,"P -6 2","P -6 m 2","P -6 m 2","P-6m2","",1,26},
{482,188,"P -6c 2","P -6 c 2","P -6 c 2","P-6c2","",1,26},
{483,189,"P -6 -2","P -6 2 m","P -6 2 m","P-62m","",1,26},
{484,190,"P -6c -2c","P -6 2 c","P -6 2 c","P-62c","",1,26},
{485,191,"-P 6 2","P 6/m m m","P 6/m 2/m 2/m","P6/mmm","",1,27},
{486,192,"-P 6 2c","P 6/m c c","P 6/m 2/c 2/c","P6/mcc","",1,27},
{487,193,"-P 6c 2","P 6_3/m c m","P 6_3/m 2/c 2/m","P6_3/mcm","",1,27},
{488,194,"-P 6c 2c","P 6_3/m m c","P 6_3/m 2/m 2/c","P6_3/mmc","",1,27},
{489,195,"P 2 2 3","P 2 3","P 2 3","P23","",1,28},
{490,196,"F 2 2 3","F 2 3","F 2 3","F23","",6,28},
{491,197,"I 2 2 3","I 2 3","I 2 3","I23","",5,28},
{492,198,"P 2ac 2ab 3","P 2_1 3","P 2_1 3","P2_13","",1,28},
{493,199,"I 2b 2c 3","I 2_1 3","I 2_1 3","I2_13","",5,28},
{494,200,"-P 2 2 3","P m -3","P 2/m -3","Pm-3","",1,29},
{495,201,"P 2 2 3 -1n","P n -3","P 2/n -3","Pn-3","1",1,29},
{496,201,"-P 2ab 2bc 3","P n -3","P 2/n -3","Pn-3","2",1,29},
{497,202,"-F 2 2 3","F m -3","F 2/m -3","Fm-3","",6,29},
{498,203,"F 2 2 3 -1d","F d -3","F 2/d -3","Fd-3","1",6,29},
{499,203,"-F 2uv 2vw 3","F d -3","F 2/d -3","Fd-3","2",6,29},
{500,204,"-I 2 2 3","I m -3","I 2/m -3","Im-3","",5,29},
{501,205,"-P 2ac 2ab 3","P a -3","P 2_1/a -3","Pa-3","",1,29},
{502,206,"-I 2b 2c 3","I a -3","I 2_1/a -3","Ia-3","",5,29},
{503,207,"P 4 2 3","P 4 3 2","P 4 3 2","P432","",1,30},
{504,208,"P 4n 2 3","P 4_2 3 2","P 4_2 3 2","P4_232","",1,30},
{505,209,"F 4 2 3","F 4 3 2","F 4 3 2","F432","",6,30},
{506,210,"F 4d 2 3","F 4_1 3 2","F 4_1 3 2","F4_132","",6,30},
{507,211,"I 4 2 3","I 4 3 2","I 4 3 2","I432","",5,30},
{508,212,"P 4acd 2ab 3","P 4_3 3 2","P 4_3 3 2","P4_332","",1,30},
{509,213,"P 4bd 2ab 3","P 4_1 3 2","P 4_1 3 2","P4_132","",1,30},
{510,214,"I 4bd 2c 3","I 4_1 3 2","I 4_1 3 2","I4_132","",5,30},
{511,215,"P -4 2 3","P -4 3 m","P -4 3 m","P-43m","",1,31},
{512,216,"F -4 2 3","F -4 3 m","F -4 3 m","F-43m","",6,31},
{513,217,"I -4 2 3","I -4 3 m","I -4 3 m","I-43m","",5,31},
{514,218,"P -4n 2 3","P -4 3 n","P -4 3 n","P-43n","",1,31},
{515,219,"F -4c 2 3","F -4 3 c","F -4 3 c","F-43c","",6,31},
{516,220,"I -4bd 2c 3","I -4 3 d","I -4 3 d","I-43d","",5,31},
{517,221,"-P 4 2 3","P m -3 m","P 4/m -3 2/m","Pm-3m","",1,32},
{518,222,"P 4 2 3 -1n","P n -3 n","P 4/n -3 2/n","Pn-3n","1",1,32},
{519,222,"-P 4a 2bc 3","P n -3 n","P 4/n -3 2/n","Pn-3n","2",1,32},
{520,223,"-P 4n 2 3","P m -3 n","P 4_2/m -3 2/n","Pm-3n","",1,32},
{521,224,"P 4n 2 3 -1n","P n -3 m","P 4_2/n -3 2/m","Pn-3m","1",1,32},
{522,224,"-P 4bc 2bc 3","P n -3 m","P 4_2/n -3 2/m","Pn-3m","2",1,32},
{523,225,"-F 4 2 3","F m -3 m","F 4/m -3 2/m","Fm-3m","",6,32},
{524,226,"-F 4c 2 3","F m -3 c","F 4/m -3 2/c","Fm-3c","",6,32},
{525,227,"F 4d 2 3 -1d","F d -3 m","F 4_1/d -3 2/m","Fd-3m","1",6,32},
{526,227,"-F 4vw 2vw 3","F d -3 m","F 4_1/d -3 2/m","Fd-3m","2",6,32},
{527,228,"F 4d 2 3 -1cd","F d -3 c","F 4_1/d -3 2/c","Fd-3c","1",6,32},
{528,228,"-F 4cvw 2vw 3","F d -3 c","F 4_1/d -3 2/c","Fd-3c","2",6,32},
{529,229,"-I 4 2 3","I m -3 m","I 4/m -3 2/m","Im-3m","",5,32},
{530,230,"-I 4bd 2c 3","I a -3 d","I 4_1/a -3 2/d","Ia-3d","",5,32},
};
