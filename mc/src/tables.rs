// Frozen coefficient tables of IAPWS-IF97 and companion releases (see DESIGN.md, "Reference model").
#![allow(clippy::all)]
pub const B23_T2P_N23: &[f64] = &[0.34805185628969e3, -0.11671859879975e1, 0.10192970039326e-2];

pub const B23_P2T_N23: &[f64] = &[0.10192970039326e-2, 0.57254459862746e3, 0.13918839778870e2];

pub const H2P_SAT_REG3_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.600073641753024),
        (1, 1, -0.936203654849857e1),
        (1, 3, 0.246590798594147e2),
        (1, 4, -0.107014222858224e3),
        (1, 36, -0.915821315805768e14),
        (5, 3, -0.862332011700662e4),
        (7, 0, -0.235837344740032e2),
        (8, 24, 0.252304969384128e18),
        (14, 16, -0.389718771997719e19),
        (20, 16, -0.333775713645296e23),
        (22, 3, 0.356499469636328e11),
        (24, 18, -0.148547544720641e27),
        (28, 8, 0.330611514838798e19),
        (36, 24, 0.813641294467829e38),
    ];

pub const S2P_SAT_REG3_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.639767553612785),
        (1, 1, -0.129727445396014e2),
        (1, 32, -0.224595125848403e16),
        (4, 7, 0.177466741801846e7),
        (12, 4, 0.717079349571538e10),
        (12, 14, -0.378829107169011e18),
        (16, 36, -0.955586736431328e35),
        (24, 10, 0.187269814676188e24),
        (28, 0, 0.119254746466473e12),
        (32, 18, 0.110649277244882e37),
    ];

pub const HS_REGION_H1_S_IJN: &[(i32, i32, f64)] = &[
        (0, 14, 0.332171191705237E+0),
        (0, 36, 0.611217706323496E-3),
        (1, 3, -0.882092478906822E+1),
        (1, 16, -0.455628192543250E+0),
        (2, 0, -0.263483840850452E-4),
        (2, 5, -0.223949661148062E+2),
        (3, 4, -0.428398660164013E+1),
        (3, 36, -0.616679338856916E+0),
        (4, 4, -0.146823031104040E+2),
        (4, 16, 0.284523138727299E+3),
        (4, 24, -0.113398503195444E+3),
        (5, 18, 0.115671380760859E+4),
        (5, 24, 0.395551267359325E+3),
        (7, 1, -0.154891257229285E+1),
        (8, 4, 0.194486637751291E+2),
        (12, 2, -0.357915139457043E+1),
        (12, 4, -0.335369414148819E+1),
        (14, 1, -0.664426796332460E+0),
        (14, 22, 0.323321885383934E+5),
        (16, 10, 0.331766744667084E+4),
        (20, 12, -0.223501257931087E+5),
        (20, 28, 0.573953875852936E+7),
        (22, 8, 0.173226193407919E+3),
        (24, 3, -0.363968822121321E-1),
        (28, 0, 0.834596332878346E-6),
        (32, 6, 0.503611916682674E+1),
        (32, 8, 0.655444787064505E+2),
    ];

pub const HS_REGION_H3A_S_IJN: &[(i32, i32, f64)] = &[
        (0, 1, 0.822673364673336E+0),
        (0, 4, 0.181977213534479E+0),
        (0, 10, -0.112000260313624E-1),
        (0, 16, -0.746778287048033E-3),
        (2, 1, -0.179046263257381E+0),
        (3, 36, 0.424220110836657E-1),
        (4, 3, -0.341355823438768E+0),
        (4, 16, -0.209881740853565E+1),
        (5, 20, -0.822477343323596E+1),
        (5, 36, -0.499684082076008E+1),
        (6, 4, 0.191413958471069E+0),
        (7, 2, 0.581062241093136E-1),
        (7, 28, -0.165505498701029E+4),
        (7, 32, 0.158870443421201E+4),
        (10, 14, -0.850623535172818E+2),
        (10, 32, -0.317714386511207E+5),
        (10, 36, -0.945890406632871E+5),
        (32, 0, -0.139273847088690E-5),
        (32, 6, 0.631052532240980E+0),
    ];

pub const HS_REGION_H2AB_S_IJN: &[(i32, i32, f64)] = &[
        (1, 8, -0.524581170928788E03),
        (1, 24, -0.926947218142218E07),
        (2, 4, -0.237385107491666E03),
        (2, 32, 0.210770155812776E11),
        (4, 1, -0.239494562010986E02),
        (4, 2, 0.221802480294197E03),
        (7, 7, -0.510472533393438E07),
        (8, 5, 0.124981396109147E07),
        (8, 12, 0.200008436996201E10),
        (10, 1, -0.815158509791035E03),
        (12, 0, -0.157612685637523E03),
        (12, 7, -0.114200422332791E11),
        (18, 10, 0.662364680776872E16),
        (20, 12, -0.227622818296144E19),
        (24, 32, -0.171048081348406E32),
        (28, 8, 0.660788766938091E16),
        (28, 12, 0.166320055886021E23),
        (28, 20, -0.218003784381501E30),
        (28, 22, -0.787276140295618E30),
        (28, 24, 0.151062329700346E32),
        (32, 2, 0.795732170300541E07),
        (32, 7, 0.131957647355347E16),
        (32, 12, -0.325097068299140E24),
        (32, 14, -0.418600611419248E26),
        (32, 24, 0.297478906557467E35),
        (36, 10, -0.953588761745473E20),
        (36, 12, 0.166957699620939E25),
        (36, 20, -0.175407764869978E33),
        (36, 22, 0.347581490626396E35),
        (36, 28, -0.710971318427851E39),
    ];

pub const HS_REGION_H2C3B_S_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.104351280732769E01),
        (0, 3, -0.227807912708513E01),
        (0, 4, 0.180535256723202E01),
        (1, 0, 0.420440834792042E00),
        (1, 12, -0.105721244834660E06),
        (5, 36, 0.436911607493884E25),
        (6, 12, -0.328032702839753E12),
        (7, 16, -0.678686760804270E16),
        (8, 2, 0.743957464645363E04),
        (8, 20, -0.356896445355761E20),
        (12, 32, 0.167590585186801E32),
        (16, 36, -0.355028625419105E38),
        (22, 2, 0.396611982166538E12),
        (22, 32, -0.414716268484468E41),
        (24, 7, 0.359080103867382E19),
        (36, 20, -0.116994334851995E41),
    ];

pub const HS_REGION_H13_S_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.913965547600543E+00),
        (1, -2, -0.430944856041991E-04),
        (1, 2, 0.603235694765419E+02),
        (3, -12, 0.117518273082168E-17),
        (5, -4, 0.220000904781292E+00),
        (6, -3, -0.690815545851641E+02),
    ];

pub const HS_REGION_T_HS_IJN: &[(i32, i32, f64)] = &[
        (-12, 10, 0.629096260829810E-03),
        (-10, 8, -0.823453502583165E-03),
        (-8, 3, 0.515446951519474E-07),
        (-4, 4, -0.117565945784945E+01),
        (-3, 3, 0.348519684726192E+01),
        (-2, -6, -0.507837382408313E-11),
        (-2, 2, -0.284637670005479E+01),
        (-2, 3, -0.236092263939673E+01),
        (-2, 4, 0.601492324973779E+01),
        (0, 0, 0.148039650824546E+01),
        (1, -3, 0.360075182221907E-03),
        (1, -2, -0.126700045009952E-01),
        (1, 10, -0.122184332521413E+07),
        (3, -2, 0.149276502463272E+00),
        (3, -1, 0.698733471798484E+00),
        (5, -5, -0.252207040114321E-01),
        (6, -6, 0.147151930985213E-01),
        (6, -3, -0.108618917681849E+01),
        (8, -8, -0.936875039816322E-03),
        (8, -2, 0.819877897570217E+02),
        (8, -1, -0.182041861521835E+03),
        (12, -12, 0.261907376402688E-05),
        (12, -1, -0.291626417025961E+05),
        (14, -12, 0.140660774926165E-04),
        (14, 1, 0.783237062349385E+07),
    ];

pub const VISCOSITY_NO: &[f64] = &[1.67752, 2.20462, 0.6366564, -0.241605];

pub const VISCOSITY_IJH: &[(i32, i32, f64)] = &[
        (0, 0, 5.20094e-1),
        (1, 0, 8.50895e-2),
        (2, 0, -1.08374),
        (3, 0, -2.89555e-1),
        (0, 1, 2.22531e-1),
        (1, 1, 9.99115e-1),
        (2, 1, 1.88797),
        (3, 1, 1.26613),
        (5, 1, 1.20573e-1),
        (0, 2, -2.81378e-1),
        (1, 2, -9.06851e-1),
        (2, 2, -7.72479e-1),
        (3, 2, -4.89837e-1),
        (4, 2, -2.57040e-1),
        (0, 3, 1.61913e-1),
        (1, 3, 2.57399e-1),
        (0, 4, -3.25372e-2),
        (3, 4, 6.98452e-2),
        (4, 5, 8.72102e-3),
        (3, 6, -4.35673e-3),
        (5, 6, -5.93264e-4),
    ];

pub const THCOND_NO: &[f64] = &[2.443221e-3, 1.323095e-2, 6.770357e-3, -3.454586e-3, 4.096266e-4];

pub const THCOND_NIJ: &[[f64; 6]] = &[
        [ 1.60397357, -0.646013523,  0.111443906,  0.102997357, -0.0504123634, 0.00609859258, ],
        [ 2.33771842,  -2.78843778,  1.53616167,  -0.463045512,  0.0832827019,  -0.00719201245,],
        [ 2.19650529,  -4.54580785,  3.55777244,  -1.40944978,   0.275418278,  -0.0205938816, ],
        [ -1.21051378,  1.60812989,  -0.621178141,  0.0716373224, 0.0,           0.0, ],
        [  -2.7203370,   4.57586331,  -3.18369245,  1.1168348,   -0.19268305,    0.012913842,],
    ];

pub const STATIC_DIELECTRIC_I: &[i32] = &[1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10];

pub const STATIC_DIELECTRIC_J: &[f64] = &[0.25, 1.0, 2.5, 1.5, 1.5, 2.5, 2.0, 2.0, 5.0, 0.5, 10.0];

pub const STATIC_DIELECTRIC_N: &[f64] = &[0.978224486826,    -0.957771379375,    0.237511794148,
                          0.714692244396,     -0.298217036956,    -0.108863472196,
                          0.949327488264e-1,  -0.980469816509e-2, 0.165167634970e-4,
                          0.937359795772e-4,  -0.12317921872e-9,   0.196096504426e-2,];

pub const PH2T_REG1_IJN: &[(i32, i32, f64)] = &[
        (0, 0, -238.72489924521),
        (0, 1, 404.21188637945),
        (0, 2, 113.49746881718),
        (0, 6, -5.8457616048039),
        (0, 22, -1.528548241314E-04),
        (0, 32, -1.0866707695377E-06),
        (1, 0, -13.391744872602),
        (1, 1, 43.211039183559),
        (1, 2, -54.010067170506),
        (1, 3, 30.535892203916),
        (1, 4, -6.5964749423638),
        (1, 10, 9.3965400878363E-03),
        (1, 32, 1.157364750534E-07),
        (2, 10, -2.5858641282073E-05),
        (2, 32, -4.0644363084799E-09),
        (3, 10, 6.6456186191635E-08),
        (3, 32, 8.0670734103027E-11),
        (4, 32, -9.3477771213947E-13),
        (5, 32, 5.8265442020601E-15),
        (6, 32, -1.5020185953503E-17),
    ];

pub const PS2T_REG1_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.17478268058307e3),
        (0, 1, 0.34806930892873e2),
        (0, 2, 0.65292584978455e1),
        (0, 3, 0.33039981775489),
        (0, 11, -0.19281382923196e-6),
        (0, 31, -0.24909197244573e-22),
        (1, 0, -0.26107636489332),
        (1, 1, 0.22592965981586),
        (1, 2, -0.64256463395226e-1),
        (1, 3, 0.78876289270526e-2),
        (1, 12, 0.35672110607366e-9),
        (1, 31, 0.17332496994895e-23),
        (2, 0, 0.56608900654837e-3),
        (2, 1, -0.32635483139717e-3),
        (2, 2, 0.44778286690632e-4),
        (2, 9, -0.51322156908507e-9),
        (2, 31, -0.42522657042207e-25),
        (3, 10, 0.26400441360689e-12),
        (3, 32, 0.78124600459723e-28),
        (4, 32, -0.30732199903668e-30),
    ];

pub const REGION1_GFE_IJN: &[(i32, i32, f64)] = &[
    (0, -2, 0.14632971213167E+00),
    (0, -1, -0.84548187169114E+00),
    (0, 0, -0.37563603672040E+01),
    (0, 1, 0.33855169168385E+01),
    (0, 2, -0.95791963387872E+00),
    (0, 3, 0.15772038513228E+00),
    (0, 4, -0.16616417199501E-01),
    (0, 5, 0.81214629983568E-03),
    (1, -9, 0.28319080123804E-03),
    (1, -7, -0.60706301565874E-03),
    (1, -1, -0.18990068218419E-01),
    (1, 0, -0.32529748770505E-01),
    (1, 1, -0.21841717175414E-01),
    (1, 3, -0.52838357969930E-04),
    (2, -3, -0.47184321073267E-03),
    (2, 0, -0.30001780793026E-03),
    (2, 1, 0.47661393906987E-04),
    (2, 3, -0.44141845330846E-05),
    (2, 17, -0.72694996297594E-15),
    (3, -4, -0.31679644845054E-04),
    (3, 0, -0.28270797985312E-05),
    (3, 6, -0.85205128120103E-09),
    (4, -5, -0.22425281908000E-05),
    (4, -2, -0.65171222895601E-06),
    (4, 10, -0.14341729937924E-12),
    (5, -8, -0.40516996860117E-06),
    (8, -11, -0.12734301741641E-08),
    (8, -6, -0.17424871230634E-09),
    (21, -29, -0.68762131295531E-18),
    (23, -31, 0.14478307828521E-19),
    (29, -38, 0.26335781662795E-22),
    (30, -39, -0.11947622640071E-22),
    (31, -40, 0.18228094581404E-23),
    (32, -41, -0.93537087292458E-25),
];

pub const HS2P_REG1_IJN: &[(i32, i32, f64)] = &[
        (0, 0, -0.691997014660582),
        (0, 1, -0.183612548787560e2),
        (0, 2, -0.928332409297335e1),
        (0, 4, 0.659639569909906e2),
        (0, 5, -0.162060388912024e2),
        (0, 6, 0.450620017338667e3),
        (0, 8, 0.854680678224170e3),
        (0, 14, 0.607523214001162e4),
        (1, 0, 0.326487682621856e2),
        (1, 1, -0.269408844582931e2),
        (1, 4, -0.319947848334300e3),
        (1, 6, -0.928354307043320e3),
        (2, 0, 0.303634537455249e2),
        (2, 1, -0.650540422444146e2),
        (2, 10, -0.430991316516130e4),
        (3, 4, -0.747512324096068e3),
        (4, 1, 0.730000345529245e3),
        (4, 4, 0.114284032569021e4),
        (5, 0, -0.436407041874559e3),
    ];

pub const PH2T_REG2A_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.10898952318288E+04),
        (0, 1, 0.84951654495535E+03),
        (0, 2, -0.10781748091826E+03),
        (0, 3, 0.33153654801263E+02),
        (0, 7, -0.74232016790248E+01),
        (0, 20, 0.11765048724356E+02),
        (1, 0, 0.18445749355790E+01),
        (1, 1, -0.41792700549624E+01),
        (1, 2, 0.62478196935812E+01),
        (1, 3, -0.17344563108114E+02),
        (1, 7, -0.20058176862096E+03),
        (1, 9, 0.27196065473796E+03),
        (1, 11, -0.45511318285818E+03),
        (1, 18, 0.30919688604755E+04),
        (1, 44, 0.25226640357872E+06),
        (2, 0, -0.61707422868339E-02),
        (2, 2, -0.31078046629583E+00),
        (2, 7, 0.11670873077107E+02),
        (2, 36, 0.12812798404046E+09),
        (2, 38, -0.98554909623276E+09),
        
        (2, 40, 0.28224546973002E+10),
        (2, 42, -0.35948971410703E+10),
        (2, 44, 0.17227349913197E+10),
        (3, 24, -0.13551334240775E+05),
        (3, 44, 0.12848734664650E+08),
        (4, 12, 0.13865724283226E+01),
        (4, 32, 0.23598832556514E+06),
        (4, 44, -0.13105236545054E+08),
        (5, 32, 0.73999835474766E+04),
        (5, 36, -0.55196697030060E+06),
        (5, 42, 0.37154085996233E+07),
        (6, 34, 0.19127729239660E+05),
        (6, 44, -0.41535164835634E+06),
        (7, 28, -0.62459855192507E+02),
    ];

pub const PH2T_REG2B_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 1.4895041079516e3),
        (0, 1, 7.4307798314034e2),
        (0, 2, -9.7708318797837e1),
        (0, 12, 2.4742464705674),
        (0, 18, -6.3281320016026e-1),
        (0, 24, 1.1385952129658),
        (0, 28, -4.7811863648625e-1),
        (0, 40, 8.5208123431544e-3),
        (1, 0, 9.3747147377932e-1),
        (1, 2, 3.3593118604916),
        (1, 6, 3.3809355601454),
        (1, 12, 1.6844539671904e-1),
        (1, 18, 7.3875745236695e-1),
        (1, 24, -4.7128737436186e-1),
        (1, 28, 1.5020273139707e-1),
        (1, 40, -2.1764114219750e-3),
        (2, 2, -2.1810755324761e-2),
        (2, 8, -1.0829784403677e-1),
        (2, 18, -4.6333324635812e-2),
        (2, 40, 7.1280351959551e-5),
        (3, 1, 1.1032831789999e-4),
        (3, 2, 1.8955248387902e-4),
        (3, 12, 3.0891541160537e-3),
        (3, 24, 1.3555504554949e-3),
        (4, 2, 2.8640237477456e-7),
        (4, 12, -1.0779857357512e-5),
        (4, 18, -7.6462712454814e-5),
        (4, 24, 1.4052392818316e-5),
        (4, 28, -3.1083814331434e-5),
        (4, 40, -1.0302738212103e-6),
        (5, 18, 2.8217281635040e-7),
        (5, 24, 1.2704902271945e-6),
        (5, 40, 7.3803353468292e-8),
        (6, 28, -1.1030139238909e-8),
        (7, 2, -8.1456365207833e-14),
        (7, 28, -2.5180545682962e-11),
        (9, 1, -1.7565233969407e-18),
        (9, 40, 8.6934156344163e-15),
    ];

pub const PH2T_REG2C_IJN: &[(i32, i32, f64)] = &[
        (-7, 0, -3236839855524.2),
        (-7, 4, 7326335090218.1),
        (-6, 0, 358250899454.47),
        (-6, 2, -583401318515.9),
        (-5, 0, -10783068217.47),
        
        (-5, 2, 20825544563.171),
        (-2, 0, 610747.83564516),
        (-2, 1, 859777.2253558),
        (-1, 0, -25745.72360417),
        (-1, 2, 31081.088422714),
        (0, 0, 1208.2315865936),
        (0, 1, 482.19755109255),
        (1, 4, 3.7966001272486),
        (1, 8, -10.842984880077),
        (2, 4, -0.04536417267666),
        
        (6, 0, 1.4559115658698E-13),
        (6, 1, 1.126159740723E-12),
        (6, 4, -1.7804982240686E-11),
        (6, 10, 1.2324579690832E-07),
        (6, 12, -1.1606921130984E-06),
        (6, 16, 2.7846367088554E-05),
        (6, 20, -5.9270038474176E-04),
        (6, 22, 1.2918582991878E-03),
    ];

pub const ENTHALPY_2BC_N: &[f64] = &[0.12809002730136e-3, 0.26526571908428e4, 0.45257578905948e1];

pub const PS2T_REG2A_IJN: &[(f64, i32, f64)] = &[
        (-1.5, -24, -0.39235983861984E+06),
        (-1.5, -23, 0.51526573827270E+06),
        (-1.5, -19, 0.40482443161048E+05),
        (-1.5, -13, -0.32193790923902E+03),
        (-1.5, -11, 0.96961424218694E+02),
        
        (-1.5, -10, -0.22867846371773E+02),
        (-1.25, -19, -0.44942914124357E+06),
        (-1.25, -15, -0.50118336020166E+04),
        (-1.25, -6, 0.35684463560015E+00),
        (-1.0, -26, 0.44235335848190E+05),
        
        (-1.0, -21, -0.13673388811708E+05),
        (-1.0, -17, 0.42163260207864E+06),
        (-1.0, -16, 0.22516925837475E+05),
        (-1.0, -9, 0.47442144865646E+03),
        (-1.0, -8, -0.14931130797647E+03),
        
        (-0.75, -15, -0.19781126320452E+06),
        (-0.75, -14, -0.23554399470760E+05),
        (-0.5, -26, -0.19070616302076E+05),
        (-0.5, -13, 0.55375669883164E+05),
        (-0.5, -9, 0.38293691437363E+04),
        
        (-0.5, -7, -0.60391860580567E+03),
        (-0.25, -27, 0.19363102620331E+04),
        (-0.25, -25, 0.42660643698610E+04),
        (-0.25, -11, -0.59780638872718E+04),
        (-0.25, -6, -0.70401463926862E+03),
        
        (0.25, 1, 0.33836784107553E+03),
        (0.25, 4, 0.20862786635187E+02),
        (0.25, 8, 0.33834172656196E-01),
        (0.25, 11, -0.43124428414893E-04),
        (0.5, 0, 0.16653791356412E+03),
        
        (0.5, 1, -0.13986292055898E+03),
        (0.5, 5, -0.78849547999872E+00),
        (0.5, 6, 0.72132411753872E-01),
        (0.5, 10, -0.59754839398283E-02),
        (0.5, 14, -0.12141358953904E-04),
        
        (0.5, 16, 0.23227096733871E-06),
        (0.75, 0, -0.10538463566194E+02),
        (0.75, 4, 0.20718925496502E+01),
        (0.75, 9, -0.72193155260427E-01),
        (0.75, 17, 0.20749887081120E-06),
        
        (1.0, 7, -0.18340657911379E-01),
        (1.0, 18, 0.29036272348696E-06),
        (1.25, 3, 0.21037527893619E+00),
        (1.25, 15, 0.2568123972999E-03),
        (1.5, 5, -0.1279900293381E-01),
        
        (1.5, 18, -0.82198102652018E-05),
    ];

pub const PS2T_REG2B_IJN: &[(i32, i32, f64)] = &[
        (-6, 0, 0.31687665083497e6),
        (-6, 11, 0.20864175881858e2),
        (-5, 0, -0.39859399803599e6),
        (-5, 11, -0.21816058518877e2),
        (-4, 0, 0.22369785194242e6),
        (-4, 1, -0.27841703445817e4),
        (-4, 11, 0.99207436071480e1),
        (-3, 0, -0.75197512299157e5),
        (-3, 1, 0.29708605951158e4),
        (-3, 11, -0.34406878548526e1),
        (-3, 12, 0.38815564249115),
        (-2, 0, 0.17511295085750e5),
        (-2, 1, -0.14237112854449e4),
        (-2, 6, 0.10943803364167e1),
        (-2, 10, 0.89971619308495),
        (-1, 0, -0.33759740098958e4),
        (-1, 1, 0.47162885818355e3),
        (-1, 5, -0.19188241993679e1),
        (-1, 8, 0.41078580492196),
        (-1, 9, -0.33465378172097),
        (0, 0, 0.13870034777505e4),
        (0, 1, -0.40663326195838e3),
        (0, 2, 0.41727347159610e2),
        (0, 4, 0.21932549434532e1),
        (0, 5, -0.10320050009077e1),
        (0, 6, 0.35882943516703),
        (0, 9, 0.52511453726066e-2),
        (1, 0, 0.12838916450705e2),
        (1, 1, -0.28642437219381e1),
        (1, 2, 0.56912683664855),
        (1, 3, -0.99962954584931e-1),
        (1, 7, -0.32632037778459e-2),
        (1, 8, 0.23320922576723e-3),
        (2, 0, -0.15334809857450),
        (2, 1, 0.29072288239902e-1),
        (2, 5, 0.37534702741167e-3),
        (3, 0, 0.17296691702411e-2),
        (3, 1, -0.38556050844504e-3),
        (3, 3, -0.35017712292608e-4),
        (4, 0, -0.14566393631492e-4),
        (4, 1, 0.56420857267269e-5),
        (5, 0, 0.41286150074605e-7),
        (5, 1, -0.20684671118824e-7),
        (5, 2, 0.16409393674725e-8),
    ];

pub const PS2T_REG2C_IJN: &[(i32, i32, f64)] = &[
        (-2, 0, 0.90968501005365e3),
        (-2, 1, 0.24045667088420e4),
        (-1, 0, -0.59162326387130e3),
        (0, 0, 0.54145404128074e3),
        (0, 1, -0.27098308411192e3),
        (0, 2, 0.97976525097926e3),
        (0, 3, -0.46966772959435e3),
        (1, 0, 0.14399274604723e2),
        (1, 1, -0.19104204230429e2),
        (1, 3, 0.53299167111971e1),
        (1, 4, -0.21252975375934e2),
        (2, 0, -0.31147334413760),
        (2, 1, 0.60334840894623),
        (2, 2, -0.42764839702509e-1),
        (3, 0, 0.58185597255259e-2),
        (3, 1, -0.14597008284753e-1),
        (3, 5, 0.56631175631027e-2),
        (4, 0, -0.76155864584577e-4),
        (4, 1, 0.22440342919332e-3),
        (4, 4, -0.12561095013413e-4),
        (5, 0, 0.63323132660934e-6),
        (5, 1, -0.20541989675375e-5),
        (5, 2, 0.36405370390082e-7),
        (6, 0, -0.29759897789215e-8),
        (6, 1, 0.10136618529763e-7),
        (7, 0, 0.59925719692351e-11),
        (7, 1, -0.20677870105164e-10),
        (7, 3, -0.20874278181886e-10),
        (7, 4, 0.10162166825089e-9),
        (7, 5, -0.16429828281347e-9),
    ];

pub const REGION2_GFE_J0: &[i32] = &[0, 1, -5, -4, -3, -2, -1, 2, 3];

pub const REGION2_GFE_N0: &[f64] = &[
    -0.96927686500217E+01,
    0.10086655968018E+02,
    -0.5608791128302E-02,
    0.71452738081455E-01,
    -0.40710498223928,
    0.14240819171444E+01,
    -0.43839511319450E+01,
    -0.28408632460772,
    0.21268463753307E-01,
];

pub const REGION2_GFE_IJN: &[(i32, i32, f64)] = &[
    (1, 0, -0.17731742473213E-02),
    (1, 1, -0.17834862292358E-01),
    (1, 2, -0.45996013696365E-01),
    (1, 3, -0.57581259083432E-01),
    (1, 6, -0.5032527872793E-01),
    (2, 1, -0.33032641670203E-04),
    (2, 2, -0.18948987516315E-03),
    (2, 4, -0.39392777243355E-02),
    (2, 7, -0.43797295650573E-01),
    (2, 36, -2.6674547914087E-05),
    (3, 0, 0.20481737692309E-07),
    (3, 1, 0.43870667284435E-06),
    (3, 3, -0.3227767723857E-04),
    (3, 6, -0.15033924542148E-02),
    (3, 35, -0.040668253562649),
    (4, 1, -7.8847309559367E-10),
    (4, 2, 1.2790717852285E-08),
    (4, 3, 4.8225372718507E-07),
    (5, 7, 2.2922076337661E-06),
    (6, 3, -1.6714766451061E-11),
    (6, 16, -2.1171472321355E-03),
    (6, 35, -23.895741934104),
    (7, 0, -5.905956432427E-18),
    (7, 11, -1.2621808899101E-06),
    (7, 25, -0.038946842435739),
    (8, 8, 1.1256211360459E-11),
    (8, 36, -8.2311340897998),
    (9, 13, 1.9809712802088E-08),
    (10, 4, 1.0406965210174E-19),
    (10, 10, -1.0234747095929E-13),
    (10, 14, -1.0018179379511E-09),
    (16, 29, -8.0882908646985E-11),
    (16, 50, 0.10693031879409),
    (18, 57, -0.33662250574171),
    (20, 20, 8.9185845355421E-25),
    (20, 35, 3.0629316876232E-13),
    (20, 48, -4.2002467698208E-06),
    (21, 21, -5.9056029685639E-26),
    (22, 53, 3.7826947613457E-06),
    (23, 39, -1.2768608934681E-15),
    
    (24, 26, 7.3087610595061E-29),
    (24, 40, 5.5414715350778E-17),
    (24, 58, -9.436970724121E-07),
];

pub const HS2P_REG2A_IJN: &[(i32, i32, f64)] = &[
        (0, 1, -0.182575361923032E-01),
        (0, 3, -0.125229548799536),
        (0, 6, 0.592290437320145),
        (0, 16, 0.604769706185122E+01),
        (0, 20, 0.238624965444474E+03),
        
        (0, 22, -0.298639090222922E+03),
        (1, 0, 0.512250813040750E-01),
        (1, 1, -0.437266515606486),
        (1, 2, 0.413336902999504),
        (1, 3, -0.516468254574773E+01),
        
        (1, 5, -0.557014838445711E+01),
        (1, 6, 0.128555037824478E+02),
        (1, 10, 0.114144108953290E+02),
        (1, 16, -0.119504225652714E+03),
        (1, 20, -0.284777985961560E+04),
        
        (1, 22, 0.431757846408006E+04),
        (2, 3, 0.112894040802650E+01),
        (2, 16, 0.197409186206319E+04),
        (2, 20, 0.151612444706087E+04),
        (3, 0, 0.141324451421235E-01),
        
        (3, 2, 0.585501282219601),
        (3, 3, -0.297258075863012E+01),
        (3, 6, 0.594567314847319E+01),
        (3, 16, -0.623656565798905E+04),
        (4, 16, 0.965986235133332E+04),
        
        (5, 3, 0.681500934948134E+01),
        (5, 16, -0.633207286824489E+04),
        (6, 3, -0.558919224465760E+01),
        (7, 1, 0.400645798472063E-01),
    ];

pub const HS2P_REG2B_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.801496989929495E-01),
        (0, 1, -0.543862807146111),
        (0, 2, 0.337455597421283),
        (0, 4, 0.890555451157450E+01),
        (0, 8, 0.313840736431485E+03),
        
        (1, 0, 0.797367065977789),
        (1, 1, -0.121616973556240E+01),
        (1, 2, 0.872803386937477E+01),
        (1, 3, -0.169769781757602E+02),
        (1, 5, -0.186552827328416E+03),
        
        (1, 12, 0.951159274344237E+05),
        (2, 1, -0.189168510120494E+02),
        (2, 6, -0.433407037194840E+04),
        (2, 18, 0.543212633012715E+09),
        (3, 0, 0.144793408386013),
        
        (3, 1, 0.128024559637516E+03),
        (3, 7, -0.672309534071268E+05),
        (3, 12, 0.336972380095287E+08),
        (4, 1, -0.586634196762720E+03),
        (4, 16, -0.221403224769889E+11),
        
        (5, 1, 0.171606668708389E+04),
        (5, 12, -0.570817595806302E+09),
        (6, 1, -0.312109693178482E+04),
        (6, 8, -0.207841384633010E+07),
        (6, 18, 0.305605946157786E+13),
        
        (7, 1, 0.322157004314333E+04),
        (7, 16, 0.326810259797295E+12),
        (8, 1, -0.144104158934487E+04),
        (8, 3, 0.410694867802691E+03),
        (8, 14, 0.109077066873024E+12),
        
        (8, 18, -0.247964654258893E+14),
        (12, 10, 0.188801906865134E+10),
        (14, 16, -0.123651009018773E+15),
    ];

pub const HS2P_REG2C_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.112225607199012E+00),
        (0, 1, -0.339005953606712E+01),
        (0, 2, -0.320503911730094E+02),
        (0, 3, -0.197597305104900E+03),
        (0, 4, -0.407693861553446E+03),
        
        (0, 8, 0.132943775222331E+05),
        (1, 0, 0.170846839774007E+01),
        (1, 2, 0.373694198142245E+02),
        (1, 5, 0.358144365815434E+04),
        (1, 8, 0.423014446424664E+06),
        
        (1, 14, -0.751071025760063E+09),
        (2, 2, 0.523446127607898E+02),
        (2, 3, -0.228351290812417E+03),
        (2, 7, -0.960652417056937E+06),
        (2, 10, -0.807059292526074E+08),
        
        (2, 18, 0.162698017225669E+13),
        (3, 0, 0.772465073604171),
        (3, 5, 0.463929973837746E+05),
        (3, 8, -0.137317885134128E+08),
        (3, 16, 0.170470392630512E+13),
        
        (3, 18, -0.251104628187308E+14),
        (4, 18, 0.317748830835520E+14),
        (5, 1, 0.538685623675312E+02),
        (5, 4, -0.553089094625169E+05),
        (5, 6, -0.102861522421405E+07),
        
        (5, 14, 0.204249418756234E+13),
        (6, 8, 0.273918446626977E+09),
        (6, 18, -0.263963146312685E+16),
        (10, 7, -0.107890854108088E+10),
        (12, 7, -0.296492620980124E+11),
        
        (16, 10, -0.111754907323424E+16),
    ];

pub const S2H_REG2_AB_N: &[f64] = &[-0.349898083432139E+04, 0.257560716905876E+04, -0.421073558227969E+03, 0.276349063799944E+02];

pub const P2H_3AB_N: &[f64] = &[0.201464004206875E+04, 0.374696550136983E+01, -0.219921901054187E-01, 0.875131686009950E-04];

pub const PH2T_3A_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 0, -1.33645667811215e-7),
        (-12, 1, 4.55912656802978e-6),
        (-12, 2, -1.46294640700979e-5),
        (-12, 6, 6.39341312970080e-3),
        (-12, 14, 3.72783927268847e2),
        (-12, 16, -7.18654377460447e3),
        (-12, 20, 5.73494752103400e5),
        (-12, 22, -2.67569329111439e6),
        (-10, 1, -3.34066283302614e-5),
        (-10, 5, -2.45479214069597e-2),
        (-10, 12, 4.78087847764996e1),
        (-8, 0, 7.64664131818904e-6),
        (-8, 2, 1.28350627676972e-3),
        (-8, 4, 1.71219081377331e-2),
        (-8, 10, -8.51007304583213),
        (-5, 2, -1.36513461629781e-2),
        (-3, 0, -3.84460997596657e-6),
        (-2, 1, 3.37423807911655e-3),
        (-2, 3, -5.51624873066791e-1),
        (-2, 4, 7.29202277107470e-1),
        (-1, 0, -9.92522757376041e-3),
        (-1, 2, -1.19308831407288e-1),
        (0, 0, 7.93929190615421e-1),
        (0, 1, 4.54270731799386e-1),
        (1, 1, 2.09998591259910e-1),
        (3, 0, -6.42109823904738e-3),
        (3, 1, -2.35155868604540e-2),
        (4, 0, 2.52233108341612e-3),
        (4, 3, -7.64885133368119e-3),
        (10, 4, 1.36176427574291e-2),
        (12, 5, -1.33027883575669e-2),
    ];

pub const PH2T_3B_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 0, 3.23254573644920e-5),
        (-12, 1, -1.27575556587181e-4),
        (-10, 0, -4.75851877356068e-4),
        (-10, 1, 1.56183014181602e-3),
        (-10, 5, 1.05724860113781e-1),
        (-10, 10, -8.58514221132534e1),
        (-10, 12, 7.24140095480911e2),
        (-8, 0, 2.96475810273257e-3),
        (-8, 1, -5.92721983365988e-3),
        (-8, 2, -1.26305422818666e-2),
        (-8, 4, -1.15716196364853e-1),
        (-8, 10, 8.49000969739595e1),
        (-6, 0, -1.08602260086615e-2),
        (-6, 1, 1.54304475328851e-2),
        (-6, 2, 7.50455441524466e-2),
        (-4, 0, 2.52520973612982e-2),
        (-4, 1, -6.02507901232996e-2),
        (-3, 5, -3.07622221350501),
        (-2, 0, -5.74011959864879e-2),
        (-2, 4, 5.03471360939849),
        (-1, 2, -9.25081888584834e-1),
        (-1, 4, 3.91733882917546),
        (-1, 6, -7.73146007130190e1),
        (-1, 10, 9.49308762098587e3),
        (-1, 14, -1.41043719679409e6),
        (-1, 16, 8.49166230819026e6),
        (0, 0, 8.61095729446704e-1),
        (0, 2, 3.23346442811720e-1),
        (1, 1, 8.73281936020439e-1),
        (3, 1, -4.36653048526683e-1),
        (5, 1, 2.86596714529479e-1),
        (6, 1, -1.31778331276228e-1),
        (8, 1, 6.76682064330275e-3),
    ];

pub const PH2V_3A_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 6, 5.29944062966028e-3),
        (-12, 8, -1.70099690234461e-1),
        (-12, 12, 1.11323814312927e1),
        (-12, 18, -2.17898123145125e3),
        (-10, 4, -5.06061827980875e-4),
        (-10, 7, 5.56495239685324e-1),
        (-10, 10, -9.43672726094016),
        (-8, 5, -2.97856807561527e-1),
        (-8, 12, 9.39353943717186e1),
        (-6, 3, 1.92944939465981e-2),
        (-6, 4, 4.21740664704763e-1),
        (-6, 22, -3.68914126282330e6),
        (-4, 2, -7.37566847600639e-3),
        (-4, 3, -3.54753242424366e-1),
        (-3, 7, -1.99768169338727),
        (-2, 3, 1.15456297059049),
        (-2, 16, 5.68366875815960e3),
        (-1, 0, 8.08169540124668e-3),
        (-1, 1, 1.72416341519307e-1),
        (-1, 2, 1.04270175292927),
        (-1, 3, -2.97691372792847e-1),
        (0, 0, 5.60394465163593e-1),
        (0, 1, 2.75234661176914e-1),
        (1, 0, -1.48347894866012e-1),
        (1, 1, -6.51142513478515e-2),
        (1, 2, -2.92468715386302),
        (2, 0, 6.64876096952665e-2),
        (2, 2, 3.52335014263844),
        (3, 0, -1.46340792313332e-2),
        (4, 2, -2.24503486668184),
        (5, 2, 1.10533464706142),
        (8, 2, -4.08757344495612e-2),
    ];

pub const PH2V_3B_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 0, -2.25196934336318e-9),
        (-12, 1, 1.40674363313486e-8),
        (-8, 0, 2.33784085280560e-6),
        (-8, 1, -3.31833715229001e-5),
        (-8, 3, 1.07956778514318e-3),
        (-8, 6, -2.71382067378863e-1),
        (-8, 7, 1.07202262490333),
        (-8, 8, -8.53821329075382e-1),
        (-6, 0, -2.15214194340526e-5),
        (-6, 1, 7.69656088222730e-4),
        (-6, 2, -4.31136580433864e-3),
        (-6, 5, 4.53342167309331e-1),
        (-6, 6, -5.07749535873652e-1),
        (-6, 10, -1.00475154528389e2),
        (-4, 3, -2.19201924648793e-1),
        (-4, 6, -3.21087965668917),
        (-4, 10, 6.07567815637771e2),
        (-3, 0, 5.57686450685932e-4),
        (-3, 2, 1.87499040029550e-1),
        (-2, 1, 9.05368030448107e-3),
        (-2, 2, 2.85417173048685e-1),
        (-1, 0, 3.29924030996098e-2),
        (-1, 1, 2.39897419685483e-1),
        (-1, 4, 4.82754995951394),
        (-1, 5, -1.18035753702231e1),
        (0, 0, 1.69490044091791e-1),
        (1, 0, -1.79967222507787e-2),
        (1, 1, 3.71810116332674e-2),
        (2, 2, -5.36288335065096e-2),
        (2, 6, 1.60697101092520),
    ];

pub const PS2T_3A_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 28, 0.150042008263875E+10),
        (-12, 32, -0.159397258480424E+12),
        (-10, 4, 0.502181140217975E-03),
        (-10, 10, -0.672057767855466E+02),
        (-10, 12, 0.145058545404456E+04),
        (-10, 14, -0.823889534888890E+04),
        (-8, 5, -0.154852214233853E+00),
        (-8, 7, 0.112305046746695E+02),
        (-8, 8, -0.297000213482822E+02),
        (-8, 28, 0.438565132635495E+11),
        (-6, 2, 0.137837838635464E-02),
        (-6, 6, -0.297478527157462E+01),
        (-6, 32, 0.971777947349413E+13),
        (-5, 0, -0.571527767052398E-04),
        (-5, 14, 0.288307949778420E+05),
        (-5, 32, -0.744428289262703E+14),
        (-4, 6, 0.128017324848921E+02),
        (-4, 10, -0.368275545889071E+03),
        (-4, 36, 0.664768904779177E+16),
        (-2, 1, 0.449359251958880E-01),
        (-2, 4, -0.422897836099655E+01),
        (-1, 1, -0.240614376434179E+00),
        (-1, 6, -0.474341365254924E+01),
        (0, 0, 0.724093999126110E+00),
        (0, 1, 0.923874349695897E+00),
        (0, 4, 0.399043655281015E+01),
        (1, 0, 0.384066651868009E-01),
        (2, 0, -0.359344365571848E-02),
        (2, 3, -0.735196448821653E+00),
        (3, 2, 0.188367048396131E+00),
        (8, 0, 0.141064266818704E-03),
        (8, 1, -0.257418501496337E-02),
        (10, 2, 0.123220024851555E-02),
    ];

pub const PS2T_3B_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 1, 0.527111701601660E+00),
        (-12, 3, -0.401317830052742E+02),
        (-12, 4, 0.153020073134484E+03),
        (-12, 7, -0.224799398218827E+04),
        (-8, 0, -0.193993484669048E+00),
        (-8, 1, -0.140467557893768E+01),
        (-8, 3, 0.426799878114024E+02),
        (-6, 0, 0.752810643416743E+00),
        (-6, 2, 0.226657238616417E+02),
        (-6, 4, -0.622873556909932E+03),
        (-5, 0, -0.660823667935396E+00),
        (-5, 1, 0.841267087271658E+00),
        (-5, 2, -0.253717501764397E+02),
        (-5, 4, 0.485708963532948E+03),
        (-5, 6, 0.880531517490555E+03),
        (-4, 12, 0.265015592794626E+07),
        (-3, 1, -0.359287150025783E+00),
        (-3, 6, -0.656991567673753E+03),
        (-2, 2, 0.241768149185367E+01),
        (0, 0, 0.856873461222588E+00),
        (2, 1, 0.655143675313458E+00),
        (3, 1, -0.213535213206406E+00),
        (4, 0, 0.562974957606348E-02),
        (5, 24, -0.316955725450471E+15),
        (6, 0, -0.699997000152457E-03),
        (8, 3, 0.119845803210767E-01),
        (12, 1, 0.193848122022095E-04),
        (14, 2, -0.215095749182309E-04),
    ];

pub const PS2V_3A_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 10, 0.795544074093975E+02),
        (-12, 12, -0.238261242984590E+04),
        (-12, 14, 0.176813100617787E+05),
        (-10, 4, -0.110524727080379E-02),
        (-10, 8, -0.153213833655326E+02),
        (-10, 10, 0.297544599376982E+03),
        (-10, 20, -0.350315206871242E+08),
        (-8, 5, 0.277513761062119),
        (-8, 6, -0.523964271036888),
        (-8, 14, -0.148011182995403E+06),
        (-8, 16, 0.160014899374266E+07),
        (-6, 28, 0.170802322663427E+13),
        (-5, 1, 0.246866996006494E-03),
        (-4, 5, 0.165326084797980E+01),
        (-3, 2, -0.118008384666987),
        (-3, 4, 0.253798642355900E+01),
        (-2, 3, 0.965127704669424),
        (-2, 8, -0.282172420532826E+02),
        (-1, 1, 0.203224612353823),
        (-1, 2, 0.110648186063513E+01),
        (0, 0, 0.526127948451280),
        (0, 1, 0.277000018736321),
        (0, 3, 0.108153340501132E+01),
        (1, 0, -0.744127885357893E-01),
        (2, 0, 0.164094443541384E-01),
        (4, 2, -0.680468275301065E-01),
        (5, 2, 0.257988576101640E-01),
        (6, 0, -0.145749861944416E-03),
    ];

pub const PS2V_3B_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 0, 0.591599780322238E-04),
        (-12, 1, -0.185465997137856E-02),
        (-12, 2, 0.104190510480013E-01),
        (-12, 3, 0.598647302038590E-02),
        (-12, 5, -0.771391189901699),
        (-12, 6, 0.172549765557036E+01),
        (-10, 0, -0.467076079846526E-03),
        (-10, 1, 0.134533823384439E-01),
        (-10, 2, -0.808094336805495E-01),
        (-10, 4, 0.508139374365767),
        (-8, 0, 0.128584643361683E-02),
        (-5, 1, -0.163899353915435E+01),
        (-5, 2, 0.586938199318063E+01),
        (-5, 3, -0.292466667918613E+01),
        (-4, 0, -0.614076301499537E-02),
        (-4, 1, 0.576199014049172E+01),
        (-4, 2, -0.121613320606788E+02),
        (-4, 3, 0.167637540957944E+01),
        (-3, 1, -0.744135838773463E+01),
        (-2, 0, 0.378168091437659E-01),
        (-2, 1, 0.401432203027688E+01),
        (-2, 2, 0.160279837479185E+02),
        (-2, 3, 0.317848779347728E+01),
        (-2, 4, -0.358362310304853E+01),
        (-2, 12, -0.115995260446827E+07),
        (0, 0, 0.199256573577909),
        (0, 1, -0.122270624794624),
        (0, 2, -0.191449143716586E+02),
        (1, 0, -0.150448002905284E-01),
        (1, 2, 0.146407900162154E+02),
        (2, 2, -0.327477787188230E+01),
    ];

pub const REGION3_HFE_IJN: &[(i32, i32, f64)] = &[
    (0, 0, -0.15732845290239E+02),
    (0, 1, 0.20944396974307E+02),
    (0, 2, -0.76867707878716E+01),
    (0, 7, 0.26185947787954E+01),
    (0, 10, -0.28080781148620E+01),
    (0, 12, 0.12053369696517E+01),
    (0, 23, -0.84566812812502E-02),
    (1, 2, -0.12654315477714E+01),
    (1, 6, -0.11524407806681E+01),
    (1, 15, 0.88521043984318E+00),
    (1, 17, -0.64207765181607E+00),
    (2, 0, 0.38493460186671E+00),
    (2, 2, -0.85214708824206E+00),
    (2, 6, 0.48972281541877E+01),
    (2, 7, -0.30502617256965E+01),
    (2, 22, 0.39420536879154E-01),
    (2, 26, 0.12558408424308E+00),
    (3, 0, -0.27999329698710E+00),
    (3, 2, 0.13899799569460E+01),
    (3, 4, -0.20189915023570E+01),
    (3, 16, -0.82147637173963E-02),
    (3, 26, -0.47596035734923E+00),
    (4, 0, 0.43984074473500E-01),
    (4, 2, -0.44476435428739E+00),
    (4, 4, 0.90572070719733E+00),
    (4, 26, 0.70522450087967E+00),
    (5, 1, 0.10770512626332E+00),
    (5, 3, -0.32913623258954E+00),
    (5, 26, -0.50871062041158E+00),
    (6, 0, -0.22175400873096E-01),
    (6, 2, 0.94260751665092E-01),
    (6, 26, 0.16436278447961E+00),
    (7, 2, -0.13503372241348E-01),
    (8, 26, -0.14834345352472E-01),
    (9, 2, 0.57922953628084E-03),
    (9, 26, 0.32308904703711E-02),
    (10, 0, 0.80964802996215E-04),
    (10, 1, -0.16557679795037E-03),
    (11, 26, -0.44923899061815E-04),
];

pub const HS2P3A_REG3_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.770889828326934e1),
        (0, 1, -0.260835009128688e2),
        (0, 5, 0.267416218930389e3),
        (1, 0, 0.172221089496844e2),
        (1, 3, -0.293542332145970e3),
        (1, 4, 0.614135601882478e3),
        (1, 8, -0.610562757725674e5),
        (1, 14, -0.651272251118219e8),
        (2, 6, 0.735919313521937e5),
        (2, 16, -0.116646505914191e11),
        (3, 0, 0.355267086434461e2),
        (3, 2, -0.596144543825955e3),
        (3, 3, -0.475842430145708e3),
        (4, 0, 0.696781965359503e2),
        (4, 1, 0.335674250377312e3),
        (4, 4, 0.250526809130882e5),
        (4, 5, 0.146997380630766e6),
        (5, 28, 0.538069315091534e20),
        (6, 28, 0.143619827291346e22),
        (7, 24, 0.364985866165994e20),
        (8, 1, -0.254741561156775e4),
        (10, 32, 0.240120197096563e28),
        (10, 36, -0.393847464679496e30),
        (14, 22, 0.147073407024852e25),
        (18, 28, -0.426391250432059e32),
        (20, 36, 0.194509340621077e39),
        (22, 16, 0.666212132114896e24),
        (22, 28, 0.706777016552858e34),
        (24, 36, 0.175563621975576e42),
        (28, 16, 0.108408607429124e29),
        (28, 36, 0.730872705175151e44),
        (32, 10, 0.159145847398870e25),
        (32, 28, 0.377121605943324e41),
    ];

pub const HS2P3B_REG3_IJN: &[(i32, i32, f64)] = &[
        (-12, 2, 0.125244360717979e-12),
        (-12, 10, -0.126599322553713e-1),
        (-12, 12, 0.506878030140626e1),
        (-12, 14, 0.317847171154202e2),
        (-12, 20, -0.391041161399932e6),
        (-10, 2, -0.975733406392044e-10),
        (-10, 10, -0.186312419488279e2),
        (-10, 14, 0.510973543414101e3),
        (-10, 18, 0.373847005822362e6),
        (-8, 2, 0.299804024666572e-7),
        (-8, 8, 0.200544393820342e2),
        (-6, 2, -0.498030487662829e-5),
        (-6, 6, -0.102301806360030e2),
        (-6, 7, 0.552819126990325e2),
        (-6, 8, -0.206211367510878e3),
        (-5, 10, -0.794012232324823e4),
        (-4, 4, 0.782248472028153e1),
        (-4, 5, -0.586544326902468e2),
        (-4, 8, 0.355073647696481e4),
        (-3, 1, -0.115303107290162e-3),
        (-3, 3, -0.175092403171802e1),
        (-3, 5, 0.257981687748160e3),
        (-3, 6, -0.727048374179467e3),
        (-2, 0, 0.121644822609198e-3),
        (-2, 1, 0.393137871762692e-1),
        (-1, 0, 0.704181005909296e-2),
        (0, 3, -0.829108200698110e2),
        (2, 0, -0.265178818131250),
        (2, 1, 0.137531682453991e2),
        (5, 0, -0.522394090753046e2),
        (6, 1, 0.240556298941048e4),
        (8, 1, -0.227361631268929e5),
        (10, 1, 0.890746343932567e5),
        (14, 3, -0.239234565822486e8),
        (14, 7, 0.568795808129714e10),
    ];

pub const T_ATREGIONBOUNDARY_I3AB: &[i32] = &[0, 0, 1, 2, -1, -2];

pub const T_ATREGIONBOUNDARY_I3CD: &[i32] = &[0, 0, 1, 2, 3];

pub const T_ATREGIONBOUNDARY_I3GH: &[i32] = &[0, 0, 1, 2, 3, 4];

pub const T_ATREGIONBOUNDARY_I3IJ: &[i32] = &[0, 0, 1, 2, 3, 4];

pub const T_ATREGIONBOUNDARY_I3JK: &[i32] = &[0, 0, 1, 2, 3, 4];

pub const T_ATREGIONBOUNDARY_I3MN: &[i32] = &[0, 0, 1, 2, 3];

pub const T_ATREGIONBOUNDARY_I3OP: &[i32] = &[0, 0, 1, 2, -1, -2];

pub const T_ATREGIONBOUNDARY_I3QU: &[i32] = &[0, 0, 1, 2, 3];

pub const T_ATREGIONBOUNDARY_I3RX: &[i32] = &[0, 0, 1, 2, 3];

pub const T_ATREGIONBOUNDARY_I3UV: &[i32] = &[0, 0, 1, 2, 3];

pub const T_ATREGIONBOUNDARY_I3WX: &[i32] = &[0, 0, 1, 2, -1, -2];

pub const T_ATREGIONBOUNDARY_N3AB: &[f64] = &[
        0.0,
        0.154793642129415e4,
        -0.187661219490113e3,
        0.213144632222113e2,
        -0.191887498864292e4,
        0.918419702359447e3,
    ];

pub const T_ATREGIONBOUNDARY_N3CD: &[f64] = &[0.0, 0.585276966696349e3, 0.278233532206915e1, -0.127283549295878e-1, 0.159090746562729e-3];

pub const T_ATREGIONBOUNDARY_N3GH: &[f64] = &[
        0.0,
        -0.249284240900418e5,
        0.428143584791546e4,
        -0.269029173140130e3,
        0.751608051114157e1,
        -0.787105249910383e-1,
    ];

pub const T_ATREGIONBOUNDARY_N3IJ: &[f64] = &[
        0.0,
        0.584814781649163e3,
        -0.616179320924617,
        0.260763050899562,
        -0.587071076864459e-2,
        0.515308185433082e-4,
    ];

pub const T_ATREGIONBOUNDARY_N3JK: &[f64] = &[
        0.0,
        0.617229772068439e3,
        -0.770600270141675e1,
        0.697072596851896,
        -0.157391839848015e-1,
        0.137897492684194e-3,
    ];

pub const T_ATREGIONBOUNDARY_N3MN: &[f64] = &[0.0, 0.535339483742384e3, 0.761978122720128e1, -0.158365725441648, 0.192871054508108e-2];

pub const T_ATREGIONBOUNDARY_N3OP: &[f64] = &[
        0.0,
        0.969461372400213e3,
        -0.332500170441278e3,
        0.642859598466067e2,
        0.773845935768222e3,
        -0.152313732937084e4,
    ];

pub const T_ATREGIONBOUNDARY_N3QU: &[f64] = &[0.0, 0.565603648239126e3, 0.529062258221222e1, -0.102020639611016, 0.122240301070145e-2];

pub const T_ATREGIONBOUNDARY_N3RX: &[f64] = &[0.0, 0.584561202520006e3, -0.102961025163669e1, 0.243293362700452, -0.294905044740799e-2];

pub const T_ATREGIONBOUNDARY_N3UV: &[f64] = &[0.0, 0.528199646263062e3, 0.890579602135307e1, -0.222814134903755, 0.286791682263697e-2];

pub const T_ATREGIONBOUNDARY_N3WX: &[f64] = &[
        0.0,
        0.728052609145380e1,
        0.973505869861952e2,
        0.147370491183191e2,
        0.329196213998375e3,
        0.873371668682417e3,
    ];

pub const PT2V_3A_IJN: &[(i32, i32, f64)] = &[
        (-12, 5, 0.110879558823853e-2),
        (-12, 10, 0.572616740810616e3),
        (-12, 12, -0.767051948380852e5),
        (-10, 5, -0.253321069529674e-1),
        (-10, 10, 0.628008049345689e4),
        (-10, 12, 0.234105654131876e6),
        (-8, 5, 0.216867826045856),
        (-8, 8, -0.156237904341963e3),
        (-8, 10, -0.269893956176613e5),
        (-6, 1, -0.180407100085505e-3),
        (-5, 1, 0.116732227668261e-2),
        (-5, 5, 0.266987040856040e2),
        (-5, 10, 0.282776617243286e5),
        (-4, 8, -0.242431520029523e4),
        (-3, 0, 0.435217323022733e-3),
        (-3, 1, -0.122494831387441e-1),
        (-3, 3, 0.179357604019989e1),
        (-3, 6, 0.442729521058314e2),
        (-2, 0, -0.593223489018342e-2),
        (-2, 2, 0.453186261685774),
        (-2, 3, 0.135825703129140e1),
        (-1, 0, 0.408748415856745e-1),
        (-1, 1, 0.474686397863312),
        (-1, 2, 0.118646814997915e1),
        (0, 0, 0.546987265727549),
        (0, 1, 0.195266770452643),
        (1, 0, -0.502268790869663e-1),
        (1, 2, -0.369645308193377),
        (2, 0, 0.633828037528420e-2),
        (2, 2, 0.797441793901017e-1),
    ];

pub const PT2V_3B_IJN: &[(i32, i32, f64)] = &[
        (-12, 10, -0.827670470003621e-1),
        (-12, 12, 0.416887126010565e2),
        (-10, 8, 0.483651982197059e-1),
        (-10, 14, -0.291032084950276e5),
        (-8, 8, -0.111422582236948e3),
        (-6, 5, -0.202300083904014e-1),
        (-6, 6, 0.294002509338515e3),
        (-6, 8, 0.140244997609658e3),
        (-5, 5, -0.344384158811459e3),
        (-5, 8, 0.361182452612149e3),
        (-5, 10, -0.140699677420738e4),
        (-4, 2, -0.202023902676481e-2),
        (-4, 4, 0.171346792457471e3),
        (-4, 5, -0.425597804058632e1),
        (-3, 0, 0.691346085000334e-5),
        (-3, 1, 0.151140509678925e-2),
        (-3, 2, -0.416375290166236e-1),
        (-3, 3, -0.413754957011042e2),
        (-3, 5, -0.506673295721637e2),
        (-2, 0, -0.572212965569023e-3),
        (-2, 2, 0.608817368401785e1),
        (-2, 5, 0.239600660256161e2),
        (-1, 0, 0.122261479925384e-1),
        (-1, 2, 0.216356057692938e1),
        (0, 0, 0.398198903368642),
        (0, 1, -0.116892827834085),
        (1, 0, -0.102845919373532),
        (1, 2, -0.492676637589284),
        (2, 0, 0.655540456406790e-1),
        (3, 2, -0.240462535078530),
        (4, 0, -0.269798180310075e-1),
        (4, 1, 0.128369435967012),
    ];

pub const PT2V_3C_IJN: &[(i32, i32, f64)] = &[
        (-12, 6, 3.11967788763030),
        (-12, 8, 2.76713458847564e+04),
        (-12, 10, 3.22583103403269e+07),
        (-10, 6, -3.42416065095363e+02),
        (-10, 8, -8.99732529907377e+05),
        (-10, 10, -7.93892049821251e+07),
        (-8, 5, 9.53193003217388e+01),
        (-8, 6, 2.29784742345072e+03),
        (-8, 7, 1.75336675322499e+05),
        (-6, 8, 7.91214365222792e+06),
        (-5, 1, 3.19933345844209e-05),
        (-5, 4, -6.59508863555767e+01),
        (-5, 7, -8.33426563212851e+05),
        (-4, 2, 6.45734680583292e-02),
        (-4, 8, -3.82031020570813e+06),
        (-3, 0, 4.06398848470079e-05),
        (-3, 3, 3.10327498492008e+01),
        (-2, 0, -8.92996718483724e-04),
        (-2, 4, 2.34604891591616e+02),
        (-2, 5, 3.77515668966951e+03),
        (-1, 0, 1.58646812591361e-02),
        (-1, 1, 7.07906336241843e-01),
        (-1, 2, 1.26016225146570e+01),
        (0, 0, 7.36143655772152e-01),
        (0, 1, 6.76544268999101e-01),
        (0, 2, -1.78100588189137e+01),
        (1, 0, -1.56531975531713e-01),
        (1, 2, 1.17707430048158e+01),
        (2, 0, 8.40143653860447e-02),
        (2, 1, -1.86442467471949e-01),
        (2, 3, -4.40170203949645e+01),
        (2, 7, 1.23290423502494e+06),
        (3, 0, -2.40650039730845e-02),
        (3, 7, -1.07077716660869e+06),
        (8, 1, 4.38319858566475e-02),
    ];

pub const PT2V_3D_IJN: &[(i32, i32, f64)] = &[
        (-12, 4, -4.52484847171645e-10),
        (-12, 6, 3.15210389538801e-05),
        (-12, 7, -2.14991352047545e-03),
        (-12, 10, 5.08058874808345e+02),
        (-12, 12, -1.27123036845932e+07),
        (-12, 16, 1.15371133120497e+12),
        (-10, 0, -1.97805728776273e-16),
        (-10, 2, 2.41554806033972e-11),
        (-10, 4, -1.56481703640525e-06),
        (-10, 6, 2.77211346836625e-03),
        (-10, 8, -2.03578994462286e+01),
        (-10, 10, 1.44369489909053e+06),
        (-10, 14, -4.11254217946539e+10),
        (-8, 3, 6.23449786243773e-06),
        (-8, 7, -2.21774281146038e+01),
        (-8, 8, -6.89315087933158e+04),
        (-8, 10, -1.95419525060713e+07),
        (-6, 6, 3.16373510564015e+03),
        (-6, 8, 2.24040754426988e+06),
        (-5, 1, -4.36701347922356e-06),
        (-5, 2, -4.04213852833996e-04),
        (-5, 5, -3.48153203414663e+02),
        (-5, 7, -3.85294213555289e+05),
        (-4, 0, 1.35203700099403e-07),
        (-4, 1, 1.34648383271089e-04),
        (-4, 7, 1.25031835351736e+05),
        (-3, 2, 9.68123678455841e-02),
        (-3, 4, 2.25660517512438e+02),
        (-2, 0, -1.90102435341872e-04),
        (-2, 1, -2.99628410819229e-02),
        (-1, 0, 5.00833915372121e-03),
        (-1, 1, 3.87842482998411e-01),
        (-1, 5, -1.38535367777182e+03),
        (0, 0, 8.70745245971773e-01),
        (0, 2, 1.71946252068742),
        (1, 0, -3.26650121426383e-02),
        (1, 6, 4.98044171727877e+03),
        (3, 0, 5.51478022765087e-03),
    ];

pub const PT2V_3E_IJN: &[(i32, i32, f64)] = &[
        (-12, 14, 7.15815808404721e+08),
        (-12, 16, -1.14328360753449e+11),
        (-10, 3, 3.76531002015720e-12),
        (-10, 6, -9.03983668691157e-05),
        (-10, 10, 6.65695908836252e+05),
        (-10, 14, 5.35364174960127e+09),
        (-10, 16, 7.94977402335603e+10),
        (-8, 7, 9.22230563421437e+01),
        (-8, 8, -1.42586073991215e+05),
        (-8, 10, -1.11796381424162e+06),
        (-6, 6, 8.96121629640760e+03),
        (-5, 6, -6.69989239070491e+03),
        (-4, 2, 4.51242538486834e-03),
        (-4, 4, -3.39731325977713e+01),
        (-3, 2, -1.20523111552278),
        (-3, 6, 4.75992667717124e+04),
        (-3, 7, -2.66627750390341e+05),
        (-2, 0, -1.53314954386524e-04),
        (-2, 1, 3.05638404828265e-01),
        (-2, 3, 1.23654999499486e+02),
        (-2, 4, -1.04390794213011e+03),
        (-1, 0, -1.57496516174308e-02),
        (0, 0, 6.85331118940253e-01),
        (0, 1, 1.78373462873903),
        (1, 0, -5.44674124878910e-01),
        (1, 4, 2.04529931318843e+03),
        (1, 6, -2.28342359328752e+04),
        (2, 0, 4.13197481515899e-01),
        (2, 2, -3.41931835910405e+01),
    ];

pub const PT2V_3F_IJN: &[(i32, i32, f64)] = &[
        (0, -3, -2.51756547792325e-08),
        (0, -2, 6.01307193668763e-06),
        (0, -1, -1.00615977450049e-03),
        (0, 0, 9.99969140252192e-01),
        (0, 1, 2.14107759236486),
        (0, 2, -1.65175571959086e+01),
        (1, -1, -1.41987303638727e-03),
        (1, 1, 2.69251915156554),
        (1, 2, 3.49741815858722e+01),
        (1, 3, -3.00208695771783e+01),
        (2, 0, -1.31546288252539),
        (2, 1, -8.39091277286169),
        (3, -5, 1.81545608337015e-10),
        (3, -2, -5.91099206478909e-04),
        (3, 0, 1.52115067087106),
        (4, -3, 2.52956470663225e-05),
        (5, -8, 1.00726265203786e-15),
        (5, 1, -1.49774533860650),
        (6, -6, -7.93940970562969e-10),
        (7, -4, -1.50290891264717e-04),
        (7, 1, 1.51205531275133),
        (10, -6, 4.70942606221652e-06),
        (12, -10, 1.95049710391712e-13),
        (12, -8, -9.11627886266077e-09),
        (12, -4, 6.04374640201265e-04),
        (14, -12, -2.25132933900136e-16),
        (14, -10, 6.10916973582981e-12),
        (14, -8, -3.03063908043404e-07),
        (14, -6, -1.37796070798409e-05),
        (14, -4, -9.19296736666106e-04),
        (16, -10, 6.39288223132545e-10),
        (16, -8, 7.53259479898699e-07),
        (18, -12, -4.00321478682929e-13),
        (18, -10, 7.56140294351614e-09),
        (20, -12, -9.12082054034891e-12),
        (20, -10, -2.37612381140539e-08),
        (20, -6, 2.69586010591874e-05),
        (22, -12, -7.32828135157839e-11),
        (24, -12, 2.41995578306660e-10),
        (24, -4, -4.05735532730322e-04),
        (28, -12, 1.89424143498011e-10),
        (32, -12, -4.86632965074563e-10),
    ];

pub const PT2V_3G_IJN: &[(i32, i32, f64)] = &[
        (-12, 7, 4.12209020652996e-05),
        (-12, 12, -1.14987238280587e+06),
        (-12, 14, 9.48180885032080e+09),
        (-12, 18, -1.95788865718971e+17),
        (-12, 22, 4.96250704871300e+24),
        (-12, 24, -1.05549884548496e+28),
        (-10, 14, -7.58642165988278e+11),
        (-10, 20, -9.22172769596101e+22),
        (-10, 24, 7.25379072059348e+29),
        (-8, 7, -6.17718249205859e+01),
        (-8, 8, 1.07555033344858e+04),
        (-8, 10, -3.79545802336487e+07),
        (-8, 12, 2.28646846221831e+11),
        (-6, 8, -4.99741093010619e+06),
        (-6, 22, -2.80214310054101e+30),
        (-5, 7, 1.04915406769586e+06),
        (-5, 20, 6.13754229168619e+27),
        (-4, 22, 8.02056715528378e+31),
        (-3, 7, -2.98617819828065e+07),
        (-2, 3, -9.10782540134681e+01),
        (-2, 5, 1.35033227281565e+05),
        (-2, 14, -7.12949383408211e+18),
        (-2, 24, -1.04578785289542e+36),
        (-1, 2, 3.04331584444093e+01),
        (-1, 8, 5.93250797959445e+09),
        (-1, 18, -3.64174062110798e+27),
        (0, 0, 9.21791403532461e-01),
        (0, 1, -3.37693609657471e-01),
        (0, 2, -7.24644143758508e+01),
        (1, 0, -1.10480239272601e-01),
        (1, 1, 5.36516031875059),
        (1, 3, -2.91441872156205e+03),
        (3, 24, 6.16338176535305e+39),
        (5, 22, -1.20889175861180e+38),
        (6, 12, 8.18396024524612e+22),
        (8, 3, 9.40781944835829e+08),
        (10, 0, -3.67279669545448e+04),
        (10, 6, -8.37513931798655e+15),
    ];

pub const PT2V_3H_IJN: &[(i32, i32, f64)] = &[
        (-12, 8, 5.61379678887577e-02),
        (-12, 12, 7.74135421587083e+09),
        (-10, 4, 1.11482975877938e-09),
        (-10, 6, -1.43987128208183e-03),
        (-10, 8, 1.93696558764920e+03),
        (-10, 10, -6.05971823585005e+08),
        (-10, 14, 1.71951568124337e+13),
        (-10, 16, -1.85461154985145e+16),
        (-8, 0, 3.87851168078010e-17),
        (-8, 1, -3.95464327846105e-14),
        (-8, 6, -1.70875935679023e+02),
        (-8, 7, -2.12010620701220e+03),
        (-8, 8, 1.77683337348191e+07),
        (-6, 4, 1.10177443629575e+01),
        (-6, 6, -2.34396091693313e+05),
        (-6, 8, -6.56174421999594e+06),
        (-5, 2, 1.56362212977396e-05),
        (-5, 3, -2.12946257021400),
        (-5, 4, 1.35249306374858e+01),
        (-4, 2, 1.77189164145813e-01),
        (-4, 4, 1.39499167345464e+03),
        (-3, 1, -7.03670932036388e-03),
        (-3, 2, -1.52011044389648e-01),
        (-2, 0, 9.81916922991113e-05),
        (-1, 0, 1.47199658618076e-03),
        (-1, 2, 2.02618487025578e+01),
        (0, 0, 8.99345518944240e-01),
        (1, 0, -2.11346402240858e-01),
        (1, 2, 2.49971752957491e+01),
    ];

pub const PT2V_3I_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 1.06905684359136),
        (0, 1, -1.48620857922333),
        (0, 10, 2.59862256980408e+14),
        (1, -4, -4.46352055678749e-12),
        (1, -2, -5.66620757170032e-07),
        (1, -1, -2.35302885736849e-03),
        (1, 0, -2.69226321968839e-01),
        (2, 0, 9.22024992944392),
        (3, -5, 3.57633505503772e-12),
        (3, 0, -1.73942565562222e+01),
        (4, -3, 7.00681785556229e-06),
        (4, -2, -2.67050351075768e-04),
        (4, -1, -2.31779669675624),
        (5, -6, -7.53533046979752e-13),
        (5, -1, 4.81337131452891),
        (5, 12, -2.23286270422356e+21),
        (7, -4, -1.18746004987383e-05),
        (7, -3, 6.46412934136496e-03),
        (8, -6, -4.10588536330937e-10),
        (8, 10, 4.22739537057241e+19),
        (10, -8, 3.13698180473812e-13),
        (12, -12, 1.64395334345040e-24),
        (12, -6, -3.39823323754373e-06),
        (12, -4, -1.35268639905021e-02),
        (14, -10, -7.23252514211625e-15),
        (14, -8, 1.84386437538366e-09),
        (14, -4, -4.63959533752385e-02),
        (14, 5, -9.92263100376750e+13),
        (18, -12, 6.88169154439335e-17),
        (18, -10, -2.22620998452197e-11),
        (18, -8, -5.40843018624083e-08),
        (18, -6, 3.45570606200257e-03),
        (18, 2, 4.22275800304086e+10),
        (20, -12, -1.26974478770487e-15),
        (20, -10, 9.27237985153679e-10),
        (22, -12, 6.12670812016489e-14),
        (24, -12, -7.22693924063497e-12),
        (24, -8, -3.83669502636822e-04),
        (32, -10, 3.74684572410204e-04),
        (32, -5, -9.31976897511086e+04),
        (36, -10, -2.47690616026922e-02),
        (36, -8, 6.58110546759474e+01),
    ];

pub const PT2V_3J_IJN: &[(i32, i32, f64)] = &[
        (0, -1, -1.11371317395540e-04),
        (0, 0, 1.00342892423685),
        (0, 1, 5.30615581928979),
        (1, -2, 1.79058760078792e-06),
        (1, -1, -7.28541958464774e-04),
        (1, 1, -1.87576133371704e+01),
        (2, -1, 1.99060874071849e-03),
        (2, 1, 2.43574755377290e+01),
        (3, -2, -1.77040785499444e-04),
        (4, -2, -2.59680385227130e-03),
        (4, 2, -1.98704578406823e+02),
        (5, -3, 7.38627790224287e-05),
        (5, -2, -2.36264692844138e-03),
        (5, 0, -1.61023121314333),
        (6, 3, 6.22322971786473e+03),
        (10, -6, -9.60754116701669e-09),
        (12, -8, -5.10572269720488e-11),
        (12, -3, 7.67373781404211e-03),
        (14, -10, 6.63855469485254e-15),
        (14, -8, -7.17590735526745e-10),
        (14, -5, 1.46564542926508e-05),
        (16, -10, 3.09029474277013e-12),
        (18, -12, -4.64216300971708e-16),
        (20, -12, -3.90499637961161e-14),
        (20, -10, -2.36716126781431e-10),
        (24, -12, 4.54652854268717e-12),
        (24, -6, -4.22271787482497e-03),
        (28, -12, 2.83911742354706e-11),
        (28, -5, 2.70929002720228),
    ];

pub const PT2V_3K_IJN: &[(i32, i32, f64)] = &[
        (-2, 10, -4.01215699576099e+08),
        (-2, 12, 4.84501478318406e+10),
        (-1, -5, 3.94721471363678e-15),
        (-1, 6, 3.72629967374147e+04),
        (0, -12, -3.69794374168666e-30),
        (0, -6, -3.80436407012452e-15),
        (0, -2, 4.75361629970233e-07),
        (0, -1, -8.79148916140706e-04),
        (0, 0, 8.44317863844331e-01),
        (0, 1, 1.22433162656600e+01),
        (0, 2, -1.04529634830279e+02),
        (0, 3, 5.89702771277429e+02),
        (0, 14, -2.91026851164444e+13),
        (1, -3, 1.70343072841850e-06),
        (1, -2, -2.77617606975748e-04),
        (1, 0, -3.44709605486686),
        (1, 1, 2.21333862447095e+01),
        (1, 2, -1.94646110037079e+02),
        (2, -8, 8.08354639772825e-16),
        (2, -6, -1.80845209145470e-11),
        (2, -3, -6.96664158132412e-06),
        (2, -2, -1.81057560300994e-03),
        (2, 0, 2.55830298579027),
        (2, 4, 3.28913873658481e+03),
        (5, -12, -1.73270241249904e-19),
        (5, -6, -6.61876792558034e-07),
        (5, -3, -3.95688923421250e-03),
        (6, -12, 6.04203299819132e-18),
        (6, -10, -4.00879935920517e-14),
        (6, -8, 1.60751107464958e-09),
        (6, -5, 3.83719409025556e-05),
        (8, -12, -6.49565446702457e-15),
        (10, -12, -1.49095328506000e-12),
        (12, -10, 5.41449377329581e-09),
    ];

pub const PT2V_3L_IJN: &[(i32, i32, f64)] = &[
        (-12, 14, 2.60702058647537e+09),
        (-12, 16, -1.88277213604704e+14),
        (-12, 18, 5.54923870289667e+18),
        (-12, 20, -7.58966946387758e+22),
        (-12, 22, 4.13865186848908e+26),
        (-10, 14, -8.15038000738060e+11),
        (-10, 24, -3.81458260489955e+32),
        (-8, 6, -1.23239564600519e-02),
        (-8, 10, 2.26095631437174e+07),
        (-8, 12, -4.95017809506720e+11),
        (-8, 14, 5.29482996422863e+15),
        (-8, 18, -4.44359478746295e+22),
        (-8, 24, 5.21635864527315e+34),
        (-8, 36, -4.87095672740742e+54),
        (-6, 8, -7.14430209937547e+05),
        (-5, 4, 1.27868634615495e-01),
        (-5, 5, -1.00752127917598e+01),
        (-4, 7, 7.77451437960990e+06),
        (-4, 16, -1.08105480796471e+24),
        (-3, 1, -3.57578581169659e-06),
        (-3, 3, -2.12857169423484),
        (-3, 18, 2.70706111085238e+29),
        (-3, 20, -6.95953622348829e+32),
        (-2, 2, 1.10609027472280e-01),
        (-2, 3, 7.21559163361354e+01),
        (-2, 10, -3.06367307532219e+14),
        (-1, 0, 2.65839618885530e-05),
        (-1, 1, 2.53392392889754e-02),
        (-1, 3, -2.14443041836579e+02),
        (0, 0, 9.37846601489667e-01),
        (0, 1, 2.23184043101700),
        (0, 2, 3.38401222509191e+01),
        (0, 12, 4.94237237179718e+20),
        (1, 0, -1.98068404154428e-01),
        (1, 16, -1.41415349881140e+30),
        (2, 1, -9.93862421613651e+01),
        (4, 0, 1.25070534142731e+02),
        (5, 0, -9.96473529004439e+02),
        (5, 1, 4.73137909872765e+04),
        (6, 14, 1.16662121219322e+32),
        (10, 4, -3.15874976271533e+15),
        (10, 12, -4.45703369196945e+32),
        (14, 10, 6.42794932373694e+32),
    ];

pub const PT2V_3M_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 8.11384363481847e-01),
        (3, 0, -5.68199310990094e+03),
        (8, 0, -1.78657198172556e+10),
        (20, 2, 7.95537657613427e+31),
        (1, 5, -8.14568209346872e+04),
        (3, 5, -6.59774567602874e+07),
        (4, 5, -1.52861148659302e+10),
        (5, 5, -5.60165667510446e+11),
        (1, 6, 4.58384828593949e+05),
        (6, 6, -3.85754000383848e+13),
        (2, 7, 4.53735800004273e+07),
        (4, 8, 9.39454935735563e+11),
        (14, 8, 2.66572856432938e+27),
        (2, 10, -5.47578313899097e+09),
        (5, 10, 2.00725701112386e+14),
        (3, 12, 1.85007245563239e+12),
        (0, 14, 1.85135446828337e+08),
        (1, 14, -1.70451090076385e+11),
        (1, 18, 1.57890366037614e+14),
        (1, 20, -2.02530509748774e+15),
        (28, 20, 3.68193926183570e+59),
        (2, 22, 1.70215539458936e+17),
        (16, 22, 6.39234909918741e+41),
        (0, 24, -8.21698160721956e+14),
        (5, 24, -7.95260241872306e+23),
        (0, 28, 2.33415869478510e+17),
        (3, 28, -6.00079934586803e+22),
        (4, 28, 5.94584382273384e+24),
        (12, 28, 1.89461279349492e+39),
        (16, 28, -8.10093428842645e+45),
        (1, 32, 1.88813911076809e+21),
        (8, 32, 1.11052244098768e+35),
        (14, 32, 2.91133958602503e+45),
        (0, 36, -3.29421923951460e+21),
        (2, 36, -1.37570282536696e+25),
        (3, 36, 1.81508996303902e+27),
        (4, 36, -3.46865122768353e+29),
        (8, 36, -2.11961148774260e+37),
        (14, 36, -1.28617899887675e+48),
        (24, 36, 4.79817895699239e+64),
    ];

pub const PT2V_3N_IJN: &[(i32, i32, f64)] = &[
        (0, -12, 2.80967799943151e-39),
        (3, -12, 6.14869006573609e-31),
        (4, -12, 5.82238667048942e-28),
        (6, -12, 3.90628369238462e-23),
        (7, -12, 8.21445758255119e-21),
        (10, -12, 4.02137961842776e-15),
        (12, -12, 6.51718171878301e-13),
        (14, -12, -2.11773355803058e-08),
        (18, -12, 2.64953354380072e-03),
        (0, -10, -1.35031446451331e-32),
        (3, -10, -6.07246643970893e-24),
        (5, -10, -4.02352115234494e-19),
        (6, -10, -7.44938506925544e-17),
        (8, -10, 1.89917206526237e-13),
        (12, -10, 3.64975183508473e-06),
        (0, -8, 1.77274872361946e-26),
        (3, -8, -3.34952758812999e-19),
        (7, -8, -4.21537726098389e-09),
        (12, -8, -3.91048167929649e-02),
        (2, -6, 5.41276911564176e-14),
        (3, -6, 7.05412100773699e-12),
        (4, -6, 2.58585887897486e-09),
        (2, -5, -4.93111362030162e-11),
        (4, -5, -1.58649699894543e-06),
        (7, -5, -5.25037427886100e-01),
        (4, -4, 2.20019901729615e-03),
        (3, -3, -6.43064132636925e-03),
        (5, -3, 6.29154149015048e+01),
        (6, -3, 1.35147318617061e+02),
        (0, -2, 2.40560808321713e-07),
        (0, -1, -8.90763306701305e-04),
        (3, -1, -4.40209599407714e+03),
        (1, 0, -3.02807107747776e+02),
        (0, 1, 1.59158748314599e+03),
        (1, 1, 2.32534272709876e+05),
        (0, 2, -7.92681207132600e+05),
        (1, 4, -8.69871364662769e+10),
        (0, 5, 3.54542769185671e+11),
        (1, 6, 4.00849240129329e+14),
    ];

pub const PT2V_3O_IJN: &[(i32, i32, f64)] = &[
        (0, -12, 1.28746023979718e-35),
        (0, -4, -7.35234770382342e-12),
        (0, -1, 2.89078692149150e-03),
        (2, -1, 2.44482731907223e-01),
        (3, -10, 1.41733492030985e-24),
        (4, -12, -3.54533853059476e-29),
        (4, -8, -5.94539202901431e-18),
        (4, -5, -5.85188401782779e-09),
        (4, -4, 2.01377325411803e-06),
        (4, -1, 1.38647388209306),
        (5, -4, -1.73959365084772e-05),
        (5, -3, 1.37680878349369e-03),
        (6, -8, 8.14897605805513e-15),
        (7, -12, 4.25596631351839e-26),
        (8, -10, -3.87449113787755e-18),
        (8, -8, 1.39814747930240e-13),
        (8, -4, -1.71849638951521e-03),
        (10, -12, 6.41890529513296e-22),
        (10, -8, 1.18960578072018e-11),
        (14, -12, -1.55282762571611e-18),
        (14, -8, 2.33907907347507e-08),
        (20, -12, -1.74093247766213e-13),
        (20, -10, 3.77682649089149e-09),
        (24, -12, -5.16720236575302e-11),
    ];

pub const PT2V_3P_IJN: &[(i32, i32, f64)] = &[
        (0, -1, -9.82825342010366e-05),
        (0, 0, 1.05145700850612),
        (0, 1, 1.16033094095084e+02),
        (0, 2, 3.24664750281543e+03),
        (1, 1, -1.23592348610137e+03),
        (2, -1, -5.61403450013495e-02),
        (3, -3, 8.56677401640869e-08),
        (3, 0, 2.36313425393924e+02),
        (4, -2, 9.72503292350109e-03),
        (6, -2, -1.03001994531927),
        (7, -5, -1.49653706199162e-09),
        (7, -4, -2.15743778861592e-05),
        (8, -2, -8.34452198291445),
        (10, -3, 5.86602660564988e-01),
        (12, -12, 3.43480022104968e-26),
        (12, -6, 8.16256095947021e-06),
        (12, -5, 2.94985697916798e-03),
        (14, -10, 7.11730466276584e-17),
        (14, -8, 4.00954763806941e-10),
        (14, -3, 1.07766027032853e+01),
        (16, -8, -4.09449599138182e-07),
        (18, -8, -7.29121307758902e-06),
        (20, -10, 6.77107970938909e-09),
        (22, -10, 6.02745973022975e-08),
        (24, -12, -3.82323011855257e-11),
        (24, -8, 1.79946628317437e-03),
        (36, -12, -3.45042834640005e-04),
    ];

pub const PT2V_3Q_IJN: &[(i32, i32, f64)] = &[
        (-12, 10, -8.20433843259950e+04),
        (-12, 12, 4.73271518461586e+10),
        (-10, 6, -8.05950021005413e-02),
        (-10, 7, 3.28600025435980e+01),
        (-10, 8, -3.56617029982490e+03),
        (-10, 10, -1.72985781433335e+09),
        (-8, 8, 3.51769232729192e+07),
        (-6, 6, -7.75489259985144e+05),
        (-5, 2, 7.10346691966018e-05),
        (-5, 5, 9.93499883820274e+04),
        (-4, 3, -6.42094171904570e-01),
        (-4, 4, -6.12842816820083e+03),
        (-3, 3, 2.32808472983776e+02),
        (-2, 0, -1.42808220416837e-05),
        (-2, 1, -6.43596060678456e-03),
        (-2, 2, -4.28577227475614),
        (-2, 4, 2.25689939161918e+03),
        (-1, 0, 1.00355651721510e-03),
        (-1, 1, 3.33491455143516e-01),
        (-1, 2, 1.09697576888873),
        (0, 0, 9.61917379376452e-01),
        (1, 0, -8.38165632204598e-02),
        (1, 1, 2.47795908411492),
        (1, 3, -3.19114969006533e+03),
    ];

pub const PT2V_3R_IJN: &[(i32, i32, f64)] = &[
        (-8, 6, 1.44165955660863e-03),
        (-8, 14, -7.01438599628258e+12),
        (-3, -3, -8.30946716459219e-17),
        (-3, 3, 2.61975135368109e-01),
        (-3, 4, 3.93097214706245e+02),
        (-3, 5, -1.04334030654021e+04),
        (-3, 8, 4.90112654154211e+08),
        (0, -1, -1.47104222772069e-04),
        (0, 0, 1.03602748043408),
        (0, 1, 3.05308890065089),
        (0, 5, -3.99745276971264e+06),
        (3, -6, 5.69233719593750e-12),
        (3, -2, -4.64923504407778e-02),
        (8, -12, -5.35400396512906e-18),
        (8, -10, 3.99988795693162e-13),
        (8, -8, -5.36479560201811e-07),
        (8, -5, 1.59536722411202e-02),
        (10, -12, 2.70303248860217e-15),
        (10, -10, 2.44247453858506e-08),
        (10, -8, -9.83430636716454e-06),
        (10, -6, 6.63513144224454e-02),
        (10, -5, -9.93456957845006),
        (10, -4, 5.46491323528491e+02),
        (10, -3, -1.43365406393758e+04),
        (10, -2, 1.50764974125511e+05),
        (12, -12, -3.37209709340105e-10),
        (14, -12, 3.77501980025469e-09),
    ];

pub const PT2V_3S_IJN: &[(i32, i32, f64)] = &[
        (-12, 20, -5.32466612140254e+22),
        (-12, 24, 1.00415480000824e+31),
        (-10, 22, -1.91540001821367e+29),
        (-8, 14, 1.05618377808847e+16),
        (-6, 36, 2.02281884477061e+58),
        (-5, 8, 8.84585472596134e+07),
        (-5, 16, 1.66540181638363e+22),
        (-4, 6, -3.13563197669111e+05),
        (-4, 32, -1.85662327545324e+53),
        (-3, 3, -6.24942093918942e-02),
        (-3, 8, -5.04160724132590e+09),
        (-2, 4, 1.87514491833092e+04),
        (-1, 1, 1.21399979993217e-03),
        (-1, 2, 1.88317043049455),
        (-1, 3, -1.67073503962060e+03),
        (0, 0, 9.65961650599775e-01),
        (0, 1, 2.94885696802488),
        (0, 4, -6.53915627346115e+04),
        (0, 28, 6.04012200163444e+49),
        (1, 0, -1.98339358557937e-01),
        (1, 32, -1.75984090163501e+57),
        (3, 0, 3.56314881403987),
        (3, 1, -5.75991255144384e+02),
        (3, 2, 4.56213415338071e+04),
        (4, 3, -1.09174044987829e+07),
        (4, 18, 4.37796099975134e+33),
        (4, 24, -6.16552611135792e+45),
        (5, 4, 1.93568768917797e+09),
        (14, 24, 9.50898170425042e+53),
    ];

pub const PT2V_3T_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 1.55287249586268),
        (0, 1, 6.64235115009031),
        (0, 4, -2.89366236727210e+03),
        (0, 12, -3.85923202309848e+12),
        (1, 0, -2.91002915783761),
        (1, 10, -8.29088246858083e+11),
        (2, 0, 1.76814899675218),
        (2, 6, -5.34686695713469e+08),
        (2, 14, 1.60464608687834e+17),
        (3, 3, 1.96435366560186e+05),
        (3, 8, 1.56637427541729e+12),
        (4, 0, -1.78154560260006),
        (4, 10, -2.29746237623692e+15),
        (7, 3, 3.85659001648006e+07),
        (7, 4, 1.10554446790543e+09),
        (7, 7, -6.77073830687349e+13),
        (7, 20, -3.27910592086523e+30),
        (7, 36, -3.41552040860644e+50),
        (10, 10, -5.27251339709047e+20),
        (10, 12, 2.45375640937055e+23),
        (10, 14, -1.68776617209269e+26),
        (10, 16, 3.58958955867578e+28),
        (10, 22, -6.56475280339411e+35),
        (18, 18, 3.55286045512301e+38),
        (20, 32, 5.69021454413270e+57),
        (22, 22, -7.00584546433113e+47),
        (22, 36, -7.05772623326374e+64),
        (24, 24, 1.66861176200148e+52),
        (28, 28, -3.00475129680486e+60),
        (32, 22, -6.68481295196808e+50),
        (32, 32, 4.28432338620678e+68),
        (32, 36, -4.44227367758304e+71),
        (36, 36, -2.81396013562745e+76),
    ];

pub const PT2V_3U_IJN: &[(i32, i32, f64)] = &[
        (-12, 14, 1.22088349258355e+17),
        (-10, 10, 1.04216468608488e+09),
        (-10, 12, -8.82666931564652e+15),
        (-10, 14, 2.59929510849499e+19),
        (-8, 10, 2.22612779142211e+14),
        (-8, 12, -8.78473585050085e+17),
        (-8, 14, -3.14432577551552e+21),
        (-6, 8, -2.16934916996285e+12),
        (-6, 12, 1.59079648196849e+20),
        (-5, 4, -3.39567617303423e+02),
        (-5, 8, 8.84387651337836e+12),
        (-5, 12, -8.43405926846418e+20),
        (-3, 2, 1.14178193518022e+01),
        (-1, -1, -1.22708229235641e-04),
        (-1, 1, -1.06201671767107e+02),
        (-1, 12, 9.03443213959313e+24),
        (-1, 14, -6.93996270370852e+27),
        (0, -3, 6.48916718965575e-09),
        (0, 1, 7.18957567127851e+03),
        (1, -2, 1.05581745346187e-03),
        (2, 5, -6.51903203602581e+14),
        (2, 10, -1.60116813274676e+24),
        (3, -5, -5.10254294237837e-09),
        (5, -4, -1.52355388953402e-01),
        (5, 2, 6.77143292290144e+11),
        (5, 3, 2.76378438378930e+14),
        (6, -5, 1.16862983141686e-02),
        (6, 2, -3.01426947980171e+13),
        (8, -8, 1.69719813884840e-08),
        (8, 8, 1.04674840020929e+26),
        (10, -4, -1.08016904560140e+04),
        (12, -12, -9.90623601934295e-13),
        (12, -4, 5.36116483602738e+06),
        (12, 4, 2.26145963747881e+21),
        (14, -12, -4.88731565776210e-10),
        (14, -10, 1.51001548880670e-05),
        (14, -6, -2.27700464643920e+04),
        (14, 6, -7.81754507698846e+27),
    ];

pub const PT2V_3V_IJN: &[(i32, i32, f64)] = &[
        (-10, -8, -4.15652812061591e-55),
        (-8, -12, 1.77441742924043e-61),
        (-6, -12, -3.57078668203377e-55),
        (-6, -3, 3.59252213604114e-26),
        (-6, 5, -2.59123736380269e+01),
        (-6, 6, 5.94619766193460e+04),
        (-6, 8, -6.24184007103158e+10),
        (-6, 10, 3.13080299915944e+16),
        (-5, 1, 1.05006446192036e-09),
        (-5, 2, -1.92824336984852e-06),
        (-5, 6, 6.54144373749937e+05),
        (-5, 8, 5.13117462865044e+12),
        (-5, 10, -6.97595750347391e+18),
        (-5, 14, -1.03977184454767e+28),
        (-4, -12, 1.19563135540666e-48),
        (-4, -10, -4.36677034051655e-42),
        (-4, -6, 9.26990036530639e-30),
        (-4, 10, 5.87793105620748e+20),
        (-3, -3, 2.80375725094731e-18),
        (-3, 10, -1.92359972440634e+22),
        (-3, 12, 7.42705723302738e+26),
        (-2, 2, -5.17429682450605e+01),
        (-2, 4, 8.20612048645469e+06),
        (-1, -2, -1.88214882341448e-09),
        (-1, 0, 1.84587261114837e-02),
        (0, -2, -1.35830407782663e-06),
        (0, 6, -7.23681885626348e+16),
        (0, 10, -2.23449194054124e+26),
        (1, -12, -1.11526741826431e-35),
        (1, -10, 2.76032601145151e-29),
        (3, 3, 1.34856491567853e+14),
        (4, -6, 6.52440293345860e-10),
        (4, 3, 5.10655119774360e+16),
        (4, 10, -4.68138358908732e+31),
        (5, 2, -7.60667491183279e+15),
        (8, -12, -4.17247986986821e-19),
        (10, -2, 3.12545677756104e+13),
        (12, -3, -1.00375333864186e+14),
        (14, 1, 2.47761392329058e+26),
    ];

pub const PT2V_3W_IJN: &[(i32, i32, f64)] = &[
        (-12, 8, -5.86219133817016e-08),
        (-12, 14, -8.94460355005526e+10),
        (-10, -1, 5.31168037519774e-31),
        (-10, 8, 1.09892402329239e-01),
        (-8, 6, -5.75368389425212e-02),
        (-8, 8, 2.28276853990249e+04),
        (-8, 14, -1.58548609655002e+18),
        (-6, -4, 3.29865748576503e-28),
        (-6, -3, -6.34987981190669e-25),
        (-6, 2, 6.15762068640611e-09),
        (-6, 8, -9.61109240985747e+07),
        (-5, -10, -4.06274286652625e-45),
        (-4, -1, -4.71103725498077e-13),
        (-4, 3, 7.25937724828145e-01),
        (-3, -10, 1.87768525763682e-39),
        (-3, 3, -1.03308436323771e+03),
        (-2, 1, -6.62552816342168e-02),
        (-2, 2, 5.79514041765710e+02),
        (-1, -8, 2.37416732616644e-27),
        (-1, -4, 2.71700235739893e-15),
        (-1, 1, -9.07886213483600e+01),
        (0, -12, -1.71242509570207e-37),
        (0, 1, 1.56792067854621e+02),
        (1, -1, 9.23261357901470e-01),
        (2, -1, -5.97865988422577),
        (2, 2, 3.21988767636389e+06),
        (3, -12, -3.99441390042203e-30),
        (3, -5, 4.93429086046981e-08),
        (5, -10, 8.12036983370565e-20),
        (5, -8, -2.07610284654137e-12),
        (5, -6, -3.40821291419719e-07),
        (8, -12, 5.42000573372233e-18),
        (8, -10, -8.56711586510214e-13),
        (10, -12, 2.66170454405981e-14),
        (10, -8, 8.58133791857099e-06),
    ];

pub const PT2V_3X_IJN: &[(i32, i32, f64)] = &[
        (-8, 14, 3.77373741298151e+18),
        (-6, 10, -5.07100883722913e+12),
        (-5, 10, -1.03363225598860e+15),
        (-4, 1, 1.84790814320773e-06),
        (-4, 2, -9.24729378390945e-04),
        (-4, 14, -4.25999562292738e+23),
        (-3, -2, -4.62307771873973e-13),
        (-3, 12, 1.07319065855767e+21),
        (-1, 5, 6.48662492280682e+10),
        (0, 0, 2.44200600688281),
        (0, 4, -8.51535733484258e+09),
        (0, 10, 1.69894481433592e+21),
        (1, -10, 2.15780222509020e-27),
        (1, -1, -3.20850551367334e-01),
        (2, 6, -3.82642448458610e+16),
        (3, -12, -2.75386077674421e-29),
        (3, 0, -5.63199253391666e+05),
        (3, 8, -3.26068646279314e+20),
        (4, 3, 3.97949001553184e+13),
        (5, -6, 1.00824008584757e-07),
        (5, -2, 1.62234569738433e+04),
        (5, 1, -4.32355225319745e+10),
        (6, 1, -5.92874245598610e+11),
        (8, -6, 1.33061647281106),
        (8, -3, 1.57338197797544e+06),
        (8, 1, 2.58189614270853e+13),
        (8, 8, 2.62413209706358e+24),
        (10, -8, -9.20011937431142e-02),
        (12, -10, 2.20213765905426e-03),
        (12, -8, -1.10433759109547e+01),
        (12, -5, 8.47004870612087e+06),
        (12, -4, -5.92910695762536e+08),
        (14, -12, -1.83027173269660e-05),
        (14, -10, 1.81339603516302e-01),
        (14, -8, -1.19228759669889e+03),
        (14, -6, 4.30867658061468e+06),
    ];

pub const PT2V_3Y_IJN: &[(i32, i32, f64)] = &[
        (0, -3, -5.25597995024633e-10),
        (0, 1, 5.83441305228407e+03),
        (0, 5, -1.34778968457925e+16),
        (0, 8, 1.18973500934212e+25),
        (1, 8, -1.59096490904708e+26),
        (2, -4, -3.15839902302021e-07),
        (2, -1, 4.96212197158239e+02),
        (2, 4, 3.27777227273171e+18),
        (2, 5, -5.27114657850696e+21),
        (3, -8, 2.10017506281863e-17),
        (3, 4, 7.05106224399834e+20),
        (3, 8, -2.66713136106469e+30),
        (4, -6, -1.45370512554562e-08),
        (4, 6, 1.49333917053130e+27),
        (5, -2, -1.49795620287641e+07),
        (5, 1, -3.81881906271100e+15),
        (8, -8, 7.24660165585797e-05),
        (8, -2, -9.37808169550193e+13),
        (10, -5, 5.14411468376383e+09),
        (12, -8, -8.28198594040141e+04),
    ];

pub const PT2V_3Z_IJN: &[(i32, i32, f64)] = &[
        (-8, 3, 2.4400789229065e-11),
        (-6, 6, -4.6305743033124e+06),
        (-5, 6, 7.2880327477771e+09),
        (-5, 8, 3.2777630285886e+15),
        (-4, 5, -1.1059817011841e+09),
        (-4, 6, -3.2389991572996e+12),
        (-4, 8, 9.2381400702325e+15),
        (-3, -2, 8.4225008041371e-13),
        (-3, 5, 6.6322143624551e+11),
        (-3, 6, -1.6717018667214e+14),
        (-2, 2, 2.5374935870139e+03),
        (-1, -6, -8.1973155961052e-21),
        (0, 3, 3.2838058789066e+11),
        (1, 1, -6.2500479117154e+07),
        (2, 6, 8.0319795746202e+20),
        (3, -6, -2.0439701133835e-11),
        (3, -2, -3.7839104705594e+03),
        (6, -6, 9.7287654593862e-03),
        (6, -5, 1.5435572168146e+01),
        (6, -4, -3.7396286292864e+03),
        (6, -1, -6.8285901137457e+10),
        (8, -8, -2.4848801561454e-04),
        (8, -4, 3.9453604949707e+06),
    ];

pub const HS2T_REG43_IJN: &[(i32, i32, f64)] = &[
        (0, 0, 0.179882673606601),
        (0, 3, -0.267507455199603),
        (0, 12, 0.116276722612600e1),
        (1, 0, 0.147545428713616),
        (1, 1, -0.512871635973248),
        (1, 2, 0.421333567697984),
        (1, 5, 0.563749522189870),
        (2, 0, 0.429274443819153),
        (2, 5, -0.335704552142140e1),
        (2, 8, 0.108890916499278e2),
        (3, 0, -0.248483390456012),
        (3, 2, 0.304153221906390),
        (3, 3, -0.494819763939905),
        (3, 4, 0.107551674933261e1),
        (4, 0, 0.733888415457688e-1),
        (4, 1, 0.140170545411085e-1),
        (5, 1, -0.106110975998808),
        (5, 2, 0.168324361811875e-1),
        (5, 4, 0.125028363714877e1),
        (5, 16, 0.101316840309509e4),
        (6, 6, -0.151791558000712e1),
        (6, 8, 0.524277865990866e2),
        (6, 22, 0.230495545563912e5),
        (8, 1, 0.249459806365456e-1),
        (10, 20, 0.210796467412137e+07),
        (10, 36, 0.366836848613065e9),
        (12, 24, -0.144814105365163e9),
        (14, 1, -0.179276373003590e-2),
        (14, 28, 0.489955602100459e10),
        (16, 12, 0.471262212070518e3),
        (16, 32, -0.829294390198652e11),
        (18, 14, -0.171545662263191e4),
        (18, 22, 0.355777682973575e7),
        (18, 36, 0.586062760258436e12),
        (20, 24, -0.129887635078195e8),
        (28, 36, 0.317247449371057e11),
    ];

pub const REGION4_SAT_PT_N: &[f64] = &[
    0.11670521452767E+04,
    -0.72421316703206E+06,
    -0.17073846940092E+02,
    0.12020824702470E+05,
    -0.32325550322333E+07,
    0.14915108613530E+02,
    -0.48232657361591E+04,
    0.40511340542057E+06,
    -0.23855557567849E+00,
    0.65017534844798E+03,
];

pub const REGION5_GFE_JO: &[i32] = &[0, 1, -3, -2, -1, 2];

pub const REGION5_GFE_NO: &[f64] = &[
    -0.13179983674201e+2,
    0.68540841634434e+1,
    -0.24805148933466e-1,
    0.36901534980333,
    -0.31161318213925e+1,
    -0.32961626538917,
];

pub const REGION5_GFE_IJN: &[(i32, i32, f64)] = &[
    (1, 1, 0.15736404855259e-2),
    (1, 2, 0.90153761673944e-3),
    (1, 3, -0.50270077677648e-2),
    (2, 3, 0.22440037409485e-5),
    (2, 9, -0.41163275453471e-5),
    (3, 7, 0.37919454822955e-7),
];
