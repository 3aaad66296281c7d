#if OCT_ == 0
static const double EXP_REF[1025] = {1.0,1.0009770394924165,1.0019550335910028,1.0029339832284467,1.0039138893383475,1.0048947528552166,1.0058765747144782,1.006859355852471,1.007843097206448,1.008827799714578,1.0098134643159469,1.0108000919505575,1.0117876835593316,1.0127762400841096,1.0137657624676528,1.0147562516536435,1.0157477085866857,1.0167401342123066,1.017733529476957,1.0187278953280123,1.0197232327137742,1.02071954258347,1.0217168258872555,1.0227150835762138,1.023714316602358,1.0247145259186305,1.025715712478906,1.0267178772379901,1.0277210211516217,1.0287251451764734,1.0297302502701529,1.0307363373912026,1.0317434074991028,1.0327514615542697,1.033760500518059,1.0347705253527655,1.035781537021624,1.03679353648881,1.0378065247194417,1.03882050267958,1.03983547133623,1.040851431657341,1.0418683846118086,1.0428863311694745,1.0439052723011284,1.0449252089785086,1.0459461421743022,1.046968072862147,1.0479910020166328,1.0490149306133,1.050039859628644,1.0510657900401126,1.0520927228261099,1.053120658965995,1.0541495994400845,1.0551795452296524,1.056210497316932,1.0572424566851155,1.0582754243183563,1.0593094012017692,1.0603443883214314,1.0613803866643838,1.0624173972186313,1.0634554209731442,1.0644944589178593,1.0655345120436808,1.0665755813424802,1.067617667807099,1.0686607724313482,1.06970489621001,1.0707500401388383,1.0717962052145606,1.0728433924348775,1.0738916027984644,1.0749408373049731,1.0759910969550313,1.0770423827502449,1.0780946956931983,1.0791480367874553,1.0802024070375604,1.0812578074490395,1.082314239028401,1.0833717027831364,1.0844301997217223,1.0854897308536195,1.086550297189276,1.087611899740127,1.0886745395185953,1.0897382175380932,1.0908029348130235,1.0918686923587797,1.0929354911917475,1.0940033323293055,1.0950722167898266,1.0961421455926783,1.0972131197582244,1.0982851403078258,1.099358208263841,1.1004323246496268,1.1015074904895412,1.1025837068089421,1.1036609746341897,1.104739294992646,1.1058186689126783,1.1068990974236574,1.1079805815559607,1.1090631223409715,1.1101467208110813,1.1112313779996905,1.1123170949412087,1.1134038726710562,1.1144917122256655,1.1155806146424807,1.1166705809599609,1.1177616122175784,1.1188537094558222,1.1199468737161973,1.1210411060412264,1.1221364074744509,1.123232779060432,1.1243302218447506,1.1254287368740106,1.126528325195837,1.127628987858879,1.1287307259128108,1.1298335404083317,1.1309374323971675,1.1320424029320715,1.1331484530668263,1.1342555838562434,1.135363796356165,1.1364730916234649,1.1375834707160497,1.1386949346928594,1.139807484613869,1.1409211215400887,1.1420358465335656,1.1431516606573842,1.144268564975668,1.14538656055358,1.1465056484573242,1.1476258297541455,1.1487471055123326,1.1498694768012174,1.1509929446911764,1.1521175102536325,1.153243174561055,1.1543699386869608,1.1554978037059165,1.1566267706935378,1.1577568407264915,1.1588880148824967,1.160020294240325,1.1611536798798026,1.16228817288181,1.163423774328284,1.1645604853022191,1.1656983068876672,1.1668372401697396,1.1679772862346076,1.1691184461695043,1.1702607210627247,1.1714041120036267,1.1725486200826334,1.1736942463912328,1.1748409920219791,1.1759888580684943,1.177137845625469,1.1782879557886632,1.1794391896549075,1.1805915483221041,1.181745032889228,1.1828996444563278,1.1840553841245272,1.1852122529960252,1.1863702521740984,1.1875293827631006,1.1886896458684653,1.1898510425967053,1.1910135740554153,1.1921772413532716,1.1933420456000339,1.1945079879065463,1.195675069384738,1.1968432911476248,1.1980126543093097,1.1991831599849847,1.2003548092909309,1.2015276033445204,1.2027015432642165,1.203876630169576,1.2050528651812489,1.2062302494209807,1.2074087840116126,1.2085884700770824,1.209769308742427,1.2109513011337818,1.2121344483783827,1.213318751604567,1.2145042119417742,1.2156908305205474,1.2168786084725347,1.2180675469304891,1.2192576470282712,1.2204489099008486,1.2216413366842986,1.2228349285158076,1.224029686533674,1.2252256118773075,1.2264227056872319,1.2276209691050848,1.228820403273619,1.2300210093367046,1.2312227884393285,1.232425741727597,1.2336298703487356,1.234835175451091,1.2360416581841318,1.2372493196984498,1.2384581611457606,1.2396681836789056,1.240879388451852,1.2420917766196953,1.2433053493386585,1.2445201077660952,1.245736053060489,1.2469531863814562,1.2481715088897456,1.2493910217472401,1.2506117261169578,1.2518336231630531,1.2530567140508184,1.2542809999466837,1.2555064820182193,1.2567331614341362,1.2579610393642868,1.259190116979667,1.2604203954524167,1.261651875955821,1.2628845596643112,1.2641184477534664,1.2653535414000139,1.2665898417818306,1.2678273500779451,1.2690660674685372,1.2703059951349396,1.27154713425964,1.2727894860262807,1.274033051619661,1.2752778322257372,1.2765238290316252,1.2777710432255998,1.2790194759970976,1.2802691285367167,1.2815200020362187,1.2827720976885297,1.2840254166877414,1.285279960229112,1.2865357295090674,1.2877927257252026,1.289050950076283,1.2903104037622446,1.2915710879841962,1.29283300394442,1.2940961528463732,1.2953605358946885,1.2966261542951756,1.297893009254822,1.2991611019817952,1.3004304336854429,1.301701005576294,1.3029728188660603,1.3042458747676378,1.305520174495107,1.3067957192637354,1.3080725102899768,1.3093505487914747,1.3106298359870612,1.3119103730967598,1.3131921613417863,1.3144752019445491,1.3157594961286512,1.3170450451188909,1.3183318501412635,1.3196199124229622,1.3209092331923786,1.3221998136791053,1.3234916551139355,1.3247847587288655,1.3260791257570952,1.327374757433029,1.328671654992278,1.3299698196716598,1.3312692527092012,1.332569955344138,1.3338719288169167,1.3351751743691969,1.3364796932438496,1.3377854866849617,1.3390925559378344,1.3404009022489867,1.3417105268661547,1.343021431038294,1.34433361601558,1.3456470830494105,1.346961833392405,1.3482778682984071,1.3495951890224858,1.3509137968209362,1.3522336929512806,1.3535548786722702,1.3548773552438862,1.3562011239273402,1.357526185985077,1.358852542680774,1.3601801952793438,1.3615091450469345,1.3628393932509315,1.3641709411599587,1.3655037900438791,1.3668379411737963,1.3681733958220565,1.3695101552622482,1.370848220769205,1.3721875936190053,1.3735282750889752,1.374870266457688,1.3762135690049664,1.3775581840118836,1.3789041127607649,1.3802513565351877,1.3815999166199842,1.3829497943012412,1.3843009908663029,1.3856535076037706,1.387007345803505,1.3883625067566268,1.3897189917555184,1.391076802093825,1.3924359390664551,1.3937964039695832,1.3951581981006496,1.3965213227583626,1.3978857792426993,1.3992515688549068,1.400618692897504,1.4019871526742815,1.4033569494903049,1.4047280846519141,1.4061005594667257,1.4074743752436336,1.408849533292811,1.4102260349257107,1.411603881455067,1.4129830741948972,1.4143636144605016,1.4157455035684665,1.4171287428366641,1.4185133335842541,1.4198992771316854,1.4212865748006966,1.4226752279143184,1.4240652377968734,1.4254566057739786,1.4268493331725458,1.4282434213207835,1.429638871548198,1.4310356851855945,1.4324338635650782,1.433833408020056,1.4352343198852378,1.4366366004966373,1.4380402511915735,1.4394452733086722,1.4408516681878671,1.442259437170401,1.4436685815988268,1.4450791028170098,1.446491002170128,1.4479042810046734,1.449318940668454,1.4507349825105942,1.4521524078815373,1.4535712181330454,1.4549914146182013,1.4564129986914103,1.4578359717084006,1.4592603350262252,1.4606860900032628,1.4621132379992194,1.4635417803751296,1.4649717184933577,1.4664030537175992,1.4678357874128813,1.4692699209455662,1.4707054556833496,1.4721423929952648,1.4735807342516818,1.4750204808243097,1.4764616340861985,1.4779041954117385,1.4793481661766639,1.4807935477580523,1.4822403415343275,1.4836885488852596,1.4851381711919667,1.4865892098369164,1.4880416662039275,1.4894955416781699,1.490950837646168,1.4924075554957996,1.4938656966163,1.4953252623982605,1.4967862542336317,1.498248673515724,1.4997125216392098,1.5011778000001228,1.5026445099958619,1.5041126530251907,1.5055822304882398,1.5070532437865074,1.508525694322861,1.5099995835015396,1.5114749127281533,1.5129516834096854,1.5144298969544947,1.5159095547723156,1.5173906582742598,1.5188732088728176,1.5203572079818597,1.5218426570166381,1.5233295573937875,1.5248179105313266,1.52630771784866,1.5277989807665782,1.5292917007072608,1.5307858790942768,1.5322815173525854,1.5337786169085388,1.5352771791898825,1.5367772056257567,1.5382786976466987,1.5397816566846425,1.5412860841729221,1.542791981546271,1.5442993502408253,1.5458081916941238,1.54731850734511,1.5488302986341331,1.55034356700295,1.5518583138947257,1.5533745407540358,1.5548922490268668,1.5564114401606186,1.5579321156041044,1.5594542768075537,1.5609779252226124,1.5625030623023455,1.5640296895012364,1.5655578082751913,1.5670874200815372,1.568618526379026,1.5701511286278345,1.5716852282895664,1.573220826827253,1.5747579257053552,1.5762965263897655,1.577836630347807,1.5793782390482385,1.5809213539612519,1.5824659765584765,1.5840121083129797,1.5855597506992676,1.5871089051932867,1.5886595732724267,1.5902117564155194,1.5917654561028425,1.5933206738161192,1.5948774110385213,1.596435669254669,1.5979954499506333,1.5995567546139369,1.6011195847335564,1.6026839417999226,1.604249827304923,1.6058172427419024,1.6073861896056645,1.6089566693924742,1.6105286836000576,1.6121022337276045,1.6136773212757693,1.6152539477466727,1.6168321146439029,1.6184118234725173,1.6199930757390437,1.6215758729514822,1.6231602166193055,1.624746108253462,1.6263335493663758,1.6279225414719487,1.6295130860855618,1.631105184724077,1.6326988389058377,1.6342940501506713,1.63589081997989,1.637489149916292,1.639089041484164,1.640690496209281,1.64229351561891,1.6438981012418092,1.645504254608231,1.6471119772499228,1.6487212707001282,1.6503321364935895,1.6519445761665477,1.6535585912567456,1.6551741833034281,1.656791353847344,1.658410104430747,1.6600304365973986,1.6616523518925677,1.6632758518630335,1.6649009380570865,1.6665276120245296,1.66815587531668,1.6697857294863712,1.671417176087953,1.6730502166772943,1.674684852811784,1.6763210860503328,1.6779589179533747,1.6795983500828675,1.6812393840022961,1.6828820212766724,1.6845262634725375,1.6861721121579631,1.6878195689025528,1.6894686352774442,1.6911193128553093,1.6927716032103572,1.694425507918335,1.696081028556529,1.6977381667037672,1.6993969239404196,1.7010573018484008,1.7027193020111702,1.7043829260137349,1.7060481754426509,1.7077150518860233,1.7093835569335103,1.7110536921763217,1.7127254592072232,1.7143988596205357,1.716073895012139,1.7177505669794708,1.7194288771215307,1.72110882703888,1.7227904183336435,1.7244736526095124,1.7261585314717436,1.7278450565271632,1.729533229384167,1.731223051652722,1.7329145249443685,1.7346076508722215,1.7363024310509716,1.7379988670968871,1.7396969606278159,1.7413967132631865,1.7430981266240089,1.7448012023328778,1.7465059420139728,1.7482123472930606,1.7499204197974962,1.7516301611562244,1.753341572999782,1.7550546569602985,1.7567694146714983,1.7584858477687018,1.7602039578888276,1.7619237466703928,1.7636452157535163,1.765368366779919,1.7670932013929257,1.7688197212374674,1.7705479279600815,1.772277823208915,1.774009408633724,1.7757426858858776,1.7774776566183579,1.7792143224857622,1.7809526851443038,1.782692746251815,1.7844345074677477,1.7861779704531744,1.7879231368707915,1.7896700083849195,1.791418586661505,1.7931688733681224,1.7949208701739752,1.7966745787498977,1.7984300007683571,1.8001871379034546,1.8019459918309266,1.8037065642281471,1.8054688567741288,1.8072328711495254,1.808998609036632,1.8107660721193872,1.8125352620833757,1.8143061806158287,1.8160788294056258,1.8178532101432967,1.8196293245210229,1.8214071742326392,1.8231867609736352,1.8249680864411575,1.8267511523340103,1.828535960352658,1.8303225121992264,1.832110809577504,1.8339008541929447,1.8356926477526676,1.8374861919654606,1.8392814885417808,1.8410785391937567,1.8428773456351897,1.844677909581555,1.8464802327500045,1.848284316859368,1.8500901636301534,1.8518977747845515,1.8537071520464343,1.8555182971413586,1.8573312117965672,1.8591458977409905,1.8609623567052476,1.8627805904216492,1.8646006006241982,1.8664223890485916,1.8682459574322223,1.8700713075141813,1.8718984410352577,1.873727359737942,1.8755580653664274,1.8773905596666107,1.879224844386095,1.8810609212741904,1.882898792081917,1.8847384585620042,1.8865799224688955,1.8884231855587479,1.8902682495894338,1.8921151163205436,1.8939637875133872,1.8958142649309946,1.8976665503381187,1.899520645501237,1.9013765521885522,1.9032342721699953,1.9050938072172259,1.9069551591036353,1.908818329604347,1.910683320496219,1.9125501335578454,1.914418770569558,1.9162892333134278,1.9181615235732676,1.9200356431346326,1.9219115937848226,1.9237893773128836,1.9256689955096098,1.9275504501675447,1.9294337430809836,1.9313188760459747,1.9332058508603212,1.9350946693235824,1.9369853332370763,1.9388778444038806,1.9407722046288347,1.9426684157185412,1.9445664794813686,1.9464663977274512,1.9483681722686927,1.9502718049187666,1.9521772974931189,1.9540846518089685,1.955993869685311,1.957904952942918,1.9598179034043413,1.9617327228939123,1.9636494132377456,1.9655679762637392,1.9674884138015782,1.9694107276827344,1.971334919740469,1.9732609918098354,1.9751889457276786,1.9771187833326391,1.9790505064651536,1.980984116967457,1.982919616683584,1.9848570074593714,1.986796291142459,1.988737469582292,1.9906805446301223,1.9926255181390111,1.9945723919638298,1.9965211679612622,1.998471847989806,2.0004244339097745,2.0023789275832997,2.0043353308743312,2.006293645648641,2.0082538737738242,2.0102160171192995,2.0121800775563137,2.01414605695794,2.016113957199083,2.0180837801564784,2.0200555277086965,2.0220292017361423,2.024004804121058,2.025982336747525,2.0279618015014655,2.029943200270645,2.0319265349446716,2.0339118074150018,2.0358990195749382,2.0378881733196352,2.039879270546097,2.0418723131531826,2.0438673030416052,2.0458642421139355,2.0478631322746037,2.0498639754298997,2.0518667734879767,2.053871528358852,2.0558782419544084,2.057886916188398,2.059897552976441,2.061910154236031,2.0639247218865346,2.0659412578491922,2.067959764047124,2.069980242405326,2.0720026948506782,2.0740271233119407,2.0760535297197595,2.0780819160066666,2.0801122841070816,2.0821446359573152,2.0841789734955687,2.086215298661938,2.088253613398414,2.090293919648886,2.092336219359141,2.0943805144768683,2.0964268069516603,2.0984750987350127,2.1005253917803293,2.1025776880429223,2.1046319894800143,2.1066882980507393,2.1087466157161465,2.1108069444392012,2.112869286184785,2.1149336429197017,2.117000016612675,2.1190684092343517,2.121138822757306,2.123211259156038,2.1252857204069766,2.127362208488483,2.1294407253808507,2.131521273066308,2.13360385352902,2.13568846875509,2.137775120732562,2.1398638114514235,2.1419545429036044,2.144047317082982,2.146142135985382,2.148239001608579,2.1503379159523,2.152438881018226,2.1545418988099936,2.1566469713331973,2.1587541005953903,2.160863288606088,2.162974537376769,2.165087848920878,2.1672032252538247,2.16932066839299,2.1714401803577257,2.173561763169355,2.175685418851178,2.1778111494284706,2.179938956928487,2.1820688433804634,2.184200810815618,2.186334861267153,2.188470996770258,2.190609219362111,2.1927495310818794,2.194891933970724,2.1970364300718,2.199183021430258,2.2013317100932475,2.203482498109917,2.2056353875314194,2.2077903804109087,2.2099474788035476,2.212106684766505,2.2142680003589605,2.2164314276421053,2.218596968679145,2.2207646255353,2.2229344002778095,2.2251062949759324,2.2272803117009485,2.229456452526162,2.231634719526903,2.233815114780529,2.2359976403664263,2.2381822983660147,2.2403690908627456,2.242558019942108,2.244749087691627,2.2469422962008676,2.249137647561437,2.251335143866985,2.2535347872132085,2.2557365796978504,2.2579405234207037,2.2601466204836136,2.262354872990478,2.2645652830472502,2.266777852761943,2.2689925842446264,2.2712094796074336,2.273428540964561,2.2756497704322705,2.2778731701288915,2.280098742174823,2.2823264886925374,2.2845564118065784,2.286788513643567,2.289022796332201,2.2912592620032592,2.2934979127896016,2.295738750826172,2.29798177825,2.300226997200204,2.3024744098179912,2.3047240182466617,2.3069758246316097,2.309229831120325,2.311486039862396,2.313744453009511,2.3160050727154613,2.3182679011361413,2.320532940429553,2.322800192755806,2.325069660277121,2.3273413451578313,2.3296152495643843,2.3318913756653443,2.334169725631395,2.33645030163534,2.338733105852106,2.3410181404587456,2.3433054076344373,2.3455949095604898,2.3478866484203413,2.3501806263995655,2.35247684568587,2.3547753084691005,2.3570760169412424,2.3593789732964217,2.3616841797309096,2.363991638443122,2.3663013516336235,2.368613321505128,2.3709275502625027,2.3732440401127675,2.3755627932651,2.377883811930835,2.3802070983234693,2.382532654658662,2.384860483154235,2.3871905860301803,2.389522965508657,2.391857623813995,2.394194563172699,2.3965337858134474,2.398875293967098,2.4012190898666863,2.4035651757474303,2.4059135538467324,2.408264226404181,2.410617195661552,2.4129724638628116,2.4153300332541194,2.417689906083828,2.420052084602489,2.4224165710628505,2.424783367719863,2.4271524768306802,2.4295239006546607,2.43189764145337,2.4342737014905844,2.4366520830322917,2.4390327883466933,2.441415819704207,2.4438011793774685,2.4461888696413343,2.4485788927728835,2.4509712510514206,2.453365946758475,2.455762982177808,2.4581623595954105,2.460564081299507,2.462968149580558,2.4653745667312625,2.4677833350465583,2.4701944568236263,2.472607934361891,2.475023769963025,2.477441965930949,2.4798625245718333,2.4822854481941037,2.4847107391084404,2.487138399627781,2.4895684320673226,2.492000838744526,2.4944356219791146,2.4968727840930787,2.499312327410678,2.5017542542584414,2.504198566965173,2.506645267861951,2.509094359282131,2.511545843561349,2.5139997230375233,2.516456000050855,2.5189146769438335,2.5213757560612353,2.523839239750129,2.526305130359875,2.528773430242131,2.531244141750851,2.53371726724229,2.536192809075003,2.5386707696098525,2.5411511512100047,2.5436339562409365,2.5461191870704356,2.548606846068603,2.551096935607855,2.553589458062927,2.556084415810873,2.5585818112310705,2.561081646705222,2.563583924617356,2.5660886473538316,2.568595817303338,2.5711054368568993,2.5736175084078754,2.5761320343519643,2.5786490170872054,2.581168459013981,2.5836903625350174,2.5862147300553904,2.5887415639825235,2.5912708667261946,2.593802640698535,2.596336888314031,2.598873611989532,2.601412814144245,2.6039544971997426,2.6064986635799623,2.6090453157112106,2.611594456022165,2.6141460869438746,2.616700210909765,2.6192568303556385,2.6218159477196776,2.6243775654424475,2.6269416859668966,2.6295083117383613,2.632077445204567,2.6346490888156313,2.6372232450240634,2.6397999162847707,2.642379105055059,2.6449608137946337,2.6475450449656055,2.6501318010324884,2.6527210844622062,2.655312897724092,2.657907243289891,2.6605041236337654,2.6631035412322928,2.665705498564471,2.66830999811172,2.6709170423578854,2.6735266337892374,2.676138774894477,2.678753468164736,2.6813707160935807,2.683990521177013,2.686612885913475,2.6892378128038477,2.691865304351457,2.694495363062074,2.6971279914439186,2.6997631920076617,2.7024009672664255,2.7050413197357894,2.70768425193379,2.7103297663809234,2.7129778656001498,2.7156285521168932,2.718281828459045};
#endif
#if OCT_ == 1
static const double EXP_REF[513] = {2.718281828459045,2.723596160743495,2.728920882726075,2.7342560147189934,2.7396015770741706,2.744957590183315,2.7503240744780015,2.75570105042975,2.7610885385501014,2.7664865593907,2.7718951335433664,2.777314281640181,2.7827440243535593,2.788184382396333,2.793635376521827,2.799097027523941,2.8045693562372267,2.8100523835369677,2.8155461303392597,2.821050617601091,2.8265658663204203,2.832091897536259,2.8376287323287492,2.8431763918192465,2.848734897170399,2.8543042695862293,2.8598845303122133,2.865475700635363,2.8710778018843075,2.8766908554293735,2.8823148826826688,2.8879499050981607,2.893595944171761,2.8992530214414063,2.9049211584871406,2.910600376931198,2.916290698438084,2.9219921447146593,2.9277047375102225,2.933428498616593,2.9391634498681936,2.9449096131421335,2.9506670103582935,2.956435663479408,2.962215594511149,2.9680068255022105,2.973809378544393,2.9796232757726866,2.985448539365356,2.9912851915440255,2.9971332545737632,3.0029927507631666,3.0088637024644465,3.0147461320735136,3.020640062030063,3.0265455148176605,3.032462512963828,3.0383910790401294,3.044331235662256,3.050283005490115,3.056246411227913,3.0622214756242454,3.068208221472181,3.07420667160935,3.080216848918031,3.086238776325239,3.09227247680281,3.098317973367493,3.1043752890810343,3.110444447050267,3.1165254704271983,3.122618382409099,3.128723206238592,3.134839965203738,3.1409686826381296,3.1471093819209752,3.1532620864771905,3.1594268197774893,3.1656036053384695,3.1717924667227058,3.1779934275388384,3.184206511441663,3.1904317421322212,3.1966691433578913,3.2029187389124782,3.2091805526363046,3.2154546084163016,3.2217409301861,3.2280395419261225,3.2343504676636736,3.2406737314730316,3.247009357475542,3.2533573698397067,3.25971779278128,3.266090650563357,3.2724759674964687,3.2788737679386735,3.285284076295652,3.291706917020796,3.2981423146153084,3.304590293628289,3.3110508786568342,3.3175240943461275,3.3240099653895356,3.3305085165287003,3.3370197725536346,3.343543758302818,3.3500804986632873,3.3566300185707374,3.3631923430096116,3.369767497013199,3.3763555056637293,3.382956394092469,3.389570187479818,3.3961969110554024,3.402836590098176,3.4094892499365113,3.4161549159483,3.4228336135610484,3.4295253682519737,3.4362302055481027,3.4429481510263678,3.449679230313705,3.456423469087153,3.463180893073949,3.4699515280516278,3.47673539984812,3.483532534341852,3.4903429574618414,3.4971666951877993,3.504003773550228,3.510854218630519,3.5177180565610557,3.52459531352531,3.5314860157579426,3.538390189544906,3.545307861223541,3.5522390571826796,3.559183803862744,3.5661421277558487,3.5731140554059015,3.5800996134087044,3.5870988284120546,3.5941117271158474,3.6011383362721756,3.608178682685436,3.615232793212426,3.622300694762451,3.629382414297425,3.636477978831971,3.6435874154335295,3.6507107512224573,3.6578480133721323,3.664999229109058,3.6721644257129653,3.67934363051692,3.6865368709074224,3.693744174324517,3.7009655682618923,3.7082010802669894,3.715450737941104,3.722714568939495,3.7299926009714874,3.7372848618005787,3.744591379244545,3.751912181175548,3.7592472955202383,3.766596750259867,3.773960573430387,3.781338793122564,3.78873143748208,3.7961385347096464,3.8035601130611036,3.8109962008475367,3.8184468264353777,3.825912018246517,3.8333918047584103,3.840886214504188,3.8483952760727633,3.855919018108942,3.8634574693135315,3.87101065844345,3.878578614311837,3.886161365788162,3.893758941798335,3.9013713713248186,3.908998683406735,3.916640907139981,3.9242980716773355,3.931970206228572,3.9396573400605712,3.9473595024974304,3.955076722920577,3.9628090307688804,3.9705564555387625,3.978319026784314,3.986096774117403,3.9938897272077902,4.001697915783243,4.009521369629645,4.017360118591115,4.0252141925701155,4.033083621527571,4.040968435482981,4.048868664514532,4.056784338759217,4.064715488412945,4.072662143730661,4.08062433502646,4.088602092673701,4.0965954471051225,4.104604428812962,4.1126290683490705,4.120669396325027,4.12872544341226,4.136797240342159,4.1448848179061955,4.1529882069560395,4.161107438403677,4.169242543221528,4.177393552442564,4.185560497160428,4.193743408529551,4.2019423177652735,4.21015725614396,4.218388255003126,4.226635345741549,4.234898559819394,4.24317792875833,4.251473484141654,4.259785257614409,4.268113280883504,4.276457585717836,4.284818203948413,4.293195167468473,4.301588508233604,4.3099982582618726,4.318424449633938,4.32686711449318,4.33532628504582,4.343801993561042,4.352294272371119,4.360803153871534,4.369328670521104,4.3778708548421035,4.386429739420392,4.395005356905533,4.4035977400109205,4.412206921513906,4.4208329342559205,4.429475811142603,4.438135585143921,4.446812289294302,4.455505956692757,4.464216620503004,4.472944313953601,4.4816890703380645,4.490450923015006,4.499229905408249,4.508026051006968,4.516839393365801,4.525669966104997,4.534517802910525,4.543382937534215,4.552265403793883,4.56116523557346,4.570082466823121,4.579017131559413,4.587969263865388,4.596938897890734,4.605926067851898,4.6149308080322236,4.6239531527820805,4.632993136518993,4.642050793727773,4.651126158960652,4.660219266837412,4.669330152045518,4.678458849340249,4.687605393544834,4.69676981955058,4.7059521623170095,4.715152456871992,4.724370738311875,4.733607041801626,4.742861402574955,4.75213385593446,4.761424437251754,4.770733181967603,4.780060125592061,4.789405303704607,4.7987687519542765,4.8081505060598015,4.817550601809746,4.82696907506264,4.8364059617471185,4.8458612978620605,4.855335119476721,4.864827462730874,4.874338363834946,4.883867859070157,4.893415984788658,4.90298277741367,4.912568273439622,4.922172509432291,4.931795522028942,4.941437347938466,4.951098023941522,4.960777586890675,4.97047607371054,4.980193521397919,4.989929967021947,4.999685447724227,5.009460000718975,5.019253663293166,5.029066472806668,5.038898466692391,5.048749682456427,5.058620157678194,5.068509930010579,5.0784190371800815,5.088347516986956,5.098295407305361,5.108262746083499,5.11824957134376,5.128255921182873,5.138281833772044,5.1483273473571085,5.15839250025867,5.168477330872253,5.178581877668445,5.188706179193045,5.198850274067211,5.209014200987607,5.219197998726548,5.229401706132153,5.239625362128489,5.249869005715721,5.260132675970259,5.270416412044913,5.280720253169033,5.291044238648667,5.301388407866708,5.31175280028304,5.322137455434696,5.3325424129360055,5.3429677124787425,5.353413393832282,5.363879496843748,5.374366061438169,5.384873127618627,5.395400735466409,5.405948925141167,5.4165177368810635,5.427107211002928,5.4377173879024125,5.448348308054142,5.459000012011871,5.46967254040864,5.480365933956924,5.491080233448797,5.501815479756081,5.5125717138305035,5.523348976703854,5.534147309488141,5.544966753375748,5.555807349639592,5.5666691396332775,5.57755216479126,5.588456466628997,5.599382086743113,5.6103290668115555,5.621297448593752,5.63228727393077,5.643298584745483,5.654331423042719,5.66538583090943,5.676461850514849,5.687559524110652,5.698678894031116,5.709820002693286,5.720982892597131,5.732167606325711,5.743374186545336,5.754602676005731,5.765853117540196,5.777125554065775,5.788420028583415,5.799736584178129,5.811075264019165,5.822436111360168,5.833819169539345,5.84522448197963,5.8566520921888525,5.868102043759899,5.879574380370882,5.891069145785306,5.9025863838522366,5.914126138506464,5.925688453768672,5.937273373745607,5.948880942630247,5.960511204701965,5.972164204326706,5.983839985957149,5.995538594132881,6.007260073480564,6.019004468714109,6.030771824634841,6.042562186131676,6.054375598181287,6.066212105848279,6.07807175428536,6.089954588733513,6.101860654522169,6.113789997069379,6.125742661881986,6.137718694555804,6.149718140775787,6.161741046316203,6.173787457040811,6.185857418903038,6.197950977946148,6.210068180303421,6.222209072198332,6.234373699944722,6.246562109946979,6.258774348700211,6.271010462790426,6.283270498894711,6.295554503781408,6.3078625243102895,6.320194607432744,6.3325508001919495,6.344931149723057,6.357335703253365,6.369764508102507,6.382217611682625,6.394695061498554,6.4071969051480036,6.419723190321737,6.432273964803756,6.44484927647148,6.457449173295932,6.470073703341919,6.482722914768217,6.495396855827752,6.508095574867789,6.5208191203301125,6.5335675407512115,6.546340884762466,6.559139201090331,6.571962538556527,6.584810946078217,6.5976844726682025,6.610583167435106,6.623507079583559,6.63645625841439,6.649430753324811,6.662430613808609,6.67545588945633,6.688506629955475,6.701582885090683,6.714684704743925,6.727812138894691,6.740965237620187,6.754144051095517,6.76734862959388,6.780579023486763,6.793835283244129,6.807117459434611,6.820425602725708,6.833759763883972,6.847119993775209,6.8605063433646665,6.873918863717232,6.887357605997627,6.900822621470601,6.914313961501128,6.927831677554603,6.941375821197036,6.95494644409525,6.968543598017082,6.982167334831573,6.995817706509171,7.009494765121929,7.0231985628437,7.036929151950343,7.050686584819912,7.064470913932868,7.07828219187227,7.092120471323977,7.105985805076854,7.119878246022968,7.133797847157793,7.14774466158041,7.161718742493711,7.175720143204601,7.189748917124201,7.203805117768055,7.21788879875633,7.232000013814021,7.24613881677116,7.260305261563017,7.274499402230307,7.288721292919398,7.302970987882513,7.317248541477942,7.331554008170247,7.345887442530472,7.360248899236344,7.3746384330724934,7.38905609893065};
#endif
#if OCT_ == 2
static const double EXP_REF[513] = {7.38905609893065,7.417976046816707,7.4470091841784605,7.476155954026993,7.505416801107283,7.534792171904992,7.564282514653275,7.593888279339626,7.623609917712736,7.653447883289393,7.683402631361398,7.713474619002515,7.743664305075443,7.773972150238821,7.804398616954251,7.8349441694933635,7.865609273944892,7.896394398221792,7.92730001206838,7.958326587067497,7.9894745966477085,8.020744516090527,8.052136822537664,8.08365199499831,8.115290514356445,8.147052863378178,8.178939526719109,8.210950990931725,8.243087744472826,8.27535027771098,8.307739082934006,8.340254654356475,8.372897488127265,8.405668082337122,8.438566937026271,8.47159455419203,8.504751437796486,8.538038093774174,8.571455030039802,8.605002756496,8.638681785041102,8.67249262957695,8.706435806016751,8.740511832292928,8.774721228365038,8.809064516227709,8.84354221991859,8.878154865526355,8.912902981198737,8.947787097150577,8.982807745671918,9.01796546113613,9.053260780008058,9.088694240852211,9.124266384340984,9.159977753262899,9.195828892530896,9.23182034919064,9.267952672428878,9.304226413581807,9.340642126143496,9.37720036577433,9.413901690309483,9.450746659767438,9.487735836358526,9.524869784493507,9.562149070792186,9.59957426409205,9.637145935456955,9.67486465818584,9.71273100782147,9.750745562159219,9.788908901255894,9.827221607438576,9.865684265313508,9.904297461775021,9.943061786014486,9.9819778295293,10.021046186131915,10.060267451958905,10.099642225480054,10.139171107507485,10.17885470120484,10.218693612096475,10.258688448076699,10.298839819419056,10.33914833878563,10.379614621236398,10.42023928423861,10.461022947676224,10.501966233859342,10.54306976753373,10.584334175890335,10.62576008857486,10.667348137697372,10.709098957841949,10.751013186076355,10.793091461961774,10.835334427562556,10.877742727456024,10.920317008742302,10.963057921054194,11.005966116567095,11.049042250008942,11.092286978670202,11.135700962413912,11.17928486368573,11.223039347524061,11.26696508157019,11.311062736078481,11.3553329839266,11.399776500625777,11.444393964331121,11.489186055851967,11.534153458662256,11.57929685891098,11.624616945432633,11.670114409757737,11.715789946123383,11.761644251483835,11.807678025521156,11.853891970655884,11.900286792057758,11.946863197656471,11.993621898152476,12.040563607027826,12.087689040557068,12.134998917818166,12.182493960703473,12.230174893930755,12.278042445054236,12.326097344475713,12.374340325455691,12.422772124124576,12.471393479493909,12.520205133467638,12.569207830853442,12.618402319374093,12.667789349678872,12.717369675355013,12.76714405293921,12.817113241929157,12.867278004795136,12.917639106991658,12.968197316969134,13.018953406185608,13.069908149118522,13.121062323276538,13.172416709211404,13.223972090529857,13.275729253905588,13.32768898909124,13.379852088930456,13.432219349369987,13.484791569471833,13.537569551425428,13.59055410055989,13.643746025356307,13.697146137460072,13.750755251693265,13.804574186067095,13.85860376179437,13.912844803302042,13.96729813824377,14.021964597512564,14.076845015253456,14.131940228876227,14.187251079068192,14.242778409807016,14.298523068373607,14.354485905365031,14.4106677747075,14.467069533669397,14.523692042874359,14.580536166314408,14.637602771363136,14.694892728788941,14.75240691276831,14.81014620089916,14.868111474214228,14.926303617194517,14.984723517782793,15.04337206739713,15.10225016094451,15.16135869683449,15.220698576992893,15.280270706875589,15.340075995482293,15.400115355370453,15.460389702669161,15.520899957093135,15.581647041956762,15.642631884188171,15.703855414343392,15.765318566620541,15.827022278874091,15.888967492629165,15.951155153095918,16.01358620918395,16.076261613516785,16.139182322446413,16.202349296067883,16.265763498233948,16.329425896569767,16.39333746248769,16.457499171202052,16.521912001744084,16.58657693697683,16.651494963610144,16.716667072215767,16.782094257242417,16.84777751703098,16.91371785382974,16.979916273809664,17.046373787079762,17.113091407702502,17.180070153709277,17.247311047115943,17.314815113938415,17.382583384208317,17.45061689198871,17.51891667538985,17.587483776585056,17.656319241826594,17.725424121461643,17.79479946994832,17.864446345871784,17.934365811960372,18.00455893510183,18.075026786359576,18.145770440989054,18.216790978454146,18.28808948244362,18.359667040887704,18.431524745974645,18.503663694167408,18.576084986220376,18.648789727196185,18.721779026482544,18.79505399780919,18.868615759264884,18.942465433314446,19.016604146815915,19.091033031037714,19.165753221675935,19.24076585887165,19.31607208722833,19.391673055829287,19.46756991825522,19.543763832601815,19.620255961497417,19.697047472120772,19.774139536218833,19.851533330124635,19.929230034775262,20.007230835729846,20.085536923187668,20.16414949200632,20.24306974171993,20.322298876557472,20.401838105461145,20.4816886421048,20.56185170491249,20.64232851707703,20.723120306578686,20.8042283062039,20.8856537535641,20.967397891114594,21.049461966173517,21.131847230940878,21.214554942517648,21.297586362924953,21.380942759123343,21.464625403032095,21.548635571548648,21.632974546568068,21.717643615002626,21.802644068801417,21.887977204970085,21.973644325590612,22.059646737841184,22.145985754016134,22.232662691545976,22.319678873017494,22.40703562619394,22.494734284035275,22.582776184718522,22.67116267165818,22.75989509352673,22.84897480427519,22.938403163153815,23.028181534732802,23.118311288923124,23.20879380099744,23.299630451611073,23.390822626823073,23.482371718117374,23.574279122424027,23.666546242140512,23.75917448515314,23.852165264858517,23.94552000018515,24.039240115615065,24.133327041205547,24.22778221261098,24.322607071104724,24.417803063601138,24.513371642677637,24.609314266596865,24.70563239932894,24.80232751057381,24.89940107578365,24.9968545761854,25.094689498803355,25.192907336481866,25.2915095879081,25.39049775763493,25.489873356103875,25.58963789966816,25.689792910615846,25.790339917193062,25.891280453627324,25.992616060150944,26.09434828302453,26.196478674560588,26.2990087931472,26.401940203271806,26.505274475545082,26.609013186724894,26.713157919740368,26.817710263716034,26.922671813996086,27.028044172168716,27.133828946090556,27.240027749911206,27.346642204097876,27.4536739354601,27.561124577174567,27.668995768810042,27.77728915635237,27.886006392229614,27.995149135337257,28.1047190510635,28.214717811314713,28.325147094540903,28.436008585761353,28.547303976590324,28.65903496526287,28.771203256660744,28.883810562338418,28.996858600549206,29.110349096271467,29.22428378123494,29.33866439394716,29.453492679719986,29.56877039069624,29.684499285876434,29.800681131145613,29.9173176993003,30.034410770075546,30.151962130172098,30.26997357328364,30.388446900124176,30.507383918455513,30.62678644311483,30.74665629604239,30.866995306309306,30.987805310145493,31.10908815096766,31.230845679407448,31.35307975333966,31.475792237910618,31.598985005566618,31.72265993608251,31.846818916590372,31.9714638416083,32.09659661306934,32.22221914035047,32.348333340301785,32.47494113727571,32.60204446315635,32.72964525738904,32.85774546700983,32.9863470466753,33.11545195869231,33.245062173048,33.375179667439795,33.50580642730562,33.63694444585419,33.76859572409541,33.90076227087091,34.03344610288473,34.16664924473404,34.300373728940066,34.4346215959791,34.56939489431364,34.70469568042362,34.84052601883783,34.97688798216538,35.11378365112735,35.25121511458854,35.38918446958933,35.52769382137767,35.66674528344124,35.806340977539655,35.94648303373688,36.08717359043372,36.228414794400415,36.37020880080945,36.51255777326842,36.65546388385301,36.798929313140206,36.942956250241515,37.08754689283638,37.232703447205715,37.37842812826559,37.524723159601,37.67159077349981,37.8190332109868,37.9670527218579,38.115651564714454,38.26483200699776,38.41459632502361,38.56494680401705,38.71588573814723,38.867415430562446,39.01953819342525,39.172256347947744,39.32557222442699,39.479488162280596,39.634006510082365,39.78912962559818,39.94485987582193,40.1011996370117,40.25815129472595,40.41571724385996,40.57389988868238,40.73270164287187,40.892124929554,41.05217218133816,41.2128458403547,41.37414835829223,41.53608219643496,41.698649825700315,41.861853726676614,42.02569638966092,42.190180314697045,42.3553080116137,42.52108200006278,42.68750480955783,42.854578979512624,43.02230705927991,43.19069160819034,43.3597351955915,43.5294404008871,43.699809813576366,43.87084603329354,44.04255166984753,44.21492934326177,44.387981683814154,44.5617113320772,44.73612093895834,44.91121316574036,45.086990684122,45.263456176258764,45.44061233480379,45.61846186294896,45.79700747446617,45.97625189374871,46.15619785585283,46.33684810653952,46.51820540231633,46.70027251047952,46.88305220915621,47.06654728734682,47.250760544967605,47.435694792893365,47.62135285300038,47.807737558209425,47.99485175252902,48.182698291098816,48.37128004023317,48.56059987746486,48.75066069158903,48.94146538270724,49.133016862271724,49.32531805312982,49.51837188956857,49.71218131735948,49.9067492938035,50.1020787877761,50.29817277977263,50.49503426195374,50.6926662381911,50.89107172411317,51.09025374715126,51.290215346585704,51.49095957359226,51.692489491288626,51.894808174781225,52.097918711212095,52.301824199806006,52.50652775191775,52.71203249107963,52.9183415530491,53.12545808585662,53.333385249853684,53.542126217761066,53.75168417471723,53.96206231832688,54.173263858709824,54.38529201854992,54.598150033144236};
#endif
#if OCT_ == 3
static const double EXP_REF[513] = {54.598150033144236,55.02636863114642,55.457945789238345,55.89290784893326,56.33128135834348,56.773093073800744,57.21836996148928,57.66713919909174,58.119428177447986,58.57526450222688,59.03467599561125,59.49769069799599,59.964336869699544,60.434642992688794,60.908637772317434,61.38635013907805,61.867809250367884,62.3530444922685,62.84208548133934,63.3349620664254,63.83170433047907,64.33234259239626,64.83690740886694,65.34542957624015,65.8579401324037,66.37447035867858,66.89505178172818,67.41971617548266,67.9484955630781,68.48142221881122,69.01852867010916,69.55984769951485,70.10541234668786,70.65525591042105,71.20941195067294,71.76791429061606,72.33079701870139,72.89809449073893,73.46984133199462,74.04607243930377,74.62682298320091,75.21212841006654,75.80202444429054,76.39654709045266,76.99573263552006,77.59961765106212,78.2082389954826,78.82163381626928,79.43983955226133,80.06289393593435,80.69083499570341,81.32370105824417,81.9615307508321,82.60436300370014,83.25223705241488,83.90519244027122,84.563269020706,85.2265069597304,85.89494673838159,86.56862915519338,87.24759532868651,87.93188669987823,88.62154503481175,89.31661242710538,90.01713130052181,90.7231444115574,91.43469485205186,92.1518260518184,92.87458178129451,93.6030061542134,94.33714363029665,95.0770390179677,95.82273747708687,96.57428452170761,97.33172602285453,98.09510821132314,98.86447768050158,99.63988138921447,100.42136666458902,101.20898120494374,102.00277308269969,102.80279074731456,103.60908302823987,104.4216991379013,105.24068867470233,106.06610162605153,106.89798837141365,107.7363996853844,108.5813867407896,109.43300111180854,110.29129477712178,111.15632012308374,112.02812994692015,112.90677745995042,113.7923162908356,114.68480048885151,115.58428452718766,116.49082330627213,117.40447215712238,118.3252868447224,119.2533235714264,120.1886389803891,121.13129015902297,122.08133464248264,123.03883041717654,124.00383592430612,124.97641006343288,125.9566121960733,126.94450214932196,127.94014021950323,128.94358717585138,129.9549042642197,130.9741532108186,132.00139622598326,133.0366960079705,134.08011574678568,135.13171912803952,136.19157033683516,137.25973406168575,138.33627549846275,139.42126035437516,140.51475485198003,141.61682573322432,142.7275402635186,143.8469662358426,144.97517197488295,146.11222634120347,147.25819873544805,148.4131591025766,149.57717793613415,150.7503262825534,151.93267574549122,153.12429849019884,154.32526724792663,155.5356553203632,156.7555365841094,157.98498549518746,159.2240770935855,160.47288700783744,161.73149145963927,162.99996726850102,164.27839185643572,165.5668432526847,166.86540009848025,168.17414165184545,169.4931477924318,170.82249902639472,172.1622764913071,173.5125619611118,174.8734378511126,176.24498722300464,177.62729378994385,179.02044192165667,180.4245166495895,181.83960367209863,183.26578935968087,184.70316076024525,186.15180560442604,187.61181231093738,189.08326999196993,190.56626845863,192.0608982264211,193.56725052076862,195.08541728258788,196.6154911738957,198.15756558346607,199.71173463253027,201.27809318052155,202.8567368308649,204.44776193681219,206.05126560732333,207.6673457129932,209.29610089202527,210.93763055625195,212.59203489720244,214.2594148922178,215.9398723106141,217.63350971989422,219.3404304920078,221.06073880966076,222.79453967267415,224.54193890439277,226.30304315814422,228.07795992374852,229.86679753407884,231.6696651716735,233.4866728754002,235.3179315471721,237.16355295871682,239.02364975839862,240.8983354780937,242.7877245401199,244.69193226422038,246.61107487460225,248.54526950703038,250.49463421597682,252.45928798182638,254.43935071813848,256.43494327896633,258.44618746623325,260.4732060371668,262.51612271179147,264.57506218047985,266.6501501115634,268.7415131590023,270.8492789701163,272.97357619337527,275.1145344862516,277.272284523134,279.4469580033028,281.63868765896893,283.84760726337464,286.07385163895896,288.31755666558627,290.5788592888401,292.8578975283812,295.1548104863723,297.46973835596765,299.8028224298701,302.15420510895507,304.5240299109616,306.91244147925255,309.31958559164264,311.7456091692961,314.1906602856942,316.65488817567297,319.1384432445317,321.64147707721304,324.16414244755515,326.70659332761613,329.26898489707213,331.8514735526883,334.45421691786504,337.0773738522583,339.72110446147576,342.385570106849,345.0709334152821,347.77735828917787,350.5050099164416,353.25405478056325,356.0246606707791,358.8169966923127,361.6312332766962,364.467542192173,367.3260965541814,370.20707083592094,373.11064087900144,376.03698390417554,378.98627852215554,381.95870474451476,384.95444399467493,387.9736791189793,391.0165943978527,394.08337555704935,397.1742097789884,400.2892857141792,403.4287934927351,406.59292473597867,409.7818725681369,412.9958316281291,416.23499808144635,419.4995696321248,422.78974553481265,426.1057266069316,429.4477152409339,432.81591541665557,436.21053271376616,439.63177432431667,443.0798490653855,446.5549673918236,450.0573414090999,453.58718488624703,457.14471326890896,460.7301436924908,464.34369499541174,467.98558773246197,471.65604418826433,475.3552883908416,479.0835461252901,482.8410449475606,486.6280141983472,490.4446850170856,494.29129035606036,498.16806499462353,502.07524555352444,506.013070509352,509.98178020909006,513.9816168847873,518.012824668342,522.0756496064025,526.170339675385,530.2971447966088,534.4563168515505,538.6481096972173,542.872779181642,547.1305831594982,551.4217815078388,555.7466361419574,560.1054110313753,564.4983722159518,568.9257878221232,573.3879280792671,577.8850653361966,582.4174740777829,586.9854309417088,591.5892147353535,596.2291064528091,600.905389292032,605.6183486721279,610.368272250772,615.1554499417665,619.980173932736,624.8427387029609,629.7434410413515,634.6825800645618,639.6604572352473,644.6773763804644,649.7336437102142,654.829567836133,659.9654597903282,665.1416330443618,670.3584035283843,675.6160896504167,680.9150123157852,686.2554949467076,691.6378635020337,697.0624464971402,702.5295750239817,708.0395827712994,713.5928060449876,719.1895837886203,724.8302576041393,730.5151717727034,736.2446732757018,742.0191118159325,747.8388398389471,753.7042125545613,759.615587958536,765.5733268544279,771.577792875611,777.629352507471,783.7283751097743,789.8752329392117,796.0703011721198,802.313957927379,808.6065842894934,814.9485643318499,821.3402851401597,827.7821368360857,834.2745126010524,840.8178087002444,847.4124245067931,854.0587625261516,860.7572284206628,867.5082310343188,874.3121824177148,881.1694978531985,888.0805958802181,895.045898320867,902.06583030563,909.1408202993323,916.2713001272898,923.4577050016666,930.7004735480381,938.0000478321625,945.356873386963,952.7713992397206,960.2440779394813,967.7753655846766,975.3657218509629,983.0156100192773,990.7254970041143,998.495853382024,1006.3271534203345,1014.2198751060982,1022.1745001752669,1030.1915141420939,1038.271406328768,1046.4146698952802,1054.621801869522,1062.893303177624,1071.2296786745287,1079.6314371748051,1088.0990914837041,1096.6331584284585,1105.234158889827,1113.9026178338868,1122.6390643440748,1131.4440316534813,1140.3180571773948,1149.261682546105,1158.27545363796,1167.3599206126853,1176.515637944962,1185.7431644582705,1195.0430633589979,1204.4159022708138,1213.8622532693157,1223.3826929169447,1232.9778022981784,1242.6481670549958,1252.3943774226225,1262.217028265557,1272.1167191138777,1282.0940541998355,1292.1496424947338,1302.284097746097,1312.498038515131,1322.7920882144774,1333.166875146264,1343.6230325404526,1354.1611985934896,1364.7820165072585,1375.486134528337,1386.2742059875643,1397.1468893399162,1408.1048482046956,1419.1487514060357,1430.2792730137226,1441.4970923843368,1452.8028942027192,1464.1973685237601,1475.6812108145175,1487.2551219966645,1498.919808489272,1510.6759822519236,1522.524360828172,1534.4656673893323,1546.5006307786239,1558.6299855556538,1570.8544720412513,1583.1748363626543,1595.5918304990491,1608.1062123274673,1620.7187456690447,1633.4302003356393,1646.2413521768196,1659.1529831272167,1672.1658812542516,1685.2808408062344,1698.4986622608421,1711.8201523739758,1725.2461242290015,1738.7773972863772,1752.4147974336688,1766.159157035959,1780.0113149866502,1793.9721167586677,1808.0424144560632,1822.223066866023,1836.514939511285,1850.9189047029658,1865.4358415938036,1880.066636231816,1894.8121816143816,1909.673377742745,1924.6511316769472,1939.7463575911895,1954.9599768296307,1970.2929179626208,1985.7461168433776,2001.3205166651069,2017.01706801857,2032.8367289501043,2048.780465020098,2064.849249361922,2081.0440627413286,2097.36589361631,2113.8157381974315,2130.3946005086336,2147.1034924485148,2163.9434338520923,2180.9154525530494,2198.020584446467,2215.2598735520546,2232.634372077867,2250.1451404845307,2267.7932475499674,2285.5797704346282,2303.505794747238,2321.572414611057,2339.7807327306596,2358.13186045924,2376.626917866444,2395.2670338067314,2414.0533459882777,2432.9870010424147,2452.0691545936147,2471.3009713300253,2490.683625074556,2510.218298856524,2529.90618498386,2549.7484851158824,2569.7464103366397,2589.901181228831,2610.214027948303,2630.686190299136,2651.318917809312,2672.113469806985,2693.07111549734,2714.193134040063,2735.480814627413,2756.935456562909,2778.558369340635,2800.3508727251633,2822.314296832108,2844.4499822093103,2866.7592799186573,2889.243551618546,2911.9041696469935,2934.742517105396,2957.7599879429495,2980.9579870417283};
#endif
#if OCT_ == 4
static const double EXP_REF[513] = {2980.9579870417283,3027.9012447308146,3075.5837511620985,3124.0171478093453,3173.213259472856,3223.184097166442,3273.9418610498587,3325.498943407423,3377.8679316735347,3431.0616115058406,3485.092969906799,3539.9751983943984,3595.7216962228085,3652.3460736537486,3709.862155279374,3768.283983397487,3827.6258214399063,3887.9021574548156,3949.1277076439605,4011.317419955544,4074.4864777337,4138.650303425442,4203.824562345984,4270.025166503361,4337.2682784832705,4405.570315395101,4474.947952880096,4545.418129182638,4616.998049285644,4689.705189111091,4763.55729978668,4838.5724119797005,4914.768840299134,4992.165187767088,5070.780350360642,5150.633521625214,5231.744197360583,5314.132180380701,5397.817585348465,5482.820843686621,5569.162708566004,5656.864259972339,5745.946909852821,5836.432407343751,5928.342844080489,6021.7006595910325,6116.528646774525,6212.849957466045,6310.688108089024,6410.066985396673,6511.010852303835,6613.544353810665,6717.692523019596,6823.480787247066,6930.934974231482,7040.081318438947,7150.946467468294,7263.557488556975,7377.941875189409,7494.127553809398,7612.142890638241,7732.016698600223,7853.778244357167,7977.457255453756,8103.083927575384,8230.688931920298,8360.303422687839,8491.959044684598,8625.687941050362,8761.522761105713,8899.49666832322,9039.643348424153,9181.99701760271,9326.592430879735,9473.464890588019,9622.650254991197,9774.184947038395,9928.105963256727,10084.45088278383,10243.257876542657,10404.565716560723,10568.413785436143,10734.842085952703,10903.891250846376,11075.602552725617,11250.017914147893,11427.179917854888,11607.131817168894,11789.917546552919,11975.581732337087,12164.169703613969,12355.727503305474,12550.301899404027,12747.94039639077,12948.69124683357,13152.603463167674,13359.726829661873,13570.111914573114,13783.810082492524,14000.873506885837,14221.355182831325,14445.308939958304,14672.789455589415,14903.852268089833,15138.553790426726,15376.951323942234,15619.103072343327,15865.068155911998,16114.906625939208,16368.67947938615,16626.448673776387,16888.277142322506,17154.228809290984,17424.36860560903,17698.762484717157,17977.47743867145,18260.581514499365,18548.14383081312,18840.234594684698,19136.92511878659,19438.287838802466,19744.396331112046,20055.325330754426,20371.15074967432,20691.949695255636,21017.800489146885,21348.78268638307,21684.977094808713,22026.465794806718,22373.332159337933,22725.66087429631,23083.537959184578,23447.050788115514,23816.28811114398,24191.340075934822,24572.298249772055,24959.255641914595,25352.306726304058,25751.547464630166,26157.07532975937,26568.989329532407,26987.390030936644,27412.379584659062,27844.06175002589,28282.541920334977,28727.92714858714,29180.326173622627,29639.849446669275,30106.60915830866,30580.71926586695,31062.29552123707,31551.455499139025,32048.31862582525,32553.006208238,33065.6414636259,33586.34954962692,34115.257594825,34652.49472978803,35198.192118594394,35752.482990856195,36315.502674246636,36887.38862753968,37468.28047417,38058.32003632144,38657.65136955225,39266.42079796566,39884.776949934196,40512.87079438672,41150.85567766677,41798.88736097143,42457.12405837971,43125.72647547984,43804.85784860481,44494.683984685835,45195.37330173334,45907.096869955516,46630.028453524326,47364.3445529993,48110.22444841931,48867.85024307306,49637.40690795877,50419.082326944044,51213.06734263688,52019.55580297904,52838.744608573186,53670.83376075531,54516.02641042414,55374.528907639564,56246.55085200208,57132.30514382561,58032.00803611618,58945.879187369144,59874.14171519782,60817.02225080668,61774.75099432236,62747.56177099603,63735.692088290736,64739.38319386787,65758.88013448668,66794.43181583138,67846.29106328034,68914.71468363234,69999.96352780478,71102.30255451928,72222.00089499021,73359.33191863187,74514.57329980044,75688.00708558693,76879.91976467776,78090.60233729969,79320.35038626625,80569.46414914298,81838.2485915491,83127.01348161357,84436.0734656035,85765.74814474382,87116.36215324633,88488.24523756784,89881.73233691623,91297.16366502448,92734.88479321224,94195.24673475562,95678.60603058552,97185.3248363355,98715.7710107605,100270.31820554796,101849.34595654317,103453.23977641136,105082.39124875881,106737.19812373637,108418.0644151483,110125.40049909058,111859.62321414231,113621.1559631351,115410.42881652492,117227.878617392,119073.94908809406,120949.09093859921,122853.76197652482,124788.42721890919,126753.55900574342,128749.63711529115,130777.14888122429,132836.58931160343,134928.46120973182,137053.2752969126,139211.5503371392,141403.8132637492,143630.59930807285,145892.4521301074,148189.92395124934,150523.57568911673,152893.97709449488,155301.7068904384,157747.3529135639,160231.51225756778,162754.79141900392,165317.80644535722,167921.1830854488,170565.55694220998,173251.57362786165,175979.88892153793,178751.16892939166,181566.09024722115,184425.34012565826,187329.61663795754,190279.62885042766,193276.09699554692,196319.7526478048,199411.33890231265,202551.6105562271,205741.33429303044,208981.28886971297,212272.2653069032,215615.06708199196,219010.51032529786,222459.42401932197,225962.65020114023,229521.044167983,233135.4746860522,236806.8242026268,240535.9890615083,244323.87972185915,248171.42098048746,252079.55219763189,256049.22752630242,260081.41614523262,264177.1024955003,268337.2865208745,272562.9839119472,276855.22635411005,281215.0617794355,285643.5546225249,290141.78608038544,294710.8543763999,299351.8750284526,304065.98112127866,308854.3235831012,313718.07146662584,318658.4122344593,323676.55204902356,328773.7160670348,333951.1487386202,339210.11411114497,344551.8961378237,349977.7989911922,355489.1473815151,361087.28688020865,366773.5842483551,372549.42777039245,378416.22759305715,384375.4160696656,390428.44810981676,396576.80153460207,402821.97743740893,409165.5005504057,415608.9196167989,422153.8077689516,428801.76291245676,435554.40811625926,442413.3920089205,449380.38918112416,456457.1005945199,463645.25399700593,470946.6043445507,478362.93422965787,485896.05431657843,493547.8037833763,501320.0507709557,509214.6928391592,517233.657430049,525378.902338483,533652.4161901023,542056.2189268448,550592.3623001054,559262.9303716624,568070.0400224912,577015.8414695924,586102.5187909568,595332.2904587992,604707.4098811887,614230.165952207,623902.8836107741,633727.9244082695,643707.6870850961,653844.6081563217,664141.1625065432,674599.8639941189,685223.2660649162,696013.9623757235,706974.5874274808,718107.8172084811,729416.3698477013,740903.0062784211,752570.5309122931,764421.7923240273,776459.683946858,788687.1447789633,801107.1601010077,813722.7622049857,826537.0311345428,839553.095436954,852774.1329269451,866203.3714625422,879844.0897331391,893699.6180599744,907773.3392092151,922068.6892178445,936589.1582325544,951338.29136185,966319.689541572,981537.0104140493,996993.9692210965,1012694.3397110734,1028641.9550602295,1044840.7088085568,1061294.55581038,1078007.513199918,1094983.661372048,1112227.1449785174,1129742.1739398406,1147533.024473134,1165604.040136135,1183959.6328876624,1202604.2841647768,1221542.5459769035,1240779.042017186,1260318.4687913398,1280165.5967642837,1300325.2715248284,1320802.4149687043,1341602.0265002223,1362729.184252855,1384189.0463290408,1405986.8520595129,1428127.9232824577,1450617.6656428187,1473461.5699120602,1496665.2133287156,1520234.2609600462,1544174.4670851405,1568491.676599798,1593191.8264435339,1618280.9470490562,1643765.1638145708,1669650.6985992682,1695943.8712423658,1722651.1011060663,1749778.908642818,1777333.916987254,1805322.8535732022,1833752.5517761568,1862629.9525816191,1891962.1062797068,1921756.1741864516,1952019.430392204,1982759.2635375687,2013983.17861731,2045698.7988126625,2077913.8673524973,2110636.2494037976,2143873.933991904,2177635.035951,2211927.7979053133,2246760.5922815157,2282141.9233528147,2318080.429315233,2354584.884396589,2391664.2009986816,2429327.431873217,2467583.7723319987,2506442.5624919175,2545913.289555306,2586005.5901261936,2626729.252563041,2668094.2193685267,2710110.589616963,2752788.6214199425,2796138.734430808,2840171.5123885684,2884897.7057018704,2930328.2340736617,2976474.1891671913,3023346.837313988,3070957.6222644863,3119318.1679819687,3168440.2814805033,3218335.955707575,3269017.3724721107,3320496.9054186144,3372787.123048139,3425900.791786827,3479850.879102782,3534650.5566720148,3590313.203594252,3646852.4096593847,3704281.9786653533,3762615.931788287,3821868.51100571,3882054.1825736584,3943187.640558553,4005283.81042469,4068357.852678228,4132425.1665685596,4197501.3938479675,4263602.422590492,4330744.391070935,4398943.691704944,4468216.975051153,4538581.153876341,4610053.40728461,4682651.184911585,4756392.211184672,4831294.48965039,4907376.307369865,4984656.239383532,5063153.1532461485,5142886.213633227,5223874.887020008,5306138.946434105,5389698.476283012,5474573.877257622,5560785.871312956,5648355.506727353,5737304.163241297,5827653.5572772,5919425.747241364,6012643.138909445,6107328.490896726,6203504.920214531,6301195.907914141,6400425.3048195895,6501217.337350737,6603596.613438047,6707588.128530493,6813217.271698104,6920509.831830581,7029492.0039335415,7140190.395523925,7252632.033126088,7366844.36887022,7482855.287194655,7600693.111653737,7720386.61183289,7841965.010372585,7965457.990102918,8090895.701290546,8218308.768999739,8347728.30056935,8479185.893207546,8612713.641706115,8748344.146276277,8886110.520507872};
#endif
#if OCT_ == 5
static const double EXP_REF[513] = {8886110.520507872,9168185.947842417,9459215.410412326,9759483.139806837,10069282.390094347,10388915.72422665,10718695.309534611,11058943.22260389,11409991.763828445,11772183.781949056,12145873.008893793,12531424.405247461,12929214.51668743,13339631.841733953,13763077.211174121,14199964.179530034,14650719.428953517,15115783.18594181,15595609.651281245,16090667.443638803,16601440.057234775,17128426.334043503,17672140.95098341,18233114.922572054,18811896.11953723,19409049.80389049,20025159.180985764,20660825.96910219,21316670.987107445,21993334.760775495,22691478.148350973,23411782.98597106,24154952.7535753,24921713.26195361,25712813.361603595,26529025.67408935,27371147.346616127,28240000.830557745,29136434.684697136,30061324.403964467,31015573.27448223,32000113.2557524,33015905.890847184,34063943.24549237,35145248.87696034,36260878.833719075,37411922.68681341,38599504.59398585,39824784.39757623,41088958.75727239,42393262.318818316,43738968.91982092,45127392.83383338,46559890.053929836,48037859.61702515,49562744.97023307,51136035.38059728,52759267.38957211,54434026.313673414,56161947.79276523,57944719.3874943,59784082.22743269,61681832.71153795,63639824.26259178,65659969.13733051,67744240.2940353,69894673.31940599,72113368.41660056,74402492.45638163,76764281.09337346,79201040.94949608,81715151.86670905,84309069.23126505,86985326.37174316,89746537.03320384,92595397.92988214,95534691.37891196,98567288.01765378,101696149.60727958,104924331.92535317,108254987.75023076,111691369.9401967,115236834.61034139,118894844.41028416,122668971.90594222,126562903.06864852,130580440.87502606,134725509.0211345,139002155.7545164,143414557.82788575,147967024.57831997,152664002.1359393,157510077.7661843,162509984.34993166,167668605.00582433,172990977.8593303,178482300.96318725,184147937.3740392,189993420.39022255,196024458.95581773,202246943.23624337,208666950.37083933,215290750.4080559,222124812.42904645,229175810.8656434,236450632.0188888,243956380.78448477,251700387.59173292,259690215.5627394,267933667.89887723,276438795.50172055,285213904.8358928,294267566.0415088,303608621.30413353,313246193.49043137,323189695.0579409,333448837.24767584,344033639.5685308,354954439.5827541,366221903.00204504,377847034.1041358,389841186.4800308,402216074.12240005,414983782.86595666,428156782.1909899,441747937.401583,455770522.19040954,470238231.60237855,485165195.4097903,500565991.912065,516455662.17352223,532849724.7131153,549764190.6604683,567215579.393018,585220934.6695302,603797841.2757508,622964442.1984454,642739456.344602,663142196.8231003,684192589.8067062,705911193.9928068,728319220.6818986,751438554.493433,775291774.7392547,799902177.4755054,825293798.25453,851491435.5990057,878520675.2212209,906407915.0111549,935180390.8177661,964866203.0486645,995494344.1141502,1027094726.7424176,1059698213.1935816,1093336645.4010565,1128042876.069724,1163850800.761265,1200795390.997987,1238912728.4174805,1278240040.0114615,1318815734.4832146,1360679439.7591438,1403872041.691069,1448435723.9870658,1494414009.409845,1541851802.2829096,1590795432.3460019,1641292700.0026722,1693392923.0041597,1747146984.6151772,1802607383.3086452,1859828284.0379028,1918865571.1364748,1979776902.8970582,2042621767.883031,2107461543.0274796,2174359553.5764885,2243381134.935234,2314593696.4772825,2388066787.3794155,2463872164.546273,2542083862.6911616,2622778266.64146,2706034185.93925,2791932931.8100224,2880558396.574632,2971997135.5820627,3066338451.74301,3163674482.7468557,3264100291.047202,3367713956.703853,3474616673.171919,3584912846.131592,3698710195.455115,3816119860.410532,3937256508.2049623,4062238445.9734063,4191187736.322462,4324230316.541787,4461496121.599748,4603119211.043354,4749237899.926452,4899994893.893999,5055537428.554399,5216017413.275967,5381591579.548001,5552421634.051333,5728674416.587858,5910522063.023291,6098142173.402276,6291717985.400048,6491438553.280035,6697498932.532188,6910100370.372363,7129450502.288794,7355763554.827629,7589260554.81557,7830169545.223947,8078725807.885054,8335172093.278267,8599758857.610348,8872744507.42149,9154395651.955996,9444987363.544048,9744803446.248903,10054136713.041842,10373289271.775618,10702572820.23566,11042308950.557222,11392829463.305748,11754476691.527246,12127603835.0851,12512575305.609886,12909767082.39907,13319567079.614166,13742375525.133991,14178605351.434013,14628682598.873543,15093046831.784616,15572151567.768997,16066464720.622478,16576469057.319155,17102662669.501904,17645559459.939594,18205689644.4261,18783600269.611313,19379855747.26984,19995038405.52925,20629749057.596176,21284607588.535683,21960253560.677063,22657346838.237255,23376568231.771927,24118620163.08364,24884227351.236477,25674137520.34709,26489122129.84347,27329977127.90459,28197523728.816822,29092609215.00627,30016107764.530365,30968921304.836834,31951980393.623913,32966245127.662056,34012706080.464737,35092385269.72414,36206337155.4565,37355649669.832054,38541445279.69526,39764882082.81299,41027154938.921486,42329496636.6765,43673179097.646416,45059514618.5243,46489857152.77189,47965603632.9474,49488195335.00849,51059119285.92285,52679909715.9612,54352149557.09089,56077471988.9338,57857562033.79804,59694158202.3415,61589054191.474335,63544100636.158615,65561206916.81619,67642343024.10967,69789541482.91808,72004899337.38588,74290580198.98438,76648816359.58551,79081910971.61172,81592240297.39134,84182256029.91615,86854487687.26756,89611545083.0503,92456120875.24577,95390993195.97499,98419028364.73895,101543183687.7866,104766510346.34425,108092156376.52722,111523369743.84406,115063501515.29599,118716009132.16965,122484459786.7193,126372533906.03659,130384028746.51009,134522862102.38527,138793076132.04688,143198841305.76044,147744460478.72852,152434373093.43985,157273159515.41516,162265545506.58438,167416406840.66406,172730774065.04282,178213837413.82492,183870951876.83078,189707642429.50494,195729609428.83878,201942734180.5786,208353084683.15567,214966921553.94815,221790704143.66275,228831096844.80795,236094975600.4193,243589434619.39413,251321793304.9936,259299603403.27927,267530656378.46527,276022991022.3893,284784901305.5342,293824944477.26746,303151949423.2106,312775025287.8989,322703570371.15485,332947281306.86176,343516162533.1038,354420536062.92017,365671051565.2158,377278696765.67584,389254808177.8391,401611082174.8133,414359586412.444,427512771615.0939,441083483735.5426,455084976500.8837,469530924356.67084,484435435821.955,499813067268.2567,515678837135.9294,532048240601.79865,548937264712.40216,566362403997.6107,584340676579.8783,602889640794.8547,622027412339.5934,641772681965.1016,662144733730.5117,683163463836.7042,704849400057.7712,727223721789.3031,750308280733.075,774125622238.336,798699007320.5441,824052435379.0488,850210667635.914,877199251318.7649,905044544611.2843,933773742395.7201,963414902812.5496,993996974663.2367,1025549825682.847,1058104271710.1313,1091692106783.5673,1126346134192.752,1162100198515.4714,1198989218671.7363,1237049222027.064,1276317379578.317,1316832042256.4583,1358632778381.6807,1401760412307.4883,1446257064291.475,1492166191631.7354,1539532631109.0857,1588402642776.547,1638823955138.8547,1690845811766.1184,1744519019387.1614,1799895997509.5032,1857030829614.4512,1915979315977.2993,1976799028164.2188,2039549365259.0657,2104291611875.0205,2171088998007.713,2240006760788.29,2311112208196.738,2384474784797.6777,2460166139562.8457,2538260195846.4834,2618833223581.9907,2701963913770.3423,2787733455333.0244,2876225614404.5425,2967526816141.9424,3061726229131.251,3158915852473.2554,3259190605633.689,3362648421145.5664,3469390340254.2046,3579520611598.344,3693146793023.7476,3810379856628.7046,3931334297144.042,4056128243753.484,4184883575463.5703,4317726040135.812,4454785377297.33,4596195444849.923,4742094349801.313,4892624583146.249,5047933159029.1875,5208171758324.484,5373496876774.296,5544069977828.898,5720057650338.662,5901631771251.722,6088969673476.217,6282254319071.05,6481674477934.32,6687424912163.923,6899706566270.394,7118726763427.749,7344699407954.004,7577845194219.106,7818391822184.32,8066574219783.568,8322634772363.915,8586823559409.264,8859398598778.488,9140626098696.492,9430780717744.348,9730145833102.387,10039013817308.252,10357686323800.19,10686474581524.463,11025699698894.596,11375692977399.34,11736796235165.61,12109362140792.404,12493754557781.783,12890348899903.223,13299532497838.46,13721704977464.906,14157278650147.04,14606678915417.002,15070344676437.637,15548728768653.729,16042298402050.125,16551535617448.605,17076937757289.188,17619017951355.633,18178305617919.52,18755346980792.363,19350705602790.723,19964962936135.277,20598718890321.5,21252592418016.44,21927222119553.875,22623266866618.21,23341406445726.223,24082342222135.09,24846797824825.17,25635519853226.414,26449278606378.715,27288868835238.293,28155110518864.83,29048849665247.426,29970959137551.547,30922339506593.8,31903919930377.207,32916659061545.914,33961545983645.598,35039601177103.973,36151877515874.82,37299461295718.88,38483473295125.9,39705069869913.914,40965444082574.94,42265826867469.81,43607488233010.43,44991738502003.2,46419929591365.36,47893456332463.73,49413757833365.6,50982318884332.1,52600671407926.66,54270395955154.87,55993123249097.0,57770535777540.57,59604369436168.53,61496415223907.89,63448520992094.414,65462593249161.84,67540599022617.99,69684567780126.45,71896593411569.84,74178836274030.61,76533525301686.38,78962960182680.69};
#endif
#if OCT_ == 6
static const double EXP_REF[513] = {78962960182680.69,84055633574215.17,89476756180582.03,95247511156173.9,101390447851464.12,107929569925083.73,114890429138639.3,122300225200776.5,130187912050632.94,138584310995984.38,147522231148174.75,157036597624431.66,167164588018521.0,177945777673002.4,189422294320740.4,201638982699936.06,214643579785916.06,228486901324401.12,243223040395136.7,258909578781777.72,275607811973959.38,293382988680755.0,312304565791424.75,332446479779719.75,353887435612259.9,376711214289901.4,401007000223818.4,426869729725527.5,454400461972588.25,483706773899535.7,514903180557089.6,548111582582204.0,583461742527454.9,621091791911034.5,661148770968660.4,703789203216491.9,749179707070171.0,797497646909902.1,848931826135622.4,903683224920389.6,961965785544776.4,1024007248380980.4,1090050041793277.8,1160352229432125.2,1235188518623482.0,1314851333793656.0,1399651959124103.5,1489921754901134.5,1586013452313430.8,1688302531756831.8,1797188690032140.8,1913097402169060.2,2036481583979116.2,2167823361834034.8,2307635956585016.0,2456465688984363.5,2614894114445696.5,2783540295484367.0,2963063220717690.0,3154164379877287.0,3357590504895458.5,3574136487776433.5,3804648486654153.0,4050027232173565.5,4311231547115195.0,4589282093015996.0,4885265358426484.0,5200337904388362.0,5535730883721925.0,5892754851782454.0,6272804887483755.0,6677366044599323.0,7108019154642244.0,7566447003998676.0,8054440909452229.0,8573907717793223.0,9126877256863956.0,9715510267155114.0,1.034210684494619e+16,1.1009115429981686e+16,1.1719142372802612e+16,1.2474962119117874e+16,1.3279528051011176e+16,1.4135984027345678e+16,1.504767666846084e+16,1.601816843316412e+16,1.7051251539116176e+16,1.815096278100379e+16,1.9321599304402836e+16,2.0567735396967988e+16,2.189424036256114e+16,2.330629754816208e+16,2.4809424597909428e+16,2.6409495013415028e+16,2.8112761104599136e+16,2.9925878420727304e+16,3.1855931757113756e+16,3.3910462839113064e+16,3.609749979157584e+16,3.8425588508921064e+16,4.090382604840425e+16,4.354189617706632e+16,4.635010721126383e+16,4.9339432296639064e+16,5.252155228592516e+16,5.590890138213197e+16,5.951471572546453e+16,6.3353085113828584e+16,6.7439008059022056e+16,7.178845039374584e+16,7.641840765844206e+16,8.13469715117377e+16,8.659340042399374e+16,9.217819493019677e+16,9.812317773624478e+16,1.0445157899164483e+17,1.1118812706182702e+17,1.1835914515476976e+17,1.2599265417950702e+17,1.341184822384393e+17,1.4276838118129198e+17,1.519761506761581e+17,1.61777770282436e+17,1.722115400417395e+17,1.8331823013614275e+17,1.951412401985529e+17,2.0772676889771862e+17,2.2112399446053222e+17,2.3538526683702e+17,2.5056631225890954e+17,2.6672645099109133e+17,2.8392882912684272e+17,3.022406653325598e+17,3.2173351350615706e+17,3.424835423754785e+17,3.6457183312925677e+17,3.8808469624362035e+17,4.1311400874215443e+17,4.3975757320736755e+17,4.681194999464077e+17,4.9831061380435014e+17,5.304488872146881e+17,5.646599011791801e+17,6.010773359783433e+17,6.398434935300549e+17,6.811098534373887e+17,7.250376648984557e+17,7.717985767911498e+17,8.21575308394869e+17,8.745623633700696e+17,9.309667897855466e+17,9.91008989163262e+17,1.0549235777020814e+18,1.1229603030456696e+18,1.1953850201768356e+18,1.272480730251655e+18,1.3545486864326382e+18,1.4419095710420083e+18,1.5349047486348454e+18,1.6338975998885028e+18,1.739274941520501e+18,1.8514485377832573e+18,1.9708567094418506e+18,2.0979660465219356e+18,2.2332732315204086e+18,2.3773069802030566e+18,2.5306301075729034e+18,2.693841727082062e+18,2.8675795916805714e+18,3.052522585849906e+18,3.2493933783588413e+18,3.45896124610737e+18,3.6820450800929096e+18,3.919516585244668e+18,4.172303686629599e+18,4.441394155339765e+18,4.727839468229346e+18,5.032758916583298e+18,5.357343979772371e+18,5.702862980984642e+18,6.070666043225937e+18,6.462190364954817e+18,6.878965835966781e+18,7.3226210154719e+18,7.794889495725307e+18,8.297616676076616e+18,8.832766973907984e+18,9.402431500637719e+18,1.0008836232783585e+19,1.065435071001443e+19,1.1341497294177921e+19,1.2072961025484294e+19,1.2851600114359308e+19,1.3680457109963612e+19,1.45627707890197e+19,1.5501988811402332e+19,1.6501781191944438e+19,1.7566054641099803e+19,1.8698967830499086e+19,1.9904947643049587e+19,2.1188706471076393e+19,2.255526063009781e+19,2.4009949960187265e+19,2.555845869151442e+19,2.720683765559811e+19,2.896152792906195e+19,3.0829386002281275e+19,3.2817710571268235e+19,3.4934271057485095e+19,3.718733796702744e+19,3.9585715207806435e+19,4.213877449101039e+19,4.485649195126981e+19,4.774948712862027e+19,5.0829064464585925e+19,5.4107257474530394e+19,5.759687576887954e+19,6.131155510695259e+19,6.526581067898802e+19,6.9475093824564806e+19,7.395585240904763e+19,7.872559509397822e+19,8.380295975255084e+19,8.920778629750676e+19,9.496119420602448e+19,1.010856650445358e+20,1.0760513031593512e+20,1.145450649724471e+20,1.2193258695955613e+20,1.2979656317996755e+20,1.3816772229165731e+20,1.4707877478077081e+20,1.5656454077855836e+20,1.666620861217946e+20,1.7741086718834144e+20,1.8885288507380174e+20,2.0103284971171326e+20,2.1399835457858558e+20,2.278000626664437e+20,2.4249190444957044e+20,2.5813128861900675e+20,2.7477932640825937e+20,2.9250107038677395e+20,3.113657686542637e+20,3.314471354291638e+20,3.528236390885422e+20,3.755788087849878e+20,3.9980156083858984e+20,4.255865461793903e+20,4.530345201979507e+20,4.8225273644922955e+20,5.133553657481797e+20,5.4646394229468837e+20,5.817078385711047e+20,6.192247708680256e+20,6.591613374136944e+20,7.016735912097631e+20,7.469276498117881e+20,7.951003444371878e+20,8.463799109370679e+20,9.009667253319002e+20,9.590740867851767e+20,1.0209290510745268e+21,1.0867733178171021e+21,1.156864174916083e+21,1.2314755039187517e+21,1.3108988502145898e+21,1.395444562255224e+21,1.4854430042477437e+21,1.5812458470600215e+21,1.6832274423822698e+21,1.7917862855144068e+21,1.9073465724950998e+21,2.030359857657005e+21,2.1613068180851356e+21,2.3006991318730167e+21,2.449081477515956e+21,2.607033662254099e+21,2.7751728876818226e+21,2.9541561614763756e+21,3.144682864669655e+21,3.3474974844947886e+21,3.5633925234861754e+21,3.793211596200362e+21,4.0378527256582543e+21,4.298271852389587e+21,4.5754865697913187e+21,4.870580100395943e+21,5.184705528587072e+21,5.51909030630173e+21,5.875041049325463e+21,6.253948642921922e+21,6.657293676747253e+21,7.086652230286353e+21,7.543702031417714e+21,8.030229012171556e+21,8.548134287298057e+21,9.099441582914548e+21,9.686305144259293e+21,1.0311018153451574e+22,1.0976021690150659e+22,1.1683914270127614e+22,1.2437461999022152e+22,1.3239609380960524e+22,1.4093490824269389e+22,1.500244288924446e+22,1.5970017325832368e+22,1.6999994952170766e+22,1.8096400428217361e+22,1.926351798219616e+22,2.0505908151312355e+22,2.182842560215057e+22,2.3236238100390023e+22,2.4734846703961226e+22,2.6330107258549404e+22,2.802825327943875e+22,2.9835920309108873e+22,3.176017184576122e+22,3.3808526944091826e+22,3.59889895961609e+22,3.831008000716577e+22,4.078086788832783e+22,4.341100789698624e+22,4.621077736238129e+22,4.919111644454174e+22,5.236367088319788e+22,5.5740837503762596e+22,5.933581265819609e+22,6.316264379003792e+22,6.723628432509791e+22,7.157265210229245e+22,7.618869157294599e+22,8.110244001160283e+22,8.633309799706931e+22,9.190110443909282e+22,9.78282164438458e+22,1.0413759433029089e+23,1.1085389212963054e+23,1.180033539214698e+23,1.2561391638312768e+23,1.3371531795281072e+23,1.423392150332068e+23,1.5151930568956632e+23,1.612914613256246e+23,1.7169386685189163e+23,1.827671698940194e+23,1.9455463962428267e+23,2.071023358368099e+23,2.2045928892722977e+23,2.346776914800075e+23,2.498131022121029e+23,2.659246630698644e+23,2.830753303274694e+23,3.0133212058993384e+23,3.207663726619528e+23,3.414540263058299e+23,3.634759189777489e+23,3.869181017018906e+23,4.118721753166793e+23,4.384356484070503e+23,4.667123183213639e+23,4.968126767618e+23,5.288543415330857e+23,5.629625161366229e+23,5.992704790058911e+23,6.379201042948225e+23,6.790624162541414e+23,7.228581793619065e+23,7.694785265142018e+23,8.191056277306469e+23,8.719334019877086e+23,9.281682749613143e+23,9.880299856396672e+23,1.051752444958118e+24,1.1195846498112274e+24,1.1917916560135437e+24,1.2686556140109568e+24,1.3504768713896983e+24,1.4375751464910606e+24,1.530290777717764e+24,1.6289860534136614e+24,1.7340466275133148e+24,1.845883026493125e+24,1.96493225351246e+24,2.091659496012996e+24,2.226559943448757e+24,2.370160722249664e+24,2.5230229555795193e+24,2.6857439559369585e+24,2.858959559167024e+24,3.0433466090035433e+24,3.239625601850729e+24,3.4485635021385364e+24,3.67097673925284e+24,3.907734397751e+24,4.1597616133286576e+24,4.4280431878075717e+24,4.7136274372701344e+24,5.017630288377249e+24,5.341239638876002e+24,5.685719999335932e+24,6.052417434251555e+24,6.442764821818629e+24,6.85828745293684e+24,7.300608991317146e+24,7.771457817983004e+24,8.272673784956787e+24,8.806215404521535e+24,9.37416750215027e+24,9.978749363006833e+24,1.0622323403850894e+25,1.1307404404232772e+25,1.2036669333049185e+25,1.2812967808857385e+25,1.3639333234821592e+25,1.4518994651801788e+25,1.545538935590104e+25,1.645217632977472e+25,1.7513250540184755e+25,1.864275815766688e+25,1.9845112757782117e+25,2.1125012567259185e+25,2.2487458822417544e+25,2.3937775311607007e+25,2.5481629178026397e+25,2.712505306420875e+25,2.8874468684703116e+25,3.073671191906372e+25,3.2719059523197854e+25,3.482925756344774e+25,3.7075551684513064e+25,3.946671932948686e+25,4.2012104037905144e+25,4.472165195583065e+25,4.760595070063478e+25,5.067627073234251e+25,5.39446093931999e+25,5.7423737787549605e+25,6.1127250685198654e+25,6.5069619643276894e+25,6.926624955416095e+25,7.3733538840425984e+25,7.848894353203823e+25,8.355104547617145e+25,8.89396249461786e+25,9.467573793343974e+25,1.00781798424106e+26,1.0728166598223749e+26,1.1420073898156842e+26,1.2156605385020439e+26,1.2940639071605268e+26,1.377523858657976e+26,1.466366514568564e+26,1.560939029500931e+26,1.6616109476123623e+26,1.768775646610613e+26,1.8828518748858514e+26,2.0042853877790917e+26,2.1335506893808764e+26,2.271152886666322e+26,2.417629663211601e+26,2.5735533802041997e+26,2.739533312956698e+26,2.916218031663291e+26,3.10429793570192e+26,3.304507951384843e+26,3.517630403699173e+26,3.7444980732587624e+26,3.985997450412553e+26,4.243072199224878e+26,4.516726844863299e+26,4.808030698802528e+26,5.118122037182254e+26,5.448212548645896e+26,5.799592069040305e+26,6.173633621477368e+26,6.571798781451656e+26,6.995643387978429e+26,7.446823623068398e+26,7.927102483294929e+26,8.438356668741454e+26,8.982583916247846e+26,9.561910805610517e+26,1.01786010692392e+27,1.0835064437740529e+27,1.1533866055992745e+27,1.2277736506505062e+27,1.3069582479228156e+27,1.391249812950831e+27,1.480977716856668e+27,1.5764925733747457e+27,1.6781676088825738e+27,1.7864001207909335e+27,1.9016130299921432e+27,2.0242565334326378e+27,2.1548098632673176e+27,2.29378315946961e+27,2.4417194632145004e+27,2.599196838823726e+27,2.766830632564673e+27,2.94527587712929e+27,3.1352298511885676e+27,3.337434804024095e+27,3.552680855883261e+27,3.7818090853912897e+27,4.025714816084246e+27,4.2853511149052095e+27,4.5617325163340667e+27,4.8559389867030376e+27,5.169120144188588e+27,5.502499750969439e+27,5.857380495103869e+27,6.235149080811617e+27};
#endif
#if OCT_ == 7
static const double EXP_REF[513] = {6.235149080811617e+27,7.065349535562728e+27,8.006089896599325e+27,9.072088381445472e+27,1.0280022915520465e+28,1.1648792064213541e+28,1.3199810707660696e+28,1.4957345084160647e+28,1.6948892444103338e+28,1.9205611254231717e+28,2.17628086829355e+28,2.466049299345766e+28,2.7943999487401853e+28,3.16646997916496e+28,3.58808055857332e+28,4.065827934426511e+28,4.607186634331292e+28,5.220626407682661e+28,5.91574473790543e+28,6.703416998495756e+28,7.595966602107334e+28,8.607357804725202e+28,9.753414181417038e+28,1.1052066191792762e+29,1.2523631708422137e+29,1.41911338971772e+29,1.6080661422850546e+29,1.822177661559449e+29,2.0647977984090163e+29,2.3397224311629656e+29,2.6512528534780684e+29,3.0042630696076825e+29,3.404276049931741e+29,3.857550139792598e+29,4.371176973533702e+29,4.953192425641046e+29,5.612702334857472e+29,6.360024968268308e+29,7.206852454259625e+29,8.166433710025155e+29,9.253781725587787e+29,1.0485908447367869e+30,1.1882090936135266e+30,1.3464172963481035e+30,1.5256906765392722e+30,1.728834029978956e+30,1.9590256066799412e+30,2.2198668357276763e+30,2.515438670919167e+30,2.850365438736528e+30,3.229887187579442e+30,3.659941670186007e+30,4.1472572418860906e+30,4.699458128113416e+30,5.325183708124041e+30,6.034223681157423e+30,6.837671229762744e+30,7.748096576585197e+30,8.779743649969888e+30,9.948752935286671e+30,1.1273413998564138e+31,1.2774451633254859e+31,1.4475350106999736e+31,1.640272058134747e+31,1.8586717452841279e+31,2.1061510129277277e+31,2.3865817622241842e+31,2.7043514319818344e+31,3.0644316416992722e+31,3.4724559743205654e+31,3.9348081156440077e+31,4.458721729356802e+31,5.052393630276104e+31,5.725112026432054e+31,6.487401836385766e+31,7.351189355323418e+31,8.329988846186052e+31,9.439113975119642e+31,1.0695917399228284e+32,1.2120062255066083e+32,1.3733829795401761e+32,1.5562467987342595e+32,1.7634586525759267e+32,1.998260444213721e+32,2.2643257311854073e+32,2.5658171995321547e+32,2.9074517905021176e+32,3.294574498773849e+32,3.7332419967990015e+32,4.2303173935968986e+32,4.793577610536014e+32,5.431835054034658e+32,6.155075488793534e+32,6.974614268635932e+32,7.903273369242622e+32,8.955581992521521e+32,1.0148003881138887e+33,1.149919489962868e+33,1.3030294912028178e+33,1.4765258522569268e+33,1.6731229853981137e+33,1.895896722694423e+33,2.148332438495651e+33,2.4343795793546299e+33,2.7585134545231703e+33,3.1258052537569576e+33,3.542001387882855e+33,4.0136133934400086e+33,4.5480198079848415e+33,5.1535816099353074e+33,5.839773029051838e+33,6.617329774131465e+33,7.498416996990121e+33,8.496819620589352e+33,9.628158009058682e+33,1.091013235384782e+34,1.236279959951699e+34,1.4008887241767858e+34,1.5874148907196847e+34,1.7987767277942558e+34,2.0382810665126688e+34,2.3096750374342314e+34,2.6172046957556635e+34,2.965681452354764e+34,3.36055735002478e+34,3.808010362622932e+34,4.31504105166862e+34,4.889582092618148e+34,5.54062238439351e+34,6.278347683902937e+34,7.114299965830304e+34,8.061558000933985e+34,9.134941978066843e+34,1.0351245371301657e+35,1.1729497679805617e+35,1.3291262151122665e+35,1.5060973145850306e+35,1.7066318421901286e+35,1.9338672319323323e+35,2.1913586623007478e+35,2.4831346783006824e+35,2.8137602194730096e+35,3.1884080399968143e+35,3.6129396382682216e+35,4.0939969621274545e+35,4.639106324495012e+35,5.256796155214053e+35,5.956730431368444e+35,6.749859873641241e+35,7.648593274234417e+35,8.666991636836061e+35,9.820988166023903e+35,1.1128637547917594e+36,1.2610398422164221e+36,1.4289453464631733e+36,1.619207208861785e+36,1.8348021439163853e+36,2.0791032110625487e+36,2.3559325873817982e+36,2.66962136692141e+36,3.0250773222011426e+36,3.4278616880597616e+36,3.884276169151959e+36,4.4014615323588804e+36,4.9875093266256084e+36,5.651588478122176e+36,6.404088741354444e+36,7.256783250568466e+36,8.223012714622913e+36,9.317894137123799e+36,1.0558557327322283e+37,1.1964412902072648e+37,1.35574559718364e+37,1.5362610262008024e+37,1.7408118053462942e+37,1.9725982043086225e+37,2.235246603734715e+37,2.5328662312448695e+37,2.8701134517603264e+37,3.2522646179885034e+37,3.685298620837645e+37,4.1759904312914863e+37,4.732017097239816e+37,5.362077853623072e+37,6.076030225056872e+37,6.8850442503104755e+37,7.801777241535962e+37,8.840571812418446e+37,1.0017680273468151e+38,1.1351518905198497e+38,1.2862956087384512e+38,1.4575638792286276e+38,1.6516362549940018e+38,1.8715490673755397e+38,2.120742930535254e+38,2.4031165710884312e+38,2.7230878250681117e+38,3.085662756541039e+38,3.4965139792603976e+38,3.962069406725453e+38,4.4896128191743455e+38,5.087397820916403e+38,5.764776970906964e+38,6.532348106858491e+38,7.402120152180711e+38,8.387700999858354e+38,9.504510412776566e+38,1.0770021271395308e+39,1.2204032943178408e+39,1.3828981050739202e+39,1.567028848513558e+39,1.7756763156042282e+39,2.012104870174333e+39,2.280013521046273e+39,2.583593794345032e+39,2.927595311415125e+39,3.317400098335743e+39,3.759106789632884e+39,4.2596260435855065e+39,4.826788661932082e+39,5.469468105548836e+39,6.197719322901008e+39,7.022936063287656e+39,7.958029136101634e+39,9.017628405034299e+39,1.0218311677496088e+40,1.157886407030938e+40,1.3120571909542129e+40,1.486755576264972e+40,1.6847147813331308e+40,1.909031948326454e+40,2.1632165991012707e+40,2.451245542920086e+40,2.777625095046848e+40,3.1474615796519325e+40,3.566541220069857e+40,4.041420666321229e+40,4.579529576234204e+40,5.189286855083567e+40,5.880232372357959e+40,6.663176216410896e+40,7.550367822137676e+40,8.555687617740849e+40,9.694864188966044e+40,1.0985720358419844e+41,1.2448452029968187e+41,1.4105944160835044e+41,1.5984128804897264e+41,1.8112390828890233e+41,2.052402764909874e+41,2.325677018127701e+41,2.6353373154244735e+41,2.9862284022825254e+41,3.3838400945506636e+41,3.834393168565588e+41,4.3449366874101025e+41,4.923458286012058e+41,5.579009140533612e+41,6.3218455772413466e+41,7.16358953637839e+41,8.117410401552875e+41,9.198231039428206e+41,1.0422961273279339e+42,1.1810762443191921e+42,1.3383347192042695e+42,1.5165319167519433e+42,1.7184557954939336e+42,1.9472655263276732e+42,2.2065409188685626e+42,2.500338428844565e+42,2.833254622788758e+42,3.2104980929575156e+42,3.637970947608805e+42,4.122361151584973e+42,4.671247161901293e+42,5.293216495401253e+42,5.998000083511737e+42,6.796624516126021e+42,7.701584556524268e+42,8.727038626388833e+42,9.889030319346946e+42,1.1205739408698935e+43,1.2697766276437173e+43,1.4388454213548899e+43,1.6304254634105793e+43,1.8475140917044612e+43,2.093507735034073e+43,2.372255051437295e+43,2.6881171418161356e+43,3.0460357809113723e+43,3.451610733125924e+43,3.911187362830495e+43,4.4319559098458955e+43,5.022063983302255e+43,5.690744033881574e+43,6.448457798792177e+43,7.307059979368067e+43,8.279983712087442e+43,9.382450734770402e+43,1.0631709536080789e+44,1.2047305214265772e+44,1.365138526716917e+44,1.5469046097712008e+44,1.752872565604179e+44,1.9862648361376543e+44,2.2507329264504164e+44,2.55041453387386e+44,2.8899982837383155e+44,3.274797084583855e+44,3.710831250503948e+44,4.204922691100586e+44,4.764801642686225e+44,5.399227610580169e+44,6.118126414684616e+44,6.93274548246716e+44,7.855829818963692e+44,8.901821406914952e+44,1.0087085156722838e+45,1.143016494129383e+45,1.2952073721525774e+45,1.4676622301554424e+45,1.663079185725248e+45,1.884515606632202e+45,2.1354359444355712e+45,2.419765937060465e+45,2.741954028363865e+45,3.1070409656208667e+45,3.520738663808543e+45,3.989519570547216e+45,4.5207179298454066e+45,5.1226445289557886e+45,5.804716723597493e+45,6.577605775835635e+45,7.453403809771572e+45,8.445812997125047e+45,9.570359932583943e+45,1.0844638552900231e+46,1.2288585400287762e+46,1.3924791536715666e+46,1.577885598910739e+46,1.7879786255221268e+46,2.0260452136269482e+46,2.295809999664824e+46,2.6014935496555465e+46,2.947878391455509e+46,3.340383839106935e+46,3.7851507799334497e+46,4.2891377509062796e+46,4.860229807429978e+46,5.507361887838558e+46,6.240658603683458e+46,7.071592642882091e+46,8.013164264000591e+46,9.080104689922643e+46,1.0289106583070678e+47,1.1659085208046238e+47,1.3211474367671912e+47,1.4970561742459454e+47,1.6963868880009342e+47,1.9222581779411063e+47,2.1782038807290206e+47,2.4682283579122477e+47,2.796869145583936e+47,3.169267945748774e+47,3.591251070079501e+47,4.069420594635171e+47,4.6112576516891295e+47,5.225239474704103e+47,5.92097202766467e+47,6.709340293800171e+47,7.60267857501859e+47,8.61496346644662e+47,9.76203252523121e+47,1.106183205475379e+48,1.253469788092929e+48,1.4203673513435049e+48,1.609487066961518e+48,1.8237877801585077e+48,2.066622301808794e+48,2.341789864368039e+48,2.6535955622162162e+48,3.0069177063903005e+48,3.407284147495419e+48,3.860958760893554e+48,4.375039447261341e+48,4.9575691817705313e+48,5.6176618492950495e+48,6.365644834381212e+48,7.213220596851904e+48,8.173649760952505e+48,9.261958582533366e+48,1.0495174040166699e+49,1.189259022828201e+49,1.3476070220135412e+49,1.527038812336637e+49,1.7303616679722637e+49,1.960756647308904e+49,2.2218283617385814e+49,2.5176613710840747e+49,2.852884087990024e+49,3.2327411910848595e+49,3.663175679843218e+49,4.1509218549263624e+49,4.703610678711089e+49,5.329889164410075e+49,6.039555661668916e+49,6.843713155231124e+49,7.754942975083238e+49,8.787501635837023e+49,9.957543884970928e+49,1.1283375449599843e+50,1.2785739436086269e+50,1.4488140863316671e+50,1.641721440708156e+50,1.8603141109050883e+50,2.1080120569904894e+50,2.3886906014249913e+50,2.706741059859996e+50,3.0671394448328162e+50,3.4755243172525505e+50,3.9382850036908655e+50,4.462661559668584e+50,5.056858042899247e+50,5.73017086868982e+50,6.493134255664462e+50,7.357685037361404e+50,8.33734941823901e+50,9.447454595955137e+50,1.0705368560825642e+51,1.2130771824209815e+51,1.3745965327109993e+51,1.557621934632492e+51,1.7650168856917655e+51,2.0000261536584517e+51,2.266326542111269e+51,2.568084415337674e+51,2.9100208825849106e+51,3.297485661493252e+51,3.736540776331119e+51,4.2340554005207257e+51,4.797813327299302e+51,5.436634749932607e+51,6.160514256775486e+51,6.98077720016127e+51,7.910256885566915e+51,8.963495353241362e+51,1.0156970893597134e+52,1.1509355855924374e+52,1.3041808783936323e+52,1.477830544871079e+52,1.6746013958155684e+52,1.8975719811719594e+52,2.1502307550479586e+52,2.4365306538193086e+52,2.760950941225252e+52,3.1285672880427924e+52,3.5451311827611664e+52,4.017159915664784e+52,4.552038544157613e+52,5.158135434612767e+52,5.844933188440638e+52,6.623177000760462e+52,7.5050427727995e+52,8.504327608198119e+52,9.636665673603202e+52,1.0919772800765654e+53,1.2373723657028806e+53,1.4021265820638583e+53,1.5888175674695377e+53,1.8003661687835045e+53,2.040082139110877e+53,2.3117159200627522e+53,2.6195173187490626e+53,2.968301997522261e+53,3.3635268167275206e+53,3.8113752092235767e+53,4.3188539223889476e+53,4.893902641176631e+53,5.5455182073089544e+53,6.283895378066062e+53,7.120586326889338e+53,8.068681381243447e+53,9.143013825445116e+53,1.036039197267174e+54,1.1739862136998947e+54,1.3303006619758162e+54,1.5074281372316711e+54,1.7081398618134758e+54,1.9355760420357226e+54,2.1932949978259895e+54,2.4853288339057282e+54,2.816246523502655e+54,3.191225391561861e+54,3.6161321158359e+54,4.09761451314472e+54,4.643205546834116e+54,5.261441182666386e+54,5.961993937040508e+54,6.75582420695125e+54,7.655351749298227e+54,8.674649992399708e+54,9.829666219783887e+54,1.113847107111135e+55,1.2621541263759423e+55,1.4302079958348105e+55,1.6206379780440214e+55,1.836423417801932e+55,2.0809403550579534e+55,2.3580143442582524e+55,2.6719803065056255e+55,3.027750350941874e+55,3.430890626442325e+55,3.887708405994595e+55};
#endif
