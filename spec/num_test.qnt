// generated once with mpmath (500 bits): reference values for num.qnt
module num_test {
  import num.* from "./num"
  pure val TOL = S / 10^17
  run lnTest = assert([(666228634692044011874826919608320, 7941156164955567688167373101284), (30762201746433574431425038099939328, 12799311851166692461143597708069), (172071713841336871960047466089283584, 14981730322094711149920303530679), (19829124487062155469511054779299659776, 20999262319606593936425989649529), (28945403815312291316392641519681536, 12722143251041013222961224072018), (10364527775168363164616829254458408960, 20176858013546017358022873626802), (3229035073922332828368896, -16327964011157624800483566828965), (4185204924823784115859965870080, 1514069711364282370745916960686), (20417078772944316114371417131725094912, 21036303012749923760312212545773), (1543985830193266789910554502758400, 9006603369503925761467530407119), (5195249998544150684407227081488859136, 19301362175925988944365293541583), (48739724671094819406217216, -12887165985287714165792587150067), (4676987781722215367941193465856, 1654903914630780103921481197021), (3589378218748063621947850752, -7437231984683328865766365456826), (51957900714505915832677724848128, 4707127071811747290832764535807), (137459954997661343840833493794816, 5940422882057219719625276788685), (1934631348056403623280640, -16977339027663725806495188674138), (1371566196186844805814288384, -8656744432622377235993682421683), (10369377623680102370440642560, -6092409333393626087824401571041), (8547414627651923629401131554017640448, 19932505264507712184608753099508), (66551199764175991178494714440581120, 13777538617475607071249766530553), (217499638473947297838268416, -10991137446936420437792380065438), (183255680835047316615715041277116416, 15061555560584608856991078181286), (111107512336880657670078464, -11842616930505342688955862998598), (558900956574695186242422190374912, 7718479862969235004698318057124), (75298932981246513305878528, -12335774019554694194716028830256), (1342293963901422251540480, -17440711878875810066957655277978), (2007548252319151876791424766982488064, 18096041266446178028352824170388), (1084898031846506108370812928, -8953967037402237243319398814543), (1317455441384154900270678016, -8707768783332738224432454650689), (71927520581030847585082319608842551296, 22632639197891593084953710532938), (2073520257030048083327062778413318144, 18137028932782000244763702777497), (14232195961052553569701462016, -5691008131000593658204185085311), (36617729461033783119356048869615992832, 21776814787899496624117034483496), (44887780352904157144630224224256, 4521710120796161115216637907827), (3914048906410376017043932644900864, 10185778410078641380400107532125), (933066871020192334826438656, -9145083632605848722382685750099), (18908783164758820213675163943530659840, 20939016896766120746853753993038), (5915435753076537106213365461549056, 10709308980546046512115742132718), (43141966657058169014806744973719896064, 21984663461855128841306072725104), (1267650600228229401496703205376, 0), (2535301200456458802993406410752, 878668439483319573618263538048), (633825300114114700748351602688, -878668439483319573618263538048), (1774710840319521049505393803264, 426529232713015320844800751360), (1787387346321803354779359903744, 435551695002320829963518044654), (887355420159760524752696901632, -452139206770304252773462786689), (1267650726993289498333601071104, 126765053758584311873354), (1267650473463169445397293694976, -126765066294352826529425)].select(p => not(near(ln(p._1), p._2, TOL))).length() == 0)
  run sqrtTest = assert([(666228634692044011874826919608320, 29061058629317056753324405318130), (30762201746433574431425038099939328, 197473348855506087458342265799788), (172071713841336871960047466089283584, 467040481471650179702885058424931), (19829124487062155469511054779299659776, 5013621601001079023504947877539197), (28945403815312291316392641519681536, 191553278542365615819136685215546), (10364527775168363164616829254458408960, 3624720658930054797163634673683361), (3229035073922332828368896, 2023187645675914635727677216), (4185204924823784115859965870080, 2303340516517480018921821601352), (20417078772944316114371417131725094912, 5087408196855241903700907744115783), (1543985830193266789910554502758400, 44240643806214842697383664618006), (5195249998544150684407227081488859136, 2566273909579840726977615953170300), (48739724671094819406217216, 7860339765828954843677409508), (4676987781722215367941193465856, 2434909930317805711735039204469), (3589378218748063621947850752, 67454261936827355236795536545), (51957900714505915832677724848128, 8115692455197040886198872441777), (137459954997661343840833493794816, 13200424025770187522439291462579), (1934631348056403623280640, 1566025730817999248616568898), (1371566196186844805814288384, 41697322598087796916036798944), (10369377623680102370440642560, 114650546307687748526834614879), (8547414627651923629401131554017640448, 3291676667466370231065010260981102), (66551199764175991178494714440581120, 290454244807967119188088172913850), (217499638473947297838268416, 16604624273404146761705971406), (183255680835047316615715041277116416, 481979432969686546036950864005833), (111107512336880657670078464, 11867834878515632973825974806), (558900956574695186242422190374912, 26617496746877680955526874434551), (75298932981246513305878528, 9769991688339471752662145961), (1342293963901422251540480, 1304438480351743995588345223), (2007548252319151876791424766982488064, 1595264789005106137652080451460567), (1084898031846506108370812928, 37084655064549922339934305706), (1317455441384154900270678016, 40866528859747445605619781897), (71927520581030847585082319608842551296, 9548767702560999966861163928277887), (2073520257030048083327062778413318144, 1621264691038922539240739017109141), (14232195961052553569701462016, 134318471375287962403540040314), (36617729461033783119356048869615992832, 6813111383962131751828414678238560), (44887780352904157144630224224256, 7543342873505875431528171856362), (3914048906410376017043932644900864, 70438955454590310410751174124405), (933066871020192334826438656, 34391899905382120643740718387), (18908783164758820213675163943530659840, 4895889125418585044928491859260237), (5915435753076537106213365461549056, 86595067313323340762349536951838), (43141966657058169014806744973719896064, 7395197085125321216576920018883452), (1267650600228229401496703205376, 1267650600228229401496703205376), (2535301200456458802993406410752, 1792728671193156477399422023279), (633825300114114700748351602688, 896364335596578238699711011639), (1774710840319521049505393803264, 1499904417608864249268779233365), (1787387346321803354779359903744, 1505251687394894156629479602677), (887355420159760524752696901632, 1060592584822887172309251943152), (1267650726993289498333601071104, 1267650663610757865351979230762), (1267650473463169445397293694976, 1267650536845697838883670604810)].select(p => not(close(sqrt(p._1), p._2, TOL))).length() == 0)
  run expTest = assert([(29947612434881574043326363992064, 23066932162297258488965768380832889148804), (-15303922464487687274975283118080, 7242813206570855024335121), (-10557759754013367892068819533824, 306148998755365461589919396), (-25407060280924943322416901259264, 2503762325757276634935), (-26947571221828159998726967918592, 742706505982019987833), (-33075054201284631745486838038528, 5909547034914858985), (-15108435308367967922277962481664, 8450468387491037211135013), (7842447006200650511052573769728, 616319261317942266989739349167046), (-37772201208514057413657125453824, 145318636351455752), (13533507494417418310532816961536, 54897343537653454408018395739597200), (-12329408439378987040866759081984, 75678001852312401312824112), (-14454416524314480413637489983488, 14156186263635989602400715), (24226177710593963105161635168256, 252835527155602539413130294061997955262), (-1464502543542820326555542093824, 399267549763812656042326328510), (-14010598796395986584387018817536, 20090803537662529857072883), (-1428511437605658709263858532352, 410766004138013474948771559736), (15566937044514938371750582288384, 273023544660985890081395593771074185), (-33694082254470214540467070042112, 3626406286749179829), (36135614783277566108199496450048, 3040791790476961994431725249335275522286391), (-36290385307934803079935844941824, 467722633259306462), (18999168596493388421469889888256, 4093318644983141236947507692470966715), (26231307986406491826124601950208, 1229678548461980271120719613996030600308), (-36655318682812574047398948503552, 350721963853740768), (21885098024967006837969856233472, 39883110838743172179593972919904344012), (-10177879771135238043333382111232, 413122589027347243087460360), (5972066446989882999237597200384, 140934467041939234152784724122041), (-37339024656794124027071073091584, 204515725585616436), (-34475498402907942836049157292032, 1957784553396808813), (-24268956157199099240687893217280, 6144764264897270325357), (34620544375714027932549703008256, 920294202912275912030835651826572127091971), (-23082269191826734667782049234944, 15669737961119476926045), (19451065004647615283232791068672, 5846478155702710929323085246007055573), (32679169426742967183555411574784, 198982843029996524973034021114897224119968), (33621427542072487837087188385792, 418438194189735011188750875098523038118068), (-11836169285386691239866781401088, 111674077577240277987704711), (-11044288845933297446763305631744, 208568625800124384291110800), (1878796669701819275016017018880, 5580478401535358851499664075305), (20962099620473450315735206199296, 19256248205043362026152717414297225655), (-29811120947261820398402531229696, 77583790960177558629), (18892916723898521440117267103744, 3764210321504529884496951574531974905), (0, 1267650600228229401496703205376), (1267650600228229401496703205376, 3445831591435597602840181573642), (-1267650600228229401496703205376, 466342594412604466517458581545)].select(p => not(approx(exp(p._1), p._2, TOL))).length() == 0)
  run sinTest = assert([(15071183050099816110738775212032, -794429055752815470149638559824), (18238668784672814460242594103296, 1228052187227091183816450128682), (-23495570232491242766890512154624, 392521017774581414708686422803), (22604754886023197478139809759232, -1078545578674926730486174157245), (-20729643622721751182674510217216, 761949668541428785330492838366), (-8075414230403964291442125307904, -110390603082995093260868916511), (5619623807397283288627994951680, -1218531813822932387662810925380), (21199538867561369924336049192960, -1077194956946552104875768322902), (-8115016085342321831190263234560, -149781732652986574513232743584), (21509374675320995451901789077504, -1206895215840502535822309171681), (2289074628972318109825253769216, 1232818672116392225040099845139), (-9509896075001869417151952060416, -1189926223073951468660152924041), (-9289344325425605331990515548160, -1096304556689134061877357109217), (-16353819658721800368140719226880, -416187782843903635194052480052), (-21387991976164747534160715841536, 1164295595713970876740272963716), (-17804505359706035087029655568384, -1262302636800048964347051992013), (9592291168029169280368597008384, 1215801086064590044071512483268), (25187041783876359327679011356672, 1079854449690337982525336796469), (-17162495103268218599115740676096, -1047419982592214391526094743631), (-22891124833981396149088248922112, 901943991974097330857799399544), (24678576695236835919398550110208, 734906593375991597473440084800), (1700210576486366614940706406400, 1234393904052470567417549001987), (-4772044255088453581503490686976, 739524535663999756200305716980), (-13318616471283912774973176938496, 1119062915920847850436284164611), (4764349206377389929512969437184, -733261046288982548819304300012), (16545148055332252306930820710400, 591493743586777966740627189832), (-2248046428256660863663879487488, -1241723093147800756355717894366), (-3967377141930474170561742241792, -15064316476018003933086161194), (-22528319811596236113569678098432, 1116724276603998724079602574620), (21097222371562322643424167067648, -1019807966860574233488662441482), (-23693849039194493687006603771904, 199963136565216454091415090081), (-326333909391272200982595895296, -322741407112148495102797875936), (17160403256303637662638488420352, 1046240269416289553222709229541), (-18732233802022620926947130081280, -1016807470165451385447019347249), (11746781813798821488117774548992, 199708151613786856857032123358), (22807496715577792104558304952320, -958702991524490698137136063734), (6612029703252241673504094683136, -1110283526967680673208634583906), (14603819146021265494581339750400, -1097050571687705840141293164320), (-19946197749147295670331412316160, 33984611894155240747352166445), (-3318446076687116814032050323456, -634046499701506869136093404560), (0, 0), (1267650600228229401496703205376, 1066691198966369310635496214684), (-1267650600228229401496703205376, -1066691198966369310635496214684), (3982438449171003056649096134656, 3363824694303091504633891), (1991098797778479902015753289728, 1267650594347058623180689343384)].select(p => not(near(sin(p._1), p._2, TOL))).length() == 0)
  run cosTest = assert([(15071183050099816110738775212032, 987836281797080120232584422980), (18238668784672814460242594103296, -314365821465609802099284235729), (-23495570232491242766890512154624, 1205348619638400306340304549836), (22604754886023197478139809759232, 666091194191724553687731113782), (-20729643622721751182674510217216, -1013099574014616336613018232560), (-8075414230403964291442125307904, 1262834889845051323268732186525), (5619623807397283288627994951680, -349454235859840046716062566218), (21199538867561369924336049192960, -668273199363782680731852960474), (-8115016085342321831190263234560, 1258770621210417164583878991004), (21509374675320995451901789077504, -387739580440657454009101326125), (2289074628972318109825253769216, -295120595587915000599413976340), (-9509896075001869417151952060416, 437051058687598837122073541348), (-9289344325425605331990515548160, 636438813431135354420404918896), (-16353819658721800368140719226880, 1197382885158488469416518538838), (-21387991976164747534160715841536, -501351982204159592308693614451), (-17804505359706035087029655568384, 116318946808479768203611106915), (9592291168029169280368597008384, 358839467426805754482075391181), (25187041783876359327679011356672, 663967176706023315586001385626), (-17162495103268218599115740676096, 714037411012557224096399834942), (-22891124833981396149088248922112, 890749728936708532053018780451), (24678576695236835919398550110208, 1032884477214894162632839329822), (1700210576486366614940706406400, 288460974651841531248217529573), (-4772044255088453581503490686976, -1029583170710329660744264732279), (-13318616471283912774973176938496, -595513420898068165555404730147), (4764349206377389929512969437184, -1034053326600798121242885748569), (16545148055332252306930820710400, 1121192755754642411559947320299), (-2248046428256660863663879487488, -255072154894352201731766267131), (-3967377141930474170561742241792, -1267561087533102148932289109275), (-22528319811596236113569678098432, 599887434692764692077037916452), (21097222371562322643424167067648, -752947378630600055766150628423), (-23693849039194493687006603771904, 1251779848165799028679188463127), (-326333909391272200982595895296, 1225877656372878304662373006441), (17160403256303637662638488420352, 715764865658213295119051502968), (-18732233802022620926947130081280, -756994460266866791967416065176), (11746781813798821488117774548992, -1251820553609020671756090944553), (22807496715577792104558304952320, 829353132447802714727580834432), (6612029703252241673504094683136, 611725865076177548758282526745), (14603819146021265494581339750400, 635152019140825895599577763221), (-19946197749147295670331412316160, -1267194969376612510264705481791), (-3318446076687116814032050323456, -1097689883562410046341459625748), (0, 1267650600228229401496703205376), (1267650600228229401496703205376, 684914542338443705542701930871), (-1267650600228229401496703205376, 684914542338443705542701930871), (3982438449171003056649096134656, -1267650600223766296058980073089), (1991098797778479902015753289728, 122108719179941717925552252)].select(p => not(near(cos(p._1), p._2, TOL))).length() == 0)
  run atanTest = assert([(-2667806097158327415284650999808, -1428911734536280238941554364945), (2622012788747189416997974704128, 1420357184811960124730602801721), (-1560633103478813118776205115392, -1126459931604031859053121669458), (-356299212116991249856547782656, -347337682794072601298753963521), (3797627273185109131800141103104, 1582820498587903212351742305262), (2679199858142701142162607702016, 1431003116304211589078728707152), (3620467689014985195280773677056, 1564282997451833325152538667760), (-353370360484731046211048439808, -344621640882812683027468083297), (-90061515532551642096336896000, -89910443233921576034794116842), (1745593056377065896525489504256, 1195016342897311691088660122775), (-159401103916868830253715292160, -158568841817539191618898387411), (-1589461828846570035592109752320, -1137793188356582008415289116300), (-731768433234993357413555372032, -663657812533187144301153868038), (-2688638530507339791773544218624, -1432724656653948719839321198554), (-935520455384903383715120414720, -805939121127542682814410172413), (3714629769388954236292408803328, 1574333019123838898165169630190), (3497315284149921823446299312128, 1550414303122980013977019563739), (965683329833168615116671811584, 825245606230984452271764624528), (-5153374918651330333381754880, -5153346529623252346883994717), (-1228514978936013378794557538304, -975737480898783514789360667374), (-3124981205242231637273175130112, -1502708803229963748602987060463), (-1731787170766358267826442076160, -1190224676628159342986888266478), (2145009107613080835465924313088, 1314601789048077604073095814248), (2794308636763077010160546217984, 1451342681064888411082762214809), (-1054739303667910219694866432000, -879719155478289930836589483925), (2175460168509908867846479282176, 1322401861627619895608550291946), (2090848388854746859107870834688, 1300315559895812282695502579349), (1480084117463332289522631180288, 1093420789591259931821911203947), (1247508481308280734841053380608, 985458958852281698190082617789), (1974787200540106404456514453504, 1267807732527284383795126545737), (0, 0), (1267650600228229401496703205376, 995610453248924340922087778488), (-1267650600228229401496703205376, -995610453248924340922087778488), (1267650600228229401496703205376000000, 1991219638847248454037324260349), (-1267650600228229344133120, -1267650600227806793933044), (1267650600228229427884982272, 1267650177678282881747441562), (126765060022822940149670320537600, 1978544823020415262689701456360)].select(p => not(near(atan(p._1), p._2, TOL))).length() == 0)
  run asinTest = assert([(-346241614333475782549246574592, -350698049065607804758601128350), (518391956436015037939821051904, 534050118605111897125390317352), (-555606045977086995593158459392, -575135453625158901519829445657), (-36292269222717532138482171904, -36297228886353219948830237729), (683891092516607960902619103232, 722354417740941010958817193867), (483945788395285353651805093888, 496546561006633119419294116474), (-522647155727372259722858070016, -538716895655802887285533769372), (1129597247123277564018843189248, 1394102026153499919928337293697), (379514685822344263031012196352, 385425728427255305868958831714), (204499489884833879454115692544, 205397047002310026176735416673), (-1238290146577073973494900850688, -1717859009246636356563979894966), (119136065139595938228034600960, 119312145621403767998163159082), (-632070141451989609039848800256, -661714553155278080842890584075), (435166511023919559301144772608, 444201396456032062969648721837), (-93960826006549146812144418816, -94047077377387391293294499290), (802878341639541530584904892416, 869464515415733651984477970060), (373797061619084155417132007424, 379437660133173964984041609794), (754571419892173724761144164352, 808227518899097814728609781640), (-385658589405397318586561724416, -391870151531701093280455396516), (365243281896126506089144385536, 370495507403287809028990913908), (602963972836948888335398469632, 628384767716634269604358486405), (832057124601921691500633128960, 907646490697261718748165507983), (-380180707594114762841249546240, -386123827774637928031786667590), (869303029057385839058856443904, 957895428304472993817765234664), (937836442427134162161859821568, 1055707666406555425408108313212), (477490912847713330560870907904, 489570615982380230831413078161), (1207113155565866796297488433152, 1597878752747714964168199088964), (1157406772106468018976192462848, 1458633630082258151020695610073), (45988919788779225953997946880, 45999013865194950065862582283), (74385941996139094522634174464, 74428697893173876052835755215), (0, 0), (1267650600228229401496703205376, 1991220906497848681844175556976), (-1267650600228229401496703205376, -1991220906497848681844175556976), (633825300114114700748351602688, 663740302165949560614725185659)].select(p => not(near(asin(p._1), p._2, TOL))).length() == 0)
  run acosTest = assert([(-846352963182105233083137523712, 2917942095535440052255949868269), (853433803414301051710970265600, 1054956173039982308390896393968), (1108894326609569818812700688384, 641239851946922430630362293397), (-57706160820205045703061274624, 2048947016333244068137546712927), (485321515053144869887170052096, 1493185519654672458541873002377), (556971386134398722512229761024, 1414565990371077602754616640449), (584015316369527934834121375744, 1384280651401855356541259440965), (-832018022930494597376195428352, 2898815568883856025018781015320), (710826525616639829209803390976, 1236609811766489443373740253052), (204967186726397256418059091968, 1785349940910186268039824359935), (419734906576377590426980319232, 1563411274285093258863367125154), (-200816059999464318593730084864, 2192886529621518287866475758142), (313710801584142242206042816512, 1674216375112605601325406047744), (696459272081821760993642938368, 1253882622266892983958657547462), (346998228680536972745169174528, 1639736266490245271976438856108), (558817081992634309475332784128, 1412510531051558268437053560452), (-1197620470559881324695228776448, 3559113653903941277085064065803), (-861943924357922346338615296000, 2939042897662062402064858954840), (-149409316869059466883367960576, 2140978329458953375932839936295), (380591970993424867128984469504, 1604665947312840354722261884979), (-712322879306962510901646721024, 2747640087964273035492819738098), (471457593453727164750293368832, 1508156560445192874905157744320), (331782602325414504876539379712, 1655528534953377132834628864198), (-1161518568322149575318044672000, 3460026757499329735688449262537), (-72039304399715678376121335808, 2063299042924559858037775876472), (-694057475867669217091835133952, 2725686829927032605792633699031), (-1130381760042193400354167586816, 3387053954230550719889442288157), (-929119728787200563597797228544, 3034044511736342670517505296620), (-463070629995875375558764265472, 2465262963699742502776216065842), (-807373732620692090768542662656, 2866505442733057921350851043082), (0, 1991220906497848681844175556976), (1267650600228229401496703205376, 0), (-1267650600228229401496703205376, 3982441812995697363688351113952), (633825300114114700748351602688, 1327480604331899121229450371317)].select(p => not(near(acos(p._1), p._2, TOL))).length() == 0)
  run powTest = assert([(18329903439881946088500887552, -4708991878460138499504655564800, 8660117724114015775510275106356944379), (785200466626322594616689295360, -1213913873045325893687043948544, 2005397598542256982119960352271), (5939683047164887291169620361216, 914375668136689462729175465984, 3862172201158172972045256008870), (33890503759498689643401969664, 4088754510864294934083945889792, 10705483234739155080757154), (1279273080311945338340507648, -959603913519494203218015027200, 234953061750210146080760951426335), (59452208416775025617509810176, -912279309860573448842027991040, 11463268559489193989620474355650), (6215072476753041557335048192, 3360491641146256008016704831488, 956015345884027250656519), (221961423795160055386506002432, -4704889151859446822953721790464, 815785282343388124037453085121364), (6086731066750023114113975058432, -4108996487544039143646974443520, 7840459396952114450317793124), (2367689484850310632590131855360, -1628948134310497482373343477760, 567993085115331612205298226305), (3875939553922931918567764918272, 4647719269084873437896429797376, 76311383723807918571065240271617), (103307431774810142427391536922624, -820403928868463655711968067584, 73475812135447403151341410638), (95705890127690035033545740648448, 1443058372662937244324958568448, 174097880332659657275177697251962), (208764132300105100976742989824, -3629410562991254222686163828736, 221712889178277135878120225803203), (4771175815103988046708613316608, 647608601658461234576784097280, 2495004511757230961193542315598), (701899791473163931284646421069824, 4746052598711949588176304078848, 23645885948646404132126354372288777840048), (5684063552165696884502761046016, -1509862301799042366906677854208, 212239776426456713408211641077), (290938744902307250981384885370880, -5060993829646561722136298258432, 476086708563416769409), (5630015660603947725491273728, 667413106523172844317255401472, 73185114729049145609882741508), (6223114628795921492258882322432, -3643729974349216545339772764160, 13084832715944113925470832740), (7581189287422895701700026302464, 3968068669595402543509434007552, 342283747688699355283304470667906), (228081147934521668230512115712, -692808641499362065566983520256, 3236794040914924683857586677290), (28907780817912156159310036992, -2114496149309169256211343736832, 694866555150412726093586139975387), (866417732922780249893564288335872, -1219170228004019044801864269824, 2380586110417799783733996052), (741027195517188915810710191079424, 4195895772057534644644848074752, 1824574227295011521039552340258171641312), (4762768094019351962658277425152, -2435667371926834461094279380992, 99646539810296495095062294054), (974726875952730951805099965415424, -37466632241995136110841298944, 1041608484219980514086914702164), (394411761899342685518488928256, -1834011043542492999965239934976, 6864181322119276888331988727704), (1020137341161272754367465414197248, -83617097467975699832590303232, 815334330482441722390656594331), (66281095819445920445442818048, -233899792352379655753905995776, 2185118772495689867715796106807), (6828347912524108351129255936, 1234048957459691651144418852864, 7842448876810490173138426310), (580504203667467301447236845568, -2098183844208760884769486536704, 4617696572910065100793314071852), (62120844048312682125173521907712, 3314199517518985442472828600320, 33268172274281083216374288747482784), (1521315697070300895519965184, 330244801889864745011489275904, 219829535697974566129434662043), (55683340786267672300432130048, 4413991151670411639887954444288, 23819711972187684439109117), (62293537833689240259479814012928, -2579312183445063483681599913984, 458551642471810445903722405), (51183577312142962972510126080, -3501092187074594996531291488256, 8967904446050502686869978873504443), (1086302530225722997031495033421824, -2097320259210362739326197956608, 17801208434473432854808582), (5639298871665836509416954789888, -257267913297069473638656245760, 936360532869705054078413307026), (9381220306983798660560014278656, 1053201884594929327874383020032, 6686617477918678902629617923049), (1521180720273875225501048504320, 4436777100798802905238461218816, 2399572784263557755668942945702), (2535301200456458802993406410752, -26620662604792817431430767312896, 604462909807314587353088), (633825300114114700748351602688, 26620662604792817431430767312896, 604462909807314587353088)].select(p => not(approx(pow(p._1, p._2), p._3, S / 10^15))).length() == 0)
  run degreeTest = all {
    assert(near(sind(r(30)), HALF, TOL)), assert(near(tand(r(45)), ONE, TOL)),
    assert(near(deg(asin(HALF)), r(30), TOL)), assert(near(cosd(r(60)), HALF, TOL)),
  }
  run totalTest = all {
    assert(not(fin(div(S, 0)))), assert(not(fin(ln(0)))), assert(not(fin(sqrt(-1)))),
    assert(not(fin(asin(2 * S)))), assert(not(fin(pow(-S, HALF)))), assert(not(fin(exp(r(100))))),
    assert(not(near(NAN, NAN, E3))), assert(not(close(EXC, EXC, E3))), assert(not(close(INF, INF, E3))),
  }
  run complexTest = all {
    assert(cmul(cx(r(1), r(2)), cx(r(3), r(-1))) == cx(r(5), r(5))),
    assert(csub(cadd(C1, cx(0, S)), C1) == cx(0, S)), assert(cabs1(cx(-S, S)) == r(2)),
  }
}
