"2GBCABAECECFFBFGGBAGBDEGDFCGFE",
"2JIADECGFBBCECCDBDFEJDFGBEIF",
"2JIHJBAEBAJHGJDACJBI",
"2JIHJBAFJECEFBFGGBAGAJDEJIJHGJACCDCIIGFEHFGHEGGCJFAHEACBCJBDCFCHBE",
"2JIHJBAFJECEFBFGGBAGAJDEJIJHGJACCDCIIGFEHFHECGCFJFAHEACBCJBDIB",
"2JIJECEFBFBAGAJDEJIAJHGJDACJBC",
"2MFIFCBFAKALLKIKHEFEJHFHFMDBGMILGFICEJBM",
"2QHIADEAAQGAJABJIADEIGFBBEJFFEJEIF",
"2SICCMBPSBGMOBEBQOQBBIHNBJPQLRCHFCBCADGCEAOPALRDAJSCDLABARSIEJHM",
"2SKGRBIQNOHLSFCDBMEDOJLKIFSMFBCJNHQRPEDBABHAAG",
"2SKIGRIBQNOHLHFCDBMEDOJLIGFSMPBCJNHQRPBEDABAAH",
"2SKLARJAJKJBKIIEILCIHJBKQKSL",
"2SKLARJOFKJBGIEILCIHEFHJBQKASB",
"2SKLARJOFKJBKIEIBKSL",
"2SNLADJMHKHMGHICODLFIFCOGKPRJBQNQRPEBDPG",
"2SNLADJMHKLHSGHIEOCFDFLISMCGKPRJBQNQRBAPGB",
"2SRGHIAKLJOFKJ",
"2TBEDQMCCHAQIOLRHPPNFDRFBORQGCCLIEPOHR",
"2TLBSBEMJFNSTBDINBKCGMQLDHHKARFPIRAJCQOPGSOE",
"2TNAGHDBLPJCTAQNORKRIBJFCSQPFIGEDH",
"2TNAGHLPJCTAQNOJKRIBJFNLLDIEPDPHGBMQKCRJMAFIGEDH",
"2UICCMBPSBGMOBEBQOQBBIHGBJPQLRCHFCBCTDGCEAOPTLRDAJSCDLABSIEJUNUH",
"2UICCMPSBATAGMOBEBQOQBBIHDMDCDLABTRSIEJH",
"2UISCMBPCBGMOBENQOBIHKBJPQLRCHFCTDGCEASCDLABTREJHM",
"2WFPIPCPBEACQCBAJODNGFKFPRRQHBRLOQMKBDKI",
"2WKIPCPBEACABAJODNGFKFPRRQHBLOQMKBDK",
"2WTKKFFWAEIPCPBEACBAJODNGFPRRQHBLOQMKBDK",
"3EECDEABCBDAEBCAAECD",
"3FBACDBDFDECBCCFEDEAFBFE",
"3FDCBDCBDEACFAABBFDFAECF",
"3FEDCDCBBFAFABEABDCAFDFC",
"3FFBBCDADCFDDEABFCEFDBAFAC",
"3FFBCDFAFDACDEEBFEBDBAEA",
"3FFBEBCDFAFDEACAABDEFEBD",
"3GCDDGCAFCEBAGBDGCEGADCBAB",
"3GEDCFBEFGFDAECGDBDCADBGABCEFBAGACBCDG",
"3GEDCFDGFDAECGDBDCADBGFGABCEFBAGCBACBE",
"3HABAEBFBGCDDGECFDFEGAGCGHHAHCHD",
"3HBGHDAHBDBECGAFAEFBEGDCCAFGEHFE",
"3HEDBABDAEFBCAAFBEDCFDCFHEGDADEFCEGA",
"3HFEABGACBAHFGCDDGCACEFCBEEAFBGEBHEDDBGHGBDACGDFFHEH",
"3HFEFBGFDCBDGAHEAHBGHGFDABDGHBADCFHD",
"3HFHAEADFDCDBAHBDBECGCGDFCCBFAAC",
"3HGEGDDEAHFEBFADCDCAGCECFAGHBH",
"3IBDADAHFEAFGHBHIA",
"3ICDIBBEAFEAFGFCBDHDFHGCBCCAGBDAFEDG",
"3ICFBFCDBGBADBHFIGEGFIDGDFCGCAGFHC",
"3ICIDCABIAGDBDHCDICGAHCFCBIBDACE",
"3IDEDAAFBEBDDCBHIGBCAEAHCACIGE",
"3IDEDACAAFBEBDDCBHIGBCAEAHIDEC",
"3JCBJBGCDFDJDIBHIEIBHFEFFBHIHD",
"3JEFEHHDBCAFHICGEACDIGIDEJGDCFICHG",
"3JEGFGIJEDIEFDJGICADHCJBHBDGGHGBIAIFBIAEEFHJ",
"3JEHHDBCAFHICGEACDIGIDEJHJABEFGDCFICHGFJCABHEDJAIBHAHFCJHCGBFGFBEIFIFD",
"3JFADCGJFCDIIJDGJAHDIEJBACJCEJEDFJEHHBGFHIAG",
"3JIEBJCJAEBIFCFADA",
"3JJCEGHDIFBEBHCADFBCFEBAGIGAAJFCFACGBG",
"3JJEFCIDCDDABAIGAIFEEICJEAECFADFFGJDEHCHGAGD",
"3KECDABCABCAJFAEHEBHEGFACDEFIBBDCJFDEBDEFIBGCF",
"3KGHKBDAGAAEBJBEGIDHCBAHEHBGHBIAAFIEBFIB",
"3KGHKBDAGAAEBJBEGIDHCBAHEHDFBGHBIAAFIEBIKCFB",
"3KKCCEGEBKADJHEHIFHFCHGIHACGKHDIFJAJFAFDBGEKJI",
"3LGKBEKFAKGFJIHCHDBJIHICHALCACBIHECKHFLHAGHJDBAFALAIBHEJFCIL",
"3LLEFBGLFGJLDABHDLCAKBEJIADBAFKEDEHCBIGJJDLHILIFABHDLC",
"3LLEFBGLFGJLDACABHDLCKBEJIBAFKEDEHCBIFLHIKBIFC",
"3LLEFEBGKDGJGKDGJLDHFLFKEDEHCHIGFJLDHFKEHIGFLHBIFC",
"3MCHCFCLCBMKAFLIFHMGBAACJKIGJCIFALFKDCIALFDBGKEBJMGAGDGJKAJBDAECGEIEIDIHMDHAMBJALHMALGHM",
"3MEBFBGMIJIEMJGAGHHAJDLELDILHCFKJCGCLBACAJJBJH",
"3MEDCFDGBFFDEGACGFCEDACGBCBGDCBEBD",
"3MGHJEMLGAGLDJBMKMALLKKELEAEMFCJFGMHBDGKHAAK",
"3MGHJEMLGAGLDJBMKMGDFBBCBKGFGJDLGBKHDMAMEGMHBDGKHAAK",
"3MHDCEJCEFGMKDMECKIBGAEBLCCBAMMIEIKHBFBAAICICA",
"3MJEMLGADCDJBCKMGCBGLCBDLGBKDGDLHK",
"3MJHDMABHAACIHLBKMKFMIDFEFKCKIGHBIBMEDAMJDAJIAEJBCFLMLDHGEKEEA",
"3MJHDMABHBMECDHAMFFLFKMLACAJDHGEKEELGMGFGLMH",
"3MJHDMABHBMEDACDMJDBHECHEAAMEJBCFLFKMCLACAJADHGEKEELGMMHFM",
"3MJHDMABHBMEDAMJDBHECHEACDAMBMEDEK",
"3MJHDMABHBMEDAMJDBHECHEACDAMEJEIIBCFLFKMLACAJDHGEKLGMGFGLMHF",
"3MJHDMABHBMEDAMJJBCFLFKMLACAJDHGEKEACEAJDHGEELGMGFGLMHFM",
"3MJHDMABHBMEDAMJJBCFLFKMLACEDGAJKHLDHGEKLGMGAGLMHF",
"3MJLHJDMABHBMEDAMJJBCFLFKMLACEDGAJKHLDHGEKLGMGAGLMHF",
"3NLDBJANEJJAFLGLGJGFIHDJMCJKAHDFCJJFHNEMBLALGDKMMJKE",
"3NNEABGAADCENKJBBMMIFBGMCLAHBCIAIJHEBGHGBDHDMAGDKFHM",
"3NNEABGAADCENKJMBMMIFBGMCLAHBCMDCIIJHEBGHGBDGDKFHM",
"3NNEABGAFMCBIHFGKLJIDGCKCADKLDCENBAMMIFBGMCLJHEDDBGHGBDACGHBDNEKFHMH",
"3NNEABIDGCKCADKLDCHDIFBGMCEBHEDBGHHBDNEKFHMH",
"3OACFLJAMENECOLBDGKCNGHLMNAKEIFADKIOFJJLGKCMCIABCNBHEGDAGLMGFGCGEODCGJAHODLA",
"3OCOGMMHCDJACKDHLEDIMABFEAFMNCBMFOKNOMGIOJMIJLLMODDKEJJMNDMDHIOKDGGHLAFJNOBOBJ",
"3OMCMGBMKLEFOHDACBAJNMJKJLBGHELDAKIENCOFDJLAHFHIIFGNDKCDKC",
"3OODCGJAHACFLJAKCNKGMALHIABCNBHGAFCIABBHGAFGDGJKEODCGJOCLA",
"3PBDMCBHANJHADHGBAJAPJEIPEKCLCHIBFPGNFIPHCJMCBNJOLDNDOEJCEJD",
"3PCNHLDPCIJGAIPIHGKGHCGECDOEKJEFIFCABIJMHAKENAJELKHFMBDGMILEJB",
"3PDALOHAGINMHDNCMACHDCCLCGHEMPKCKMCFEAANKFJAGDMEPFPOCEJIMFNE",
"3PDJBFOABONPBJPEOJLMFJMFNEFIDOKBKIIABAELEMLOEOKOCPKAOCNOEFOIBHEGCJ",
"3PDJBFOAPONPBJPEOJLMFJMFNBPAEIDOKBKIIABAELEMLOEOKOCPKAOCNKEFOBBDFLNCCE",
"3PDPBFOAKONPBNPEMFNEBIDOKBKIIABAELEMLONOCPKAOCEFOIBDLFNCCE",
"3PHLDFNIJGAIHGKMHAKENKHBNHHIBMCDGBPHJDNJPANGBJFEHJME",
"3PHLDFNIJKKGAIHGKMHAKENKMBNHHOHBJNCKFLICJHJIPIJEME",
"3PJGEKMDCJADABFGKFPEMHDEFJFOEGCNDJCMLBCLAJOGIMIPMFEFOEGH",
"3PJGLMNLIFDFEKMNLJNFKOKMPMJMDCJABGKFPEABMAAODHCJNCHIBEFJFOEG",
"3PJGLMNLIFDFEKMNLJNFKOKMPMJMDCJABGKFPEABMAKADHCJNCHIBEFJFOEG",
"3PJGLMNLIFDFEKMNOKMPMJMDCJABGKFPEABGGMHDOFGNDJCMLBAHIBEBEFJFOEGH",
"3PJLMDNEIFDEKFEOGKOHNLNJILMEGFLMAMHGKINDABNOLPJMAPBLANEAMOPHICHBBPGLALAHKCCG",
"3PPEDIEBDJABCPDCGFACBGDEGNNHGJMIMBBIEOHIIEDAEMDMOGGMALPK",
"3PPNCNCFDFNIJGAIHGKMHAKENKHBNHLDFMANIJGAJDNJPANGHLJHME",
"3PPNCNHLDFNIJGAIHGKMHAKENKHBNHLDFMANIJGAJDNJPANGJHME",
"3QAHCAANCFAFMHHFEHHLEIICOKGFECBPHGHNMALFGMNGAIKPQJMFPHDENJQNDCBEGAPQHKDFJPLALBHQJHPOHOBFELBOKB",
"3QAHCNCFAFMHHFEHHLEIICOKGFECBAPQHKDFJPLALBHQJHPOHOBFDJHPOBFE",
"3QAHCNCFAFMHHFEHHLEIICOKGFECBPHGHNMAJMFPHDENJQNDCBEGAPQHKDFJPLALBHHPOHOBFELB",
"3QAHCNCFAFMHHFEHHLEIICOKGFECBPHGHNMALFGMNPFIDIKPQJMFPHDENJQNDCBEGAPQHKDFJPLALBHQJHPOHOBFELBOKCBCBKGKIJGB",
"3QAHCNCFAFMHHFEHHLEIICOKGFECBPHGHNMALFGMNPFIQIKPQJMFPHDENJQNDCBEGAPQHKDFJPLALMMNPFIBHQJHPOHOBFELBOKCBCBKGKIJGB",
"3QAHCNCFAFMHPAFHAMHLLEFOKGFECBPHGHNMALFJIFDENJQKANDCLBOK",
"3QBQQOJOIALONLGECGNGJBGMOKEMHFINELLKPDICCAGFFLOGDMJGANPKNFGPIGCNGDKEQLCHAG",
"3QIPFLPAAHJAAIADBFNEGDHGHJHBIOGBAGNJLOEBLNHNKPCACKGPICIKIJPJPO",
"3QIPFLPADEHJDBFNEGMPMDKGNAPOHLENMAKEOKDPJAGOCHPBLKIBMKBABMCIDGKIJP",
"3QIPFLPDEHJAAIADBFNEGMPMDKGEKFEPOHLKKENMAKEOKJPJAGOCHPBLKIBMKBMCIDGKIJPO",
"3QIPFLPDEHJDBFNECMPMDKGEKFEPOHLKKENMAKEOKJPJAGOCHPBLKIBMKBECIDGKIJPO",
"3QIPFLPDEHJDBFNEGMPMDKGNMAAPOHLKKENMAKBAANEOKJPJKIBMKBMCIDGKIJPO",
"3QIPFLPDEHJDBFNEGMPMDKGNMAAPOHLKKENMAKEOKJPJAGOCHPBLKIBMKBMCIDGKIJPO",
"3QKIAPMIFJAFQNDFDJNLCQEAABIGOAIEBIAJGALDMAADKPKLGQLCQAHPACHLCNNAKNCO",
"3QKIAPMIFJAFQNOLEBNLCQEAABIGOEAJALGDHNMAADKPKLGQLCQAHPOAAHLDFCMK",
"3QKIAPMIFJAFQNOLEBNLCQEANADKPKLDALQGPODNJLDFCFHJHL",
"3QLFQHCDMAPEPAQCAHCKHGIACMQDCBBIHFNKKDPBHLIFFGJAMDLGADDBLAIJEBBANODPGAQNCNOGAQKA",
"3QLFQHCDMAPEPAQCAHCKHGIACMQDCIHFNKKDPBHLIFFGJAMDLGADDBLAIJEBBANODPGAQNCNOQKA",
"3QLFQKCDMAGIACHCIHFNDPQDCKHFNKODPBHLIFFGJAMDLGADDBLAIJEBBANOPGAQNC",
"3QLFQKCDMAPEPAQCAHCKHGIACMAECIHFNKKDPBHLMDLGADDBLAIJEBBANODPGAQNCNOQKACPBHOKKMFJOCED",
"3QLFQKPDMAPEPAQCAHCKDGIAAJAECNHFNKKDPBHLIFMDLGADDBLAIJEBBANOGAQNOGKACFFJKOKMFAOCED",
"3QLFQKPDMAPEPAQCAHCKDGIACMAECIHFNKKDPBHLIFFGJAMDLGADDBLAIJEBBANOGAQNCNOQCAKFAFOKKMFJOCED",
"3QNFNIIBECDKJDNQDONBKLGAKQIOIFJKJPBFAMPDMLKPHOGHBQDAJAQFGLCOCICQAP",
"3QNFNIIBECDKJDNQEONBKLGAIQIOIFJKJEBQADMLKPHOGHBFAMPDGMJAQFGLCOCLCQAP",
"3QNFNIIBECDKJDNQEONBKLGAKQIOIFJKJEBFAMPDMLKPHOGHBQDAJAQFGLCOCICQAP",
"3QNFNIIBECDKJDNQEONBKLGAKQIOIFJKJPBFAMPDMLKPHOGHBQDAJAQFGLCQAP",
"3QNFNIIBECDKJDNQOMQEIEEONBKLGAKQIOIFJKBFAMPDMLKPHOGHBQDLCOCICQAP",
"3QNFNIIHECDKJDFBDFQEIEEONBKLGAKQIOIFJKLJPBFAMPDMPKDLBQBOJAQFGQCOCI",
"3QNFNIIHECDKJDNQOMQEIEEONBKLGAKQIOIFBKJPBFAMPDMLKPLBQBOAJAQLGQCOCICQAP",
"3QNFNIIHECDKJDNQOMQEIEEONBKLGAKQIOIFJKJPBFAMPDMLKPLBQBOAJAQFGQCOCICQAP",
"3QNFNIIHECDKJDNQOMQEIEEONBKLGAKQIOIFJKJPBFAMPDMLKPLBQBOAJAQLGQCOCICQAP",
"3QOJQMKAPMGEPEEHBQHLQKCAKGFAELCNFEQABMALINKECJMEOIAHFHJGDBDEGQPQ",
"3QOMOIQJBAMBDAQOMPINLMHMILDBFKDFIHAFMJKALHBGMEFMLEOJNGJNKDOCKBQCNOGFHEIJPG",
"3QOMOIQJBAMBDAQOMPINLMHMILDBFKDFIHAFMJKALHBGMEFMLEOJNGJNKDOCKBQCNOJI",
"3RAGNJLFAONEOPOBADCLORHKRBFQJEBAGDPRNMPMKDAFFIEMAKGKPNPJLARAQAAHAPIAQLHDJMQIPBHG",
"3RBAGEIDDEKMDHACCJPIFNLFKDPHHINLFDONFGKOQLPEOJMCFKAQEHQGJKNAOCKCQHHFBNHMRAFQCRHKGLCBRBJNNR",
"3RBAGEIEKMDHACCJPIFNLFKDPHHINLFDONFGKOQLPEOJMDPGNHQGJKNAOCKCFKQHHEHFBNHMKBJNRBNR",
"3RBAGEIEKMDHACCJPIFNLFKDPHHINLFDONFIFGKOQLPEOJMDPGNHQGJKNAOCKCFKGKOQLPEOJMDPGNHQGJKNAOCFKQEHFBNRMHAJMQGRHKGLCBRBJN",
"3RBLOAIJPDDLQGJQHCAMDFBODRBCIAAQGBIBBPNMBKDAIRNDAHDBMODQ",
"3RBLOAMAHJENPJQHHENLPHQKPLACIAADDMFHFBLOGKKCNFNHEFAGARBPKJELMRFLMKMJ",
"3RBLOAMDIJENPANFNHEFBECRBPKJELARDKCHLIHRQJEHNLPHQKPMFHFLOGKMRPLMMJQMCLLRJDMODQ",
"3RBLOAMDIJENPCNFNHEABFDRBCIABQJQGBIBBPNMBKDAIRMAAHQADBMODQ",
"3RBLOAMDIJENPJQHHENLPHQKPDCIDJADKDFHFBLOGKKCNFNHEFAGCRBPKJELMRFLMKMJ",
"3RBLOAPDMDIJENPCNFNHEFBGCRBPKJELAJDKCHBDMJEHNLPHQKPMFHFLOGKAMRPLJQMCRJOJ",
"3RBLOAPDMDIJENPCNFNHEFBGCRBPKJELAJDKCHBIHREHNLPHQKPMFHFLDIKMRPLMMJQMJDMODQ",
"3RCJDAONLDDMHBGHNADHCQJGRHNHFQFHDGHKRMNFJLBJCOBAPHIHFARDDKACJDAONENBQOAIBFPJQA",
"3RCJDAONLDDMHBGHNADHCQJGRHNHFQFHDGHKRMNFJLBJCOBAPHIHFARDDKACJDAONENBQOAJAIBFPJQA",
"3RFACEAELMORKONBMHBIMNPDFHGNHALNHKLPLDBKKIRNJEGINIKRQGCANOQBHJMJMPOHNJFMHNBGEHJANKHCJFNDKDQN",
"3RFCOFJEPLCALHLDDMHBGHNADHCQRGRHMHFQFHDGPKRMNFJLBJCOBAPHIHDKDRFAAEJACBAIMGBFPJQA",
"3RFCOFJEPLDALHLDDMHBGHNADHCQRGRHMHFQFHPKRMNJFLBJCOBAPHIHFARDDKAEJDAONBQOAIMGBFPJQA",
"3RGCGIFEQDHDDJKNALGLJQBKFHLNNBGKPABMGRIFAREGNGLMQOFGMNAJCLBCAOKPEIMKDAAICJEAJHRD",
"3RGCGIFEQDHDDJKNALGLJQBKFHLNNBGKPABMGRIFAREGNGLMQOFGMNAJCLBCAOKPEIMKHGKRDI",
"3RGCGIFEQDHDDJKNALGLJQBKFHLNNBGKPABMGRIFAREGQGLMQOFGMNAJCLBCAEKPEIMKHGKRDIHI",
"3RGCGIFEQDHDDJKNALGLJQBKFHLNNBGKPABMGRIFAREGQGLMQOFGMNAJCLBCAOKPEIMKHGKRDIHI",
"3RGJADGAGIFEQDHDDJKNALGLJQBKFHLNNBGKPABMGRIFAREGQGLMQOEBMCNAJCLBCAOKPEIMDKHGKRDIHI",
"3RGJADGAGIFEQDHDDJKNALGLJQBKFHNBGKPABMGRIFAREGQGLMQOEBMCNAJCLBCAOKPEIMDKHGKRDIHI",
"3RGJADGAGIFEQGDHJKNALGIAKFHLBGAREGLMQOEDKPABMGRIFAREMQOEBMCNAJCLBCAOOIMDKHGKRDHI",
"3RGJADGAGIFEQGDHJKNALGLJQBKFHLBGAREGLMQOEDKPABMGRIFAREMQOEBMCNAJCLBCAOOIMDKHGKRDAIHI",
"3RGJADGAGIFJQGDHJKNALGLJQBKFHLBGAREGLMQOEBKPCAOKPOIMDKHGKRBI",
"3RHQEHFCEQHDIFBEBHMKNQOBFRMIMAACIJKARMNRBNJRRQQGLROFQDEDLCDBBFGNOLMOGRLFGBLB",
"3RHQEHJCEQHDIFBAFEBHMKNQOBFRMIJPRQQGLROFQDEDLCDBBFGNOLROGRLFGBLBFC",
"3RHQEHJCEQHDIFBEBHMKNQOBFRMIMAACIJKARMNRBNJRRQQGLROFQDEDLCDBBFGNOLMOGRLFGBLBFC",
"3RILMKMJHJDACGOCMEKFLCIOHMJBMFAFDEPGKAIGBRJRARFRLNLOBMKDQRCIRDFDKLHBKNPKRGNGNRGOLR",
"3RJCHCCEAELMORKONBMHBIMNPDFHGNHALNHKLPLDBKKIRNJEGINIKRQGCANOQBHJMJNPMPOHNJFMHNBGEHJANKJFQN",
"3RJCHRCEAELMORKONBMHBIMNPDFHGNHALNHKLPLDBKKIRNJEGINIKRQGCANOQBDJKFIHEDHJMJNPMPOHNJFMHNBGEHJANKHCJFQN",
"3RJCMRCEAELMORKONBMHBIMNEDFHGNHALNHKRNJEGINIKRQGCANOQBHJMJNPMPOHNJFMHNBGEHJANKHCJFNDQN",
"3RLDDMHBGHNACQJGRHNHFQFHDGPKRMNFJLBJCOBAPHIHFARDDKACJDAONENBQOAIBFPJQA",
"3RNAGPNQFCOCOPHCRMENJKMAMJDIFPDEFONDFHPCKARJGEHBQAIHLPNKGDKGQRJGNIHOEIGALBARILQJNJ",
"3RONNPGBAFMBNFDOFMGJQNGHLMOPCDCQHJKJDIJCKGPCOCAPDJGFDELAFOCIDL",
"3RPDORARBDGIIKBAMIMDDRBJADGBLRMGHMJIBFRQNCCOHRBKCLMJCFLORPHBOEGJCHHQNAERBM",
"3RPDORERBHGIIKBPBAMIMRBJADGBLRMGHMJIBFRQNCCOMDHRBKCLMJCFLORPRBDBOEGJCQNAMPCELEQMDH",
"3RPJBQFCEFEIRJAECIHAPEPAQFNIKDPBHLRIPFOFAQNCLMQNFMGCLROAMCFAENDJBIIHIFDIAGCLROAMNDJBIGAICDGHACBFFLGBLAPHDAPQDPQIQKLIQGMBAKRGNL",
"3RPNBAFCEFEQRJRIPFOJFAQLQNCMNDDFMNGCLRENKIKQPRPEPJOQFBRQDJGFRDJAKRGNDPQDPQIL",
"3RPNBQBAANEAJAERIRHAPEPAQFNKKDPBHLOFAQNCHMQNFMLQGCLROAMCFAENDJARIFDIAGCLROAMCAICDGJBIGAICDGHODLAPHDANDPQDPQRQKLIQGMEKRGN",
"3RPNBQFCBAAQEFEQRJRIPFOFLQNCMNFMNQGCLROAMCFAENKIKQPRPEPJOQFBRQDJGFRDOBJQKLIQGMKRGNDPQDHQ",
"3RPNBQFCEFEIRJAECIHAPEPAQFNKKDPBHLRIPFOFAQNCLMQNFMGCLROAMCFAENDJBIIHIFDIAGCLROAMCADGJBIGAICDGHBFFLGBLAPHDANDPQDPQIQKLIQGMBAKRGNL",
"3RPNBQFCEFEQRJRIPFOFAQLQNCMNFMNQGCLROAMCFAENKIKQPRPEPJOQFBRQDJGFRDOBJQKLIQGMBAKRGNDPQDHQ",
"3RPNBQFCEFEQRJRIPFOFAQLQNQGCLROAMCFAENKIKQPRPEPJOKFBRQDJGFDROBJQKLIQGMBAKRGNDPQDPQBKHCIL",
"3RPNBQFCEFMQRJRIPFOFAQLQNCMNFMNQGCLROAMAFAENKIKQPRPEPJOQFBRQDIGFBDOBJQKLIQGMBAKRGNDPQDPQ",
"3RPNBQFCEFMQRJRIPFOFAQLQNCMNFMNQGCLROAMAFAENKIKQPRPEPJOQFBRQDJGFRDOBJQKLIQGMBAKRGNDPQDPQ",
"3RPQEHJCEQHDIFBEBHMKNQOBFRMIMAACIJKARMNRBNJRRQQGLROFQDEDLCDBAFGNOLMOGRLFGBLBFC",
"3RPQEHJCEQHDIFBEBHMKNQOBFRMIMAACIJKARMNRBNJRRQQGLROFQDEDLCDBBFGNOLMOGRLFGBLBFC",
"3RQGHMEKJPIFOPNJDIEPJEBJOICMQBDGPFMBQHOKKFEOPNJDIEEBJOICMQBAPCILGPHOBKHPRKQFHLKDMOMNPAACELNBDHPRKQFHLKDOGARQCKJFRMQCDFQNIBQAIKAFGJNR",
"3RQIKEJHMPFIFHBLJEAKLAQPPFIPOPNJDIEQBJOKQFHLKDGEILCOHEQKMN",
"3RQIKEJHMPPFIPPKFOPJMANRFMJOICMQPCILGPEHOKBDHPKFOPJMANRFMBBJOICMQPLGPEHOKBDHPRKQFHLKDOMNLEGARQRKQFHLKDOMNLEGARQCKJCDFANIBQAEHAJN",
"3RQIKEJHMPPFIPPKFOPNJCMQBAPRQCAEFEKFOPNJCMQBAPRQCKJFRMDFQDCNIBQAIKAFGJNRQN",
"3RQIKEJHMPPFIPPKFOPNJDIEPJEBJOICMQBAPCILGPHOKBDHPRKQFHLKDOMNLEGARQCKJFRMQCDFQNIBQAIKAFGJNR",
"3RQJIEHKMPPFIPPKFOPJMGDRBDKQBOIGMQPCILGPEHOKHPKFOLJMANRFMBBJCMQPCIPEHOKBDHPRFHLKDOMNLEGARQRKQFHLKDOENLEGRAMKJFRMQCDFCNIBQAEAAHAJNR",
"3SABAPCRGCAKLSOLJOFNAGRARIPLHEFIICEMMBQGMOGRAIQNNBIGOPACDAKQBELN",
"3SBILOHEOIBHMGAQBMNMJPAPGEPSNLGQBELDLALSNGJALBRGHNKRQOQFIMANPCELDIKNFGLKOCJR",
"3SBILOHFNIBHMGAQBMNMJNPJLCIHCPMPAPGEPSNLGQBELDLALSNBJALBRGHNJKRQMLDSDPCANFGLKOCJRA",
"3SBILOHFNIBHMGNGAQBMNMJPAPGEPSNLGQBELDLALSJALBRGHNLJKRQOFIMLDSDPLCIHCPCANFGLKCCJRA",
"3SBILOHFNICLJKRQMLDSDPPJIHCPMPAPGEPSNLGQBELDLALSNBJALBRGHNCANFGLKOCJRA",
"3SBILOHFNIMBHGAQNMJPAIKIIPGEPSNLHQBELDLALSNGJALBRNLJKFMAFIGLCKGCJR",
"3SFEMKQOBGEPSCEARJGLGOLKCHGKGRJQSQBOORLMENCNJAFHBMIERDOMRBFSHSRMHENPDENIPIOI",
"3SFEMKQOBGEPSCEARJGLGOLKCHKGGRJQGQECBOICCFORLMONCNJAFHBMIERDOCRBFSHSRMHENPDENIPI",
"3SFEMKQOBGEPSCRJGLGOLKCHKGGRJQSQBOIOKEICCFORLMENCNJBPIPH",
"3SFEMQROBGEPSCEARGGLGOMKCHKGJQSABOCFLMENCNIRBMRDOMRBFSHSHRNIMIPDIPQI",
"3SFEMQROBGEPSCEARGGLGOMKCHKGJQSABOCFLMENCNIRBMRDOMRJFSHSRBHRNIMIPDIPQI",
"3SFEMQROBGEPSCEARJGLGOMKCHKGGRJQSABOCFLMENCNJAFHBMIERDOMRBFSHSPDIP",
"3SFEMQROBGGKPARGGLGOMKCHJQSABOCFLMENPNIRBMRDECOMRBFSHSHRNCNIMIPDIPQNIJ",
"3SHIEGHJKCQGEFQEKDLCKGJQOHPAERBCLBKEDNFDIJRNOBENCOKOJPKBIQHPFNDGDRIPHQOLDQRFKLQA",
"3SHIEGHMKCQGEFQEKDLCKGJQOAERBCLBKEPQJHMADNFDIJRNOBENCOKMJPKBIQHPFNDGDRIPHQOLDQKORFKLQA",
"3SHIEGJHAMDEHMKCQGEFQEKDLCKGJQOAERBCLBKEPQDNNRJIFDOHENCOKMJPKBIQHPFNDGDRIPHQOLDQKORFKLQA",
"3SHJEGHMKBHCQGEFQEKDIAJQOAERBCLBKEPQAMDNFDIJRNOBENCOSAHPHOFNDGDRDPHQOLDQKORFKLQA",
"3SIBBQEOCMNJJHFNNODBOAANDJHCSCPBSNHEIOAPOPOKGBAMHNJC",
"3SIBEOCMNJJHFNNODBOAANDJHCSCKGBAPBSNHEIOAPOPAGOKGBAMHNJC",
"3SIBEOCMNJJHFNSGBOOASMDRHCSEKGBAPBPOSNHEIOAPPIIAOGPSRPPFKOERCEDENMHNJC",
"3SIBEOCMNJJHFNSGBOQAAOAPPECSEKGBBPOSNHEIEAGPSRFKRCEDEQMH",
"3SIBEOCMNJJHFNSGBOQACSEKGBAPBPOSNHEIOAEAGPSRFKRCEDENMH",
"3SIBEOCMNJJHKOERCNSGBODJHCIASFBGBAPBPOSNHEIOAPPIORPSRKAOCEDENMHNJC",
"3SJEEDDJGBFECJFBBHBECGEHAIREECCDCFFHGECH",
"3SJOBHQNCAAEJDDFIKMBGEBSRGMNPNNLJKOBKFHMBKOKFIDKARMKABCBGBHLHNLMAPLBGQNAJFSO",
"3SJOBHQNJDDIIKMBGEBSRGMNPNNLJKOBKFHMBKOKFIDKARCKABCBGAACHLHNFDLMIJAPLBBGGQAENCJFSO",
"3SJOBHQNJDDIISBGMKEBRGMNPNNLJKOGAMBKODKIFKARCKABCSRJSJHLHNFQOBHQNJERJFSO",
"3SKLBAACFKJBKIEIBKRAEQJSOLBHQNNGAFAJESRGBNEMGPFNLJKOFHMKFIDKCK",
"3SQEINCKHKMLNFPBKQGJEJAFKPCHCQEPQHECAMANDNRSMFGPBSJODAKGEHSJRMLNBO",
"3SQEONADPBKQGJEJAFKPKHCQEPQHECALDNRSMFGPBSJKDIKGEHSJRMEGLNLDJI",
"3SQEONCKHKMDNFPBKQGJEJAFKPCHCQEPQHECANDNRSMFGPBSJKDIKGEHSJRMEDLNLDJI",
"3SQEONCKHKMDPGPBKQGJEJAFKPCHCQEPQHECAMANOADNEDMFBSJKDIKGRSEHSJRMLNLDJI",
"3SQEONCKHKMDSGPBKQGJEJAFKPCHCQEPQHECNMANOADNEDMFGPBSJKDIKGRSEHSJRMLNLDJI",
"3SQEONCKHKMLNFPBKQGJAFKPCHCQEPQHECANRSMFGPBSJIDIJPEHSJRMEGLOLD",
"3SQEONCKHKMLNFPBKQGJAFKPCHCQEPQHECANRSMFGPBSJIDIJPEHSJRMEGLOLDJB",
"3SQEONCKHKMLNFPBKQGJEJAFKPCHCQEPQHECAMANDNRSMFGPBSJKDIKGEHSJRMLNLDJI",
"3SRBGFQKLJHOQAFQGDAPJIPKFCLQCRFRQNMAPHQDCBEHQRIFNJCPHMQCJGFBNOLFHNJEQOLGBQJOKM",
"3SRBGFQKLJHOQAFQGDAPJOPKFCLQCRFRQNMAIJPHQDCBEHQRIFNJCPHMQCJGFBNOLFHNJEQOLGBQ",
"3SRHRKIMDQPMBAAKFEBQAMLSAGLCEQBOCMODNMAEKISHEPKLSBSKSMQASONGLOALEBDA",
"3SROSAGQBMRGFMDLCRLMNSGPREHQCPQADFIFJPMSCJIARSJECEOJHGSHEPPKLBSPSKSQNGLSSIGKIQ",
"3SROSAGQBMRGFMDLCRLMNSGPREHQCPQADSIFJPFDMSCJIARSJECEOJHGSHEPPKLBSPAKSQNGLSSIGKQF",
"3SROSAGQBMRGFMDLCRLMNSGPREHQCPQADSIFJPFDMSCJIARSJECEOJHGSHEPPKLBSPSKSBNGLSSIGKQF",
"3SROSICRLMNLGPREHQCPQADSIFJPFDMSCJIARSJECEOJHGSHEPBKLBSPSKSBASNGLS",
"3TABIDLJPAMKLHBDJKQNOFLPDQORACQSHBADSDKRBFOCQJTQMAIHJDAFGDGIJTKHKFEQRPIAHNAHEJHOJM",
"3TBEDBPDATGHJHBIOGGNJLOEBLNHMKPTBAKGPSGEJBGJBMCKAQIOLGGIHMTSCNFDRFBORQGCIEHR",
"3TBEDBPDATGHJHBIOGGNJLOEBLNHMKPTKGPSGEJBGJBMCKAQIOLGGIHMTSCNFDRFBORQGCIEHR",
"3TBEDBPDGHJHBIOGGNJLOEBLNHMKPTPSGEJBGJBMPBBAAQIOCANFDRFBOFQGKIJEHR",
"3TBEDQKBKAAHGHJHBIOGSAGNJLOEBLTHMKPTATKGPQGEJBGJBMCKIOLGGIHMTSCNDRBORQGCCHIEHR",
"3TBEDQPLDHGHJHBIOGSAGNJLOEBLNHMKPTATKGPSGEJBGJBMCKAQIOLGGIHMTSCNFDRFBORQGCCHIEHR",
"3TBEDQPLDHGHJHBIOGSAGNJLOENBLHNKPTATKGPSGEJBGJBMCKAQDOLGGIHMTSCNFDRFBORQGCCHIEHR",
"3TBEDQPLDHGHJSCNFDRAGNJLOEBLNHNKPTATKGPSGEJBGJSMCHAQIOLMGIHBGSOLIHMTFRAGNJLNKPTKGPBSJEMJGCHAQISCNFDRFBORQLEH",
"3TBEDQPLDHGHJSCNFDRAGNJLOEBLNHNKPTATKGPSGEJBGJSMCHAQIOLMGIHBGSOLIHMTFRAGNJLNKPTKGPEJBGMCHAQISCNFDRFBORQLGCEH",
"3TBELDQHKAHASDHGAPHJBIOGSAGSJAABIOLGGIADTSMFAGPCARFHANPSIEJBGJBMDRPKRKDPGCAT",
"3TBELHQAKHDASDHGHJBIOGSAGNJAAKIOLGGIHMTSCFAGPCQDHRFHANPRIEJBGJBMTKDPPSRFARBAAT",
"3TBELHQDFDHGHJCAOGSAGNJLOEBLNHTKPSDRRNAQEGJBGJBMAKIOLGGIHMTSCPPDHRFNAF",
"3TBELHQDJHADHGBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFATPCHRPAFA",
"3TBELHQDKAGASDHGHJBIOGSAGNJAARAQIOLGGIHMTSCFPAACHRFHANPSIEJBGJBMTKDPPFRKKSSRFAPCABTR",
"3TBELHQDKAGASDHGHJBIOGSAGNJAARAQIOLGGIHMTSCFPCHRFHANPSIEJBGJBMCATKDPPFKSRFAPABTR",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHRFHANPSIEJBGJBMCATKDPFPSHARRFAPBAAT",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHRFHANPSIEJBGJBMCATKDPHPSRFAPAABTR",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHRFHANPSIEJBGJBMCATKDPPFAPSRFAABTR",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHRFHANPSIEJBGJBMCATKDPRFAPBAAT",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHRFHANPSIEJBGJBMTKDPRFABTR",
"3TBELHQDKAHASDHGHJBIOGSAGNJAAQIOLGGIHMTSCFAGPCHTHRFHANPSIEJBGJBMCATKDPPRRFABTR",
"3TBELHQDKRRARFPRPDHGHJBIOGGNJLOEBJNHTKSPATKGGEGJBMCKAQIOGIHMTSKNFPPJBORQPTCGGTPGIEHR",
"3TBELHQDPAHAADHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFPCHRFANA",
"3TBELHQDPAHJADHGBIOGSAGNJLBLNHJBGJBMCAAKAQIOLGGIHMTSCFPCHRFNPSGETKDRFANARA",
"3TBELHQDPDHGHJBIOGAJGNJLOEBLNHTKPTATKGPSGEGJBMCKAQIOLGGIHMTSCNFPPHAPRFBORQGCIEHR",
"3TBELHQDPDHGHJBIOGGNJLOEBJNHTKTPATPSGEGJBMCKAQIOGIHMTSCNFPPJRFBORQGCPGIEHR",
"3TBELHQDPDHGHJBIOGGNJLOEBJNKTHTPATKGPSGEGJBMCKAQIOGIHMTSCNFPPJRFBORQGCCTTGPGIEHR",
"3TBELHQDPDHGHJBIOGGNJLOEBLNHTKPTATKGPSGEGJBMCKAQIOLGGIHMTSCNFPPHRFBORQGCIEHR",
"3TBELHQDPDHGHJBIOGGNJLOEBLNHTKTPATKGPSGEGJBMCKAQIOGIHMTSCNFPPJRFBORQGCPGIEHR",
"3TBELHQDPDHGHJBIOGGNJLOEBLNHTKTPATKGPSGEGJBMCKAQIOLGGIHMTSCNFPPJRFBORQKHPKIEHR",
"3TBELHQDPDHGHJBIOGSAGJJLOEBLNHTKPSDRFNGEJBBMCAAKAQIOLGGIHMTSCNFPPGHRFANAAH",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBAKGJBMCAAPAQIOLGGIHMTSCNFPHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCKAQIOLGGIHMTSCNFPRFBOFQGCKHIEHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGRGJBMCAAPAKAQIOLGGIHMTSCNFPHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPTATKGPSGEGJBMCKAQIOLGGIHMTSCNFPRFBORQGCIEHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPTATKGPSGEJBGJBMCKAQIOLGGIHMTSCNFPRFBORQGCCHIEHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPTATKGPSGEJBGJBMCKAQIOLGGIHMTSCNFPRFBORQGCIEHR",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPTDRFRPSGEFAJBGJBMCKAQIOLGGIHMTSCNFPBORHCGKHIE",
"3TBELHQDPDHGHJBIOGSAGNJLOEBLNHTKPTDRFRPSGEJBGJBMCKAQIOLGGIHMFPBORQGCKHIEHR",
"3TBELHQDPDHGHJOIBGSAGNJLOEBLNHTKPTATKGPSGEJBGJBMCKAQLGGIHMTSCNFPRFBORPPQGCKHIEHR",
"3TBELHQDPDHJADHGBIOGSAGNJLBLNHJBGJBMCAAKAQOILGGIHMTSCFPFQGHRFNPSGETABKDRFANAPARA",
"3TBELHQDPHADHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFFPHR",
"3TBELHQDPHADHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFFPPCPDHRPAFANA",
"3TBELHQDPHADHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFPCFR",
"3TBELHQDPHADHGHJBIOGSAGNJLOEBLNHTKPSDRFNGEJBGJBMCAAKAQIOLGGIHMTSCFPCPDHRTAAH",
"3TBELHQDRANRPDHGHJBIOGGNJLOEBJNHTKTPATKGPSGEGJBMCKAQIOGIHMTSCNFPPJRFBORQGCPGIEHR",
"3TBELHQHKAHASDHGHJBIOGSAGNJAABIOLGGIHMTSCFAGPCQDHRFHANPSIEJBGJBMRKDPRFTR",
"3TBESBIGQMBATDPAPESNNFETAELTOLIHDRNMGKBCTAIKLJJACDSHLGCPGSOFSL",
"3TBESITBATIGQPBITDCQOHKMOKMCBRMHKCCLNAQEBSEOMOHKQIOBCFJEADGFSDRNOAFSPRHEJNFHSCFOSQGODJPAFEELLIHDRIPOQHNMMGJICTTIKL",
"3TBLFHPAFCRNGDLFILQOPJETTPDSQPSIAMPEPCPIRISRPNGPLPPHADOHJCBKMKPKMGTF",
"3TBLFHPAFCRNNGDLFPPILQOPJPAETJETSQPSIAMPEPCPIEPRITPDPNNLHQABKMQOPKMGTF",
"3TBLFHPEJTPAAMACFCRNGDLFIAAFCRNGDLFPPILQOPILQOPJERAETSQPSIPLHADOHJCPBKMKMQGATF",
"3TBLFPPAFCRNGDLFILQOPJETTPDSRHPDBCPCPIEPRISRQPSIAMPNGPMPLPPHADOHJCBKMKPKMGTF",
"3TBLFPPAFCRNGDLFINQOPJETTPDSRHPDBCPCPIEPSRPRIJDBQSQPSIAMPNGPMPLPPHADOHJCBKMKPKMGTF",
"3TBODGPAPQSCBLTFMARDOGIKJGTPCFITKTEBMHHAJLNSLGPCEAEHSFHIBJBRHRREKPNCQINPPSFN",
"3TBODGPAPQSCBLTFMIRDOGIKJGTPCFKTEBMHHAJLNSLGPCEAEHSFHIBJHRREKPNCQSAINPPSFN",
"3TBODGPAPQSCBLTFMIRDOHIKJGTPCFKTEAMHHAJLNSPCEHSFHIBJHRREKPNCQSAINPPSFN",
"3TBODGPFMTQTEBMAOGORDIBKJGTPHASFTIICFTEAKIJLNSLGPMDAHIBJBRFQPBDOIFGRMERDKPNCQINPPSFNCP",
"3TBODGPFMTQTEBMAOGORDIBKJGTPICFTEAMHKIHAJLNSLGPBDASFHIBJBRFQDOIFGRMERDKPNCQINPPSFNCP",
"3TBODGPFMTQTEPMAOGORDIBKJGTPICFTEAMHKIHAJLNSLGPBDESFHIBJBRFQDOIFGRMERDKPNCQIPSFNCP",
"3TBODGPQNCBLTFMAOGORDIBKJGTPCFITQTEBMHKIHAJLNSRGPBEAHESFHIBJFQDOIFMERDKPQINPPSFNCP",
"3TBODGPQSCBLTFMAOGORDIBKJGTPCFITQTEBDHKIHAJLNSLGPBEAHESFHIBJBRFQDOIFKRMERDKPNCQINPPSFNCP",
"3TBODGPQSCBLTFMAOGORDIBKJGTPCFITQTEBMHKIHAJLNSLGPCEAQHSFHIBJPADOIFGRMERDKPNCQINPPSFN",
"3TBODGPQSCBLTPCFITQTERMHHIKALJNSLGPBEAHESFBJBRFQDOIFEDGMKPNCQINPPSFNCK",
"3TCLJQAGAIPNMCKIDJCQAMECNBFCSIQFEHFREOPBQKMGMFPOFBTPADNCDSJTLQASSQDMNMKDGQQNJKHNEN",
"3TCLJQAGHCPNMCKIDJCQAMECNBFCSIQFEHFREOPHQKMGMFPOFBTPADNCDSQATLJSSQDMNEKDRBGDGQJKHN",
"3TCLJQAGHCPNMCKIDJCQAMECNBPCSIQFEHFREOPBQKMGMFPOFBTPADNCDSQATLJSSQDMNMKDNRRBGDGQQNJKHNEN",
"3TCLJQAGHRPNMCKIBEEDCFDGBFCAAFGFCEADBCJCQNLGSJLMQSTOGNQOKO",
"3TCLJQAGHTRPNMCKIDHNTCEJRCLEQSCMLQSCMTOGNLQOKOSNBOQTQHOAHPPAGPPQKMGMFPPOFBTPADNQKN",
"3TCLJQIAPNMCKIDJCQAMECNBFCSIQFEHFREOPBQKMGMFPOFBTPADNCDSJTNQSASKMQIDFEFKCKIQJKHNEN",
"3TDHDNKNOCTBOJQLESILLKBOBJHQKBHIPDEGCBAMPAEJEFFKEODQANAGDRLAQIBEASGLETJCKEKTLMIDRSSKLPFTPMEDDGFBEN",
"3TDHDNKNOCTBOJQLSESNILLHBOBJHQKBHIPDECCBAMPALGEFFKEODQANAGDRLAGIBEASETJCKEKTLMIDRSSKLPFTPMEDDGEN",
"3TDHDNKNOCTBOJQLSESNILLHBOBJHQKBHIPDECCBAMPAPGEFFKEODQANAGDRLAQIBEASGLETJCKEKTLMIDRSSKLPFTEDDABNEN",
"3TDIORPMTEJSKGMFMOBFLPDMLMCEGEKFQKMTIRMAFAJQPHMHBNHSKAHEHCOQNDQBLA",
"3TDIORPMTEJSRBKGCDKLPCNRHGHNINKMOHMEHTRQHBGMFMOBFLPDMLMCEAFKMTIRMAFAJQPHMHMDHSKAHEHCOQNDQBLA",
"3TDIORPMTEJSRBKGFACTKLPCNRHGHNINKMOHMEHTRQHIGMFMOBFLPDMLMCEGEKFKMTIRMAJQDHMHBHMDHSKAHEHCOQNDQBLA",
"3TDJIKSGNGECDFJENCEKBGNEMPHDOPPLPFGIISITTSGCCKKNPTJBQFETEBLH",
"3TDNAJORALMDPGSDPEHFSBJKGCHPEITNBOJQSLCPONCFPIQAMSOLTDSREFOCRLIHLBIFCRLKQKJLSCQOSTBQMNFGGRAKMTNC",
"3TDNAJORMDPGSDPEHFSBJKGCHPEITNBOJQSLPIMSKLTDSREFSCRFIHLBIFCRQKJLSTHEBQMNFGGRAKMTNC",
"3TEABAJAAHQGTOEFQMGJCAPACLPIPKHQAIMHRAATSIRJQJBMAFBQDANTTLJEJFBHONLOAKPSREBSITRF",
"3TEADAAHLABSKSACBPIPAIKHQAIMHRAGJATAESIRJQJBMAFBQDANTQOAKPSAERTJDHQGTGEFQNIJBMAFBQNTTLJEJGQELOQOAKPAHLABCB",
"3TEJDHQGTOEFQNIJCLABSKSACBPIPAIKHQAIMHRAGJATAESIRJQJBMAFAJFBHONLOACQKPSREITR",
"3TEJDHQGTOEFQNIJCLABSKSACBPIPAIKHQAIMHRAGJATAESIRJQJBMAFBQDANTTLJFBHONLOACQOAKPKPSREITRF",
"3TGEETMDTKCTBTCATQCDAFELIHTDRDGPJHMBEOGNASKDBGABJAADBDSFFGDIGR",
"3TGETDDODLCDAFMLIHRGMPCADFNABNDIDBDSNFQOEQTPHNDARNKCDNDQJITLMCRFGDHSQGRA",
"3TGETDDOPCADFNABNDEDBPDSQOEQTPHNRNKCDQJITLMCRFGDIDDLCHAFMLIHRGMPCAANDFBNDBHSKLJDRA",
"3TGETEMDTKCTBTCACDAFMLIHTDRDMPJHMBEOGNASKDBGABJAADIDBDSNFGGR",
"3TGETEMDTKCTBTTLATRDMPJHMBEOGNHSKDBGABJAADIGBDSFFGIDGR",
"3TGETEMDTOCTBTCATDAFMPIAQDALTAGTADSNRDJBEOGNASKDBGABNCFCNAAJDIBDGAFGGR",
"3TGETEMDTOCTBTCATDAFMPIAQDALTAGTHDSNRDJHDOGNASKDBGABNCAPFCNAAJDJBDGAFGDIGR",
"3TGETEMDTOCTBTCATDAFMPIHALADSNRDJBEOGNASKDBGABNCFNAIIDBDFGGR",
"3TGETEMDTOCTBTCATDAFMPIHALADSNRDJBEOGNASKDBGABNCFNJAIDBDFGGR",
"3TGETEMDTPCTBTCATDAFMLIHBDSNFGDIGAATRDMPJBEOGNASKDBGABNCFNJAADGR",
"3TIFMGDCDTHGSGLJTBNSKSCSENMRLATRTHBDCFGDGCQJNPJAPJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRGFCBPSRHFPISGBLK",
"3TIFMGDCDTHGSGLJTBNSKSCSENMRLATRTHBDCOOFGDGCQJNPJAPJQSPKLPTMGOHMNKCTSANAOPRGGFCBPSRHFCISGBLK",
"3TIJFSSGLJTBNSKSCSELOPGRGPNFFPJFMCBFFIRKSMMODGDPDSTFMHERHNNMNKCTSAAQSLPCOCGFCBPSLARHIS",
"3TIJFSSGLJTBNSKSCSENMGDCDTHGMRLQTRTHBDCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRGFCBPSLARHFPISGBLK",
"3TIJFSSGLJTBNSKSCSENMGDCDTHGMRLQTRTHBDCFQAGDGCQJPNAJQSPKLPTMGOHMNKCTSASLPCELOPGRGFIAPSLARHFPISGBLK",
"3TIJFSSGLJTBNSKSCSENMGDCDTTGHGMRLQTRBDCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRPSLALK",
"3TIJFSSGLJTBNSKSCSENMGDCDTTGHGMRLQTRBHCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRPSLARHFPISGBLK",
"3TIJFSSGLJTBNSKSCSENMGDCDTTGHGMRLQTRBHCFGDQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELGRPSLARHFPISGBLK",
"3TIJFSSGLJTBNSKSCSENMGDCDTTGHGMRLQTRTHBDCFGDGCQJPNASQSPKLPTMGOHMNKCTAQSLPCELOPGRGFCBPSRHFPISGBLK",
"3TIJFSSGLJTDNSKSCSENMGDCTGHGMRLQTRBDCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRGFCBPSLARHFPISGBLK",
"3TIJFSSGSJTBNSKSCSELOGDCDTHGMRLJKPPSENMGCTTGLQTRTHBDCFGDGCQJPNASQSLPTMHMNKAQSLPCOPGRGFCBLAIARHFPISGBLK",
"3TIJFSSGSJTBNSKSCSELPGDBDTHGMRLJKPPSENMGCTLQTRTHCFGDGCQJPNAIQSLPTMGOHMNKCDAQSLPCOPGRGFCBLIRHFPISGBLK",
"3TIJFSSGSJTBNSKSCSELPGDCDTHGMRLJKPPSENMGCTLQTRTHBDCFGDGCQJPNAIQSLPTMGOHMNKSAAQSLPCOPGRGFCBLAJARHFPISGBLK",
"3TIJFSSGSJTBNSKSCSELPGDCDTHGMRLJKPPSENMGCTLQTRTHBDCFGDGCQJPNAIQSLPTMGOHMNKSAILPCOPGRGFCBLAJARHFPISGBLK",
"3TIJFSSGSJTBNSKSCSELPGDCDTHGMRLJKPPSENMGCTTGLQTRTHBDCFGDGCQJPNASQSLPTMGOHMNKAQSLPCOPGRGFCBLAJARHFPISGBLK",
"3TIQCQAIHQOHNDKBLSCICHDERJOTSAFDERJNISGLENPFGBQOFNSGMCJAPKSMMQSBTQGKEFKMKLJDHTBL",
"3TIQCQAMHAOHNDKBLSCICHDERJOTSAFDERJNISGLEQONAISGOCMCJITCPKKASMMTGBQKPIJDHTBL",
"3TIQCQAMHQOHNDIBLSCICHDERJOTSAFDERJNISGLENPFGBQOFNIGOCMCJITCPKKASMMQPGTQGKEFKMKLJDHTBL",
"3TIQCQAMHQOHNDKBLSCICHDERJOTSAJDERJNISGLENPFGBQOFNAISGOCMCJITCPKKASMMTQKQSEFPJKLHTBL",
"3TIQCQAMHQOHNDKBLSSAFDERJNISGLENPFGBQOFNAISGOCMCJITCPKKASMMTQKQSEFKMKLJDHTBL",
"3TJBRCQBQHQLMPPHBNHADLDFALLHKLBDRBCBBMQTKAHKKDABGHBGTABITBPBQABE",
"3TJBRCQBQHQLMPPHBNHADLDFKLBDRBCBBMQTKAHKKDABGHBGTABITBPBQABE",
"3TJBRCQBQHQLPBMPPHBNHADLBDRBCBBMQTKAHKKDABGHBGTABITBQABE",
"3TLBKHJBODDLQGJQHCSMDFBTEAOBPLKLJCRJMAENHBAHDKCQKFOEETQHNSCABEMOOTTAJHMLQAAFFPFNMBRQPK",
"3TLFKFCDBGALGASIRKATBIBRSQIOQFBMRGNPORFHKHNAGIMOCGJBFOSFNBCBHBJLKATBRSQIOQFBMRGNPORFHNIMOCGJDBAHJMQAFJAPMFDGKBPBLSGOQL",
"3TLFKFCDBGALRARIKABIBRSQIOQFBMRGNPORFHNAGIMOCGJQGOHL",
"3TLGRFBAOGIMOCGFBDFBMFKSDNBCBHBJODJAPMFDDGAPBLSGOQ",
"3TLIQEHPFDEHPEMBODSQLTKGJKCIRIBKPQIMRGMDOHCQJBPSJGIAFCCOGMRLNRINSEARFMBGNTIGLNKMMJTIAMSHMRRTGA",
"3TMFLOBGJMNTPHDHTKEGDFOIMGMLEICIQJDNEBKDMAACKPKIFISGKSQPBKJKNQMEMPQMPIBDTLKGCOATFN",
"3TNASBIGQMBATDPASEBPSNNHETAELODIMHRNGKBCTAAJRAFMTQDFRIKLJLJICPACDJJGSJJOFSLGSTEJ",
"3TNASBIPCDQTAGBMASEBPSHETAELODIMHRNGKBCTJRARAFMTQDFRIKLJICPAGSOFSLTE",
"3TNESBIGQMBATDPAPEASSNNFETAELTOLIHDRNMGKBCTAIKLJJACDSHLGCPGSOFBL",
"3TNESBIGQMBATDPAPESNNFETAELTOLIHDRNMFKJCTAIKLJJACDSHLGOAHBPFDBPJGSOFSL",
"3TNESBIGQMBATDPAPESNNFETAELTOLIHDRNMGKBCTAIKLJJACDIASHLGCPGSROFSSTEJ",
"3TNESBIGQMBATDPAPSNTAENFETLTOLIHDRNMGKBCTAIKLJRACDSHLGCPGSOFSL",
"3TNESBIGQMBATDPASEBPSNNFETAELTLOIHDRNMGKBCTAAJPSGHSRARAFMTIKLJJCSQSICPACDJJGSJJBAGSTEJ",
"3TNESBIGQMBATDPASEBPSNNFETAELTLOIHDRNMGKBCTAAJPSGHSRARAFMTIKLJJCSQSICPACDJJGSJJOFSLGSTEJ",
"3TNESBIGQMBATDPASEBPSNNFETAELTLOIHDRNMGKBCTAAJPSGHSRARAFMTIKLJJICPACDJJGSJJOFSLGSTEJ",
"3TNESBIGQMBATNAPSEBPSNNFETAELTELOIHDPRNMGKBCTAAJPSSHARGRAFMTIKLJJCSQSICPACDJJHSJJBAGSTEJ",
"3TNJFQQOLCNHALLFQPDPPFPCACTLFTKJKHEBSOMETAEGCJTRSMNCMBFCIHRCNSQCBHPSHCFAGSSFJSMHSB",
"3TNKJQAGHCPNMCKIDJCQAMECNBFCSINCDSQATLJSSQDMNMKDNRCBGDGQQNJKHNEN",
"3TNKJQAGHCPNMCKIDJCQAMECNBFCSINCDSQATLJSSQDMNMKDNRRBGDGQQNJKHNEN",
"3TPBIDNJLNPAMKLBHDJKQNEJEOFLQOBDPRLKTNBKQKCQSHBADSDKRBOCQGECJCTKHBDJNHKFEQIAKAOJMD",
"3TPBIDNJLNPAMKLHBDJKQNEJEOFLQOPRLKTNBKQKCQSHBADSDKRBOCQJECJCTKHBDJNHKFEQIANFOJMD",
"3TPBIDNJLNPAMKLHBDJKQNEJEOFLQOPRLKTNBKQKCQSHBADSOCQJRAECJCTKHBDJDKJHKFEQIAHNOJMD",
"3TPBIDNJLNPAMKLHBDJKQNEJEOFLQOPRLKTNBKQKCQSHBADSPGAKRBOCQJECDAJCTKHBDJKFEQIAHNNFOJMF",
"3TPBIDNJLNPAMKLHBDJKQNEJEOFLQOPRLKTNBKQKCQSHBADSRBOCQJECJCTKHBDJJHKFEQIAHNNFOJMD",
"3TPBIDNJLNPAMKLHBDQNEJEOFLQOPRLKTNBKQKCQSHBADSDKRBOCQJECJCTKHBDJNHKFEQIANFOJMD",
"3TPDCGACCQHCDLQGSMPAQTOBTBPLKLJCRJMENFOEETQHNCASBEMOOTTAJHMAALQAAFFPMBRQPK",
"3TPDDLPLRLETQHNCASBEMOOTTACIIKAFLJPFQGJQHCSMDFBTTSOBKCRJMECRRHDKCQKFOEMROPMBRQPS",
"3TPDDLQGJHCQSMDFBQOBPLKTBPPQKLJCRJPTFOEATMFGAPQKAJHFLQPFNMBR",
"3TPDDLQGJHCQSMDFBQOBPLMAKLJCRJPBFGAPQKFOEAAJHFLQPFNMBRQP",
"3TPDDLQGJQHCSMDFBQKFOEETQHFCASBLPAAEMOOTTAJDMLQAAFFPFNMBQP",
"3TPDDLQGJQHCSMDFBQKFOEETQHFCASBLPAAEMOOTTAJDMLQIIAAFFPFNMBQP",
"3TPDDLQGJQHCSMDFBQOBPLKTKLJCRJPTAPPBFGQKFOEMAJHFLQPFNMBRQP",
"3TPDDLQGJQHCSMDFBTTQOBKLJCRJMECRRHDKCQKFOEETQHNCASBEMOOTTAJHMAQAAFFPFNMBRQPK",
"3TPDDLQGJQHCSMDFBTTQOBKLJCRJMECRRHDKCQKFOEETQHNCASBEMOOTTAJHMAQAGACIIKAFFPFNMBRQPS",
"3TPDDLQGJQHCSMDFBTTQOBPLKLJCRJMECRRHKDCPGPDAPQKFOEETQHNCASBEMOOTTAJHFLPFFNMBRQPK",
"3TPHDLQGJQHCSDMCBTTQOBPLKLJCRJMECLCRRHDKCQKFOEETQHNCOTTAJHMLQABFFOPNMBRQPK",
"3TREIAQOBGDKSITIFQHNAHCDJQLPPOTGTBQRGIHKHTHBSABANELMNRDFIBFIHSFOHREJOHCKFCKPHFFAKMKQ",
"3TRELAQOHGDKSITIFQHNAHCDJQQNQHHEMDTGTBQRGIOPHKHTHBSAMCFLNELMNRDFIBFCPFFOBGHREJOHCKKPHFFAKQ",
"3TTAAHQGTOIAAEJEQMQLAOFOIBLMBDPINDGSORJDHQGTOEFQBAPLAQCBPAIKIQPGHRAMGJPOFBQDANLJDHONLOACQOAKRFARSL",
"3TTEMDPDBGTOKMPLDACDAFMLIHTDRDMPCADFNABNDIDBDSNFQOEAQAICCPKCDNDQJITLMCRFGDIGRA",
"3TTJDHEGTABAELEMLOEOKOCPKAOCNOEFOIPAIKHQFPAIMHRTAESIRJQJBMAFBQDANTTLJEJFBHLHAMCKIMHGQACSQF",
"3TTJDHPODCGFACAEBELABS",
"3TTJDHQGTGEFQNIJAJQTQELANOAKPKPAFAHLABSKSACBPIIKHQAIMHRAGJATAESIQJBMBQDANTTLJELOACQOPSEITR",
"3TTJDHQGTGEFQNIJAJQTQELANOAKPKPAHAHLABSKSACBPIIKHQAIMHRAGJATAESIQJBMIFBQDANTTLJEQMLOACQLPSEITR",
"3TTJDHQGTGEFQNIJATALABSKSACBAMPIPAIKHQAIMHRAGJAESINPHAQCLOACQOAKPKPSEITR",
"3TTJDHQGTGEFQNIJHLABSKSACBPIPAIKHQAIMHRAGJATAESIALAJQJBMAFBQDANTTLJEQELOACQOAKPKPSEITR",
"3TTJDHQGTGEFQNIJHLABSKSACBPIPAIKHQAIMHRAGJATAESIRJQJBMAFBQDANTTLJEQELOACQOAKPKPSEITR",
"3TTJDHQGTOBAANIJAQMARACQQLACATEPORFHBRPIPAHQIKAIMHGJSKSACBRPAHQIKAIMHRAGJAESIRJQPHNLLAJCNGEAOAKPDATR",
"3TTJDHQGTOEFANIJAQMARACQQLABSKSACBPIPAIKHQAIMHGJATAESIRJQPHANTTLJLACAJCNGEQOAKPKPSREITRF",
"3TTJDHQGTOEFQNAIQJJAGACQQLABSKSACBPIPAIKHQMHRAGJATAESIRJBMAFBQDANTTLJEJFBHONJOACQOAKPKPSREITRF",
"3TTJDHQGTOEFQNIJALJEQMAQQLABSKSACBPIPAIKIQHAHRAMGJATAESIRJQJBMAFBQDANTTLJFBHONLOACQOAKPKPSREITRF",
"3TTJDHQGTOEFQNIJALJEQMAQQLAOFOIBLMBDPINDGSORBKSAJDHQGTOEFQAPLJEQMAQCBPAIKIQPGHAHRAMGJATAESIRJQJBJMAFBQDANTTLJFBHONLOACQOAKPKPSREITRF",
"3TTJDHQGTOEFQNIJAQMAGACQQLANAFSACBPIPHQHLKAIMHRAGJATAEAJBMBQDSNTTLJEJFBHONLOJCQOAKPFGLINLIDFMNOKMPMJMDCAFSBPAPHL",
"3TTJDHQGTOEFQNIJAQMAGACQQLANSKSACBPIHKHQAIMHRAGJATAEAJBMAFBQDANTTLJEJFBHONLOACQOAKPKPSREITRF",
"3TTJDHQGTOEFQNIJASMALABSKSACBPISAIKIQHAHRAMGJATAESIRJQJBFBQDANLJEJHONLOACQKPSREITR",
"3TTJDHQGTOEFQNIJASMALABSKSBPISAIKIQHAHBAMGJATAESIRJQJBFBQDANLJIBHONLOACQKPSREITR",
"3TTJDHQGTOEFQNIMPTDPEABSKSACBPIPAIKHQAHRAGJATAESIRJQJBMAFPPKPSREITRF",
"3TTJDHQGTOERTFJCHGALJEQMAQQLABSKSACMPIKIQHAHRAMGJAGABMAFBQDANTTLJFBHONLOACQOAKPKPSITRF",
"3TTJDHQGTOERTFQNIJALJEQMAQQLABSKSACBPIKIQHAHRAMHGJATAESIRJQJBMAFBQDANTTLJBJFBHONLOACQOAKPKPSRPBIDNJLNBHKRBOCJDFEITRF",
"3TTJDHSKTGEFQNIJHLABSACBPIPAIKHQAIMHRAGJATAESIRJAJBMAFBQDANTTLJEQELOACQOAKPKPSEITR",
"3TTJPHQGTOEFQNIJAQGACQQLABSKSACBPIPAIKHQAIMHRAGJAMSIRQQJBMAFBQDANTTLJEJFBHONLOACQOAKPKITRF",
"3TTJSKTGEFQNIBDAHLABSACBPIPAIKHQAIMHRAGJATAESIRJQJBMBQTLAJTNDEQELOACQOAKPKPSBEITRF",
"3TTKSJDBSFLBFRQREFTJFAALPCRPCNNAQTMAGRNFDTCBFQERAOCGDFLNBSFMSCHCGDFLNBMCECHFFBJLPGOKJNPIPNBGIJCOKIMIPKHGHBINOIFOGOPFMJESHPJGGIEGCFFG",
"3TTKSJDBSFLBFRQREFTJFATMAGPGMNFDTCBFQABAOACEARGDFLONBSFMSCHFFKHQMSLDFIQGIPGIEGCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMAGPGMNFDTCBFQERAOCGDFLONBAEOHGLDFIQGEHPFLGIPGIEGCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMAGPGMNFDTCBFQERAOCGDFLONBSFMSCHFFKHQMSBADAQGEHPFLGIPGIEGCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMAGPGMNFDTCBFQERAOCGDFLONBSFMSCHFFKHQMSKGTGEHGLIQGEEPGIHBCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMAGPGMNFDTCBFQERAOCGDFLONBSFMSCHFFKHQMSKGTGLDFIQGEGPIHLCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMAGPGMNFDTCBFQOAERCGDFLONBAEOHGLDFIQGEHPFLGIPGIEGCFFG",
"3TTKSJDBSFLBFRQREFTJFQTMIGPGMNFDTCBFQERAOCGOPMSCHSAGTGEHGLIQGEEPJHBGIEGC",
"3TTKSJDBSFLBFRQREFTJFQTMMGPGMOANFDTCBFQERAOCGDFLONCSFCHFFKHQMSKGTGLDFIQGGEIPGIFG",
"3UAEFEAOFBGFDKBDGAHUDADTAHBGEDHGFDABDGHBQHGPLHHFMNDRDMCBHD",
"3UHAJLLCDKURJOJBFPBOTHBEHUBLCHBRKJAUQMRNSCGMREFMFTLOOKUQQGUGFQINFGTCUISTFHFSSH",
"3UHAQAJLLCDKURJOJBFPBOTHBEHUBLCHBRKJAUQMRNSCGMREFMFTLOOKUQQGUGFQFGTCUISTFHFSSH",
"3UJDLKURJOJBFPBOTHBEFUDLCHBRKJAUQMRNGMREFMFTDOHAUQQGUDDGFQIMFGTCUIKOSTFH",
"3UJLJOAJDIBAPBJTAGBRKJATAUQMRNSCGMREFMFTLOEKUMFGQGUIGTCIQKOSHFPLMHBK",
"3UJLLKDRJOJBFPBOTHBENEIABLCHBRKJQRMNBSSMHEFMFTLOOKUQQGUGFQIMFGTKUIPTKHBP",
"3UJLLKUDDBBOTHBEHUBLCADKCHBRKJAUQMRNSCGMREFMFTLOOKUQQEUGFQIMFGTCUISTFHFSSL",
"3UJLLKUFAROKPCDBENFRREBLCHDPAUQMRNSCGMNMFEFMFTLOGKUEAQQGGIFGTCUI",
"3UJLLKURJOFPBOTHBENEIABLCHBRKJUTQFAMRNSCGMSEFMFTLOOKUQQGUGIHUKGIPTFHBC",
"3UJLLKURJOJBAPBOTHBEFUBLCHBRKJAUQMRNSCGMREFMFTLOEKUQQGUGFQIMFGTCDCIKOSSF",
"3UJLLKURJOJBAPBOTHBEFUBLCHBRKJAUQMRNSCGMREFMFTLOGKUGFQIMFGTCUIKOSTFAAH",
"3UJLLKURJOJBAPCOTADIOPAUQMRNSCGMREFMFTLONAEKUQQGUGFQIMFGTCUIKOSTFHFSSH",
"3UJLLKURJOJBAPCOTAEADIOAEPAUQMRNSAGMREFMFTLONAAFEKUQQGUGFQIMFGTCUIKOSTFHFSSH",
"3UJLLKURJOJBAPRADIOPAUQMRHSCGMREFMFTLONAEKUQQGUGFQIMFGTCUIKOSTFHUH",
"3UJLLKURJOJBFPBOTHBECFCNCHBRHJAUQMRNSCGMREFMFTLOOKUQQGUGFQIGAMFGTDBCUISTFHFSSH",
"3UJLLKURJOJBFPBOTHBEFUBLCHBRKJAUQBGMRNSCREFMFTLOEKQAQHQGUGFQIMFGTCUIKOSTFDFSJS",
"3UJLLKURJOJBFPBOTHBEFUBLCHBRKJAUQMRNSCGMREFMFTLFKURGUGFQIMFGTDDCUJSTFHFSSH",
"3UJLLKURJOJBFPBOTHBENEIABLCHBRKJAUQMRNSCGMREFMFTLOOKUQQGUGFQIMFGTKUIPTFHBH",
"3UJLLKURJOJBFPBOTHBENEIABLCHBRKJAUQMRNSCGMSEFMFTLOOKUQQGUGFQIMFGTKUIPTFHBH",
"3UJLLKUROKPCDBENFRREFUBLCHDPAUQMRNSCGMRMFEFMFTLOGKUEAQQGUGFQIMFGTCUISOTH",
"3UJLLKUROKPCDKENFRREFUBLCHBRKJAUQMRNSCGMFMFTLOGKAQQGUGFQIMFGTCUISTHFFSSH",
"3UJLQDDCLKDRJOJBFPBOTHAUQRMNBSSMHEFMFTLOOKUQQGUGFQIMFAEKUINEIBBLCHBRKJPTFHDH",
"3UJLQDDCLKDRJOJBFPOAABCAQRMNBSSIIMHTEMFTLOOKUQQGUGFQFAEKUANEIAIBALCHBRKJUIPTFHDH",
"3UJLQDDCLKDRJOJBHPOAABCAQRMNBSSIIMHTEMFTLOOKUQQGUGFQFAEKUANEIABLCHMRKJUIPTFHDH",
"3UJLQDDCLKJOJBFPBOTHAUQRENBSSMHDDEFMFTLOOKUQQGUGFQIMFAEKUIQEIBIABLCHBRKJPTFHDBDF",
"3UJLQDGCLKDRJOJBFPOAABMNBSSIIMHTEMFTLOOKUQQGUGFQFAEKUANEIAIBALCHBRPTJFHF",
"3UJLQDGCLKDRJOJBFPOAABMNBSSIIMHTEMFTLOOKUQQGUGFQFAEKUANEIAIBALCHBRPTOF",
"3UJLQDKCLKDRJOJBFPBOTHBENEIBFABLCHBRKJAUQRMNBSSMHEFMFTLOOKUQQGUGFQIMEKUIPTFHBH",
"3UJLQDRAKCLKDRJOJBFPBOTHBENEIBFABLCHBRKJQRMNBSHSEFFTLOOKUQQGUGFQIMEKUIPTFHBH",
"3UJLQIDQQAKCLKDRJOJBFPBOTHBENEIBFABLCHBRKJAUQRMNBSSMHEFMFRLOOKUQQGUGFQIMEKUIPTFHQB",
"3UJLQIQAKCLKDRJOJBFPBOTHBENEIBFABLCHBRKJAUQRMNBSSMHEFMFTLOOKUQQGUGHQIMEKUIPTFHFQBH",
"3UKTCDIDCISADAAMNDHRHFMOCEFKRKRPDLMJTRGRSDTFPKPFNLPT",
"3UPSQCASAOEITCFAFROGHOHTFKSRUHTQPRIQLAOFDGDOUIICSKSFITIOAIETKPFIRICEDBTUFPHIOBBUOR",
"3UTAAGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNFDQDDCDNEPDEFIKBIUGNIDNMECPCFUAKEUHTFKRTRGGONRSMKLUCUPNHOLJC",
"3UTAAGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNFDQDDNEPDEFIKBIUGNIDNMECPCFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTAAGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNFDQDDNEPDEFIKBIUGNIDNMECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTCBEFUFLIAJAAHQMRNSCGMATEAAKUQQGUGFQIMFGJCUMMHMLPCKBDHENREFM",
"3UTCBEFUFLIAJAQMRNSCGMRDEAAKUQQGUGFQIMFGJCUMMHQPCILGPTLOKBDHENREFM",
"3UTGLNDJUJFJKSFQQURHDUAENQKNFMQMLSBMDFNUFNEPDEFIKBIUGNPDNMDIECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTGLNDJUJFJKSFSQURHHNDHNQKNFMQMLSBMDCMETFNUURQKNFMLSBMDUFNEPBIUGNPDONRSMKLUCUPNHOLJ",
"3UTGLNDJUJKSFQQURHDUNKNQFMQMLSBMFNFDOADNEPDEFIKBANIDNCECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNFDDNEPDEFIKBIUGNIDNMECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNFDJBEIAIONIDNMECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKMKLUPNHOLJI",
"3UTGLNDQKNFMQMLSBMFNDUFAANEPDEFIKBKUGNPDNMDIECPCGHFUGKEUHTFKDCTNRTRGGONRSMKLUCUPNHOLJI",
"3UTGLNDQKNFMQMLSJMFNDUSKKAANEPDEFIKBKUGNPDNMDIECDKPCGHFUGKEUHTFKBMDCTNRTRGGONRSMKLUCUPNHOLLJ",
"3UTGLNDQKNFMQMLSJMFNDUSKQKKAANEPDEFIKBKUGNPDNMDIECDKPCGHFUGKEUHTFKBMDCTNRTRGGONRSMKLUCUPNHOLLJ",
"3UTGLODQQURHDUNQKNFMQMLSBMFNFDDAEDDNEPKBEIIUGNIDNMECPCGHFUGKEUHTFKLMDCTNRTRGGONRSMKLUCUPNHJI",
"3UTGMNDJUJFJKSFQQURHDUNQKNFMQMLSBMDFNUDSAMFNEPDEFIKBIUGNPDRTRGGONRSMKLUCHPNHOLJI",
"3UTHBEFUBDDLCHKBRJAUQMRNSCGMRETFFMLOGIUGQGFQIMFGTCUMMAIKOS",
"3UTHBEFUBLCHKBRJAUQMRNSCGMREFMFTLOGKUQQGUGFQIMFGTCUMIKOSHF",
"3UTHBEFUBLIAQMRNSCGMREAMFTLOGKUQQGUGFQIMFGJCUMMEQPCBFMDS",
"3UTHBEFUBLIAQMRNSCGMREFMFTLOGKUQQGUGFQIMFGNTCUUMIKOSHF",
"3UTHBLIAQMRNSCGMREFMFTLOGKUQQGUGFQIMFGJCUMQPCPBEFURUDS",
"3UTHJUFQBLCHKCRJAKQMRNSPGMREFMFTLOGKUQQGUGNSBIOIMLELHGFGTCUMMDMKQKOSHD",
"3UTHJUFUBLCHKCRJAKQMRNSPGMREFMFTLOGKUQQGUGFQIMIBSNELHGFGTCUMMKQKOSHD",
"3UTHMEFUBLCHKBRJAUQMRNSCGMREFMFTOGLKUQQGUGFQIMFGTCUMELHQDB",
"3UULQAGCMIHGIFBAFEBFGIAHCEGSCMTOGNLQOKOSAKDRLCOAHDJGGL",
"3UULQJBGLNUIBDAMMOKPLSPNLGFJLEBOGRABOQHLCOAHOPKMIHIAIDEAMNGTLJHBOSJA",
"3UULQJBGLNUIBDAMMOKPLSPNLGSJLEBOGRABOQHLCOAHOPKMIHIAGTLFAJHBCKOJIDEAMNLJOS",
"3UULQJBGLNUIBDAMMOKPLSPNLGSJLEBOGRABOQHLCOAHOPKMIHIAIDEAMNGTLJHBOSJA",
"3UULQJBGLNUIBDPMMOKPLSPNLGDASJLBTOGNLQOKOSNBOQHLCOAHLABOOPKMIHIAIDEAMNGTLJHBCKOJABOG",
"3UULQJBGLNUIBDPMMOKPLSPNLGSJLEAETOLQOKOSNBOQHLCOAHBOOPKMIHAIIDEBMNGTLJHBCKOJABOL",
"3UULQJBGLNUIBDPMMOKPLSPNLGSJLEQSCMTOGNLQOKODDSNBOQHLCOAHBOOPKMIHIAIDEAMNGTLJHBCKOJABOL",
"3UULQJBGLNUIBDPMMOKPLSPNLGSJLETOGNLQOKOSNBOQHLCOAHBOOPKMIHIAIDEAMNGTLJHBCKOJABOL",
"3UULQJBGLNUIBDPMMOKPLSPNLGSJLETOGNLQOKOSNBOQHLCOAHLABOOPKMIHIAIDEAMNGTLJHBCKOJABOL",
"3UULQJBGLNUIBDPNLGSJLEIATOGNLQOKOSNBOQDAAHBOOPKMIHIDEAMNGTLJHBCK",
"3VABEAAMRBGDCNCTACCHHQAGTQVPDLDOGOLAAUTHBFDQOSCBAKLODTNQDPDISAICGLDJJUUDVDAVJAAPEJCRCDDHDM",
"3VABEAAMRBGDCNCTACCHHQAGTQVPDLDOGOLAAUTHBFDQRIOSIBAKBCLODTNQDPDISAICGLDJJUUDVDAVJMDRVCMUDAEJAPCPCRCDDHDM",
"3VABEAAMRBGDCNCTHQAGTQVPDLDOGOLAAUTHBUDQRIOSIBAKBCLODTNQDPDISAICGLDJJUUDHCVDCAAVJMDRVCMUDAEJAPCPCRCDDHDM",
"3VAJFSSQNPBAHPCLKMPVIPBPEPPKLPHUMPQPPTQLPAACELOPGRGFCBPSLARHKCRVLJCJBL",
"3VALABSKSACBAUPAIKPIHEICESNGGCCQDKAKPKPSSREITR",
"3VBAAMEBODTNQDPDISAPDICELDDHCDKCUJMDRVCMVDAEJDPCPMNDDANB",
"3VBAAMEBODTNQDPDISAPDICELDDHCVDCUJMDRVCMUDAEJAPCRCANDNNBEOHKIAPMIFGDEN",
"3VBAAMEBRBGDCNCTHSAGTQVPDLDOGOTHBUDQRIALOSIBBCLODTNQDPDISAOMICGLDJJUUDHCVDCAAVJMDRVCMUDAEJAPCPCRCDDHDM",
"3VBCFSSGLJTBNAKAMGDKHGMRVQTRTHBSLKLPTMGOHMNFCPDNJPBPVPJIPQPUTSAPPFIDUTSAAQSJELOPISGBFK",
"3VBKABEAAMRBGDCNCTACCHHQASTQVPDLDOGOLABFDQRIOSIBAKBCLODTNQDPCIGLDJJUUDVDAVJMKRVCMUDAEJAPCPCRCDDHDM",
"3VBMEBRBGDCNCTHQAGTHVPDLDOGRAUDQRIALOSIVBCLODNOTNQDPDISAICGLDJCHDVCAAVLMDRVCMUDAEDDHDM",
"3VGEATQNTJJNDGEHSQFJNAAOMNAQEAODSEGNJKTDTISVBIGOPTCDQETRLQGBAKNK",
"3VGUERFRRLFKDUPQUQFUCUUHSIIMSMUKQDIHLPINNUCVLESHQAMRRBQRLAPMRTVSVJGSMLJGEMKRBPCGSCDTMHUP",
"3VGUERFRRLFKDUQUQFUCHPSQFUUHSIIMSMUKQDIABUCVLESHQAMQAPMRTRBQTVMKRBPCGDCDTM",
"3VGUERFRRLFKDUQUQFUCHSPQFUUHSIIMSMUKQDIHFPCVLESGJMMQPRNSPMRTRBQRLAVMKRBPCGDMSCDTMHUP",
"3VGUERRLFKDUPSQUQFMRTVSVJGSMLJGEMKRBPCDMGSESHTAMBQQAADVJBCEHJBBPSCRP",
"3VGUHSRSMUKNQDIABVCVLEQVLJKFUFEFUBCGARTRBQRLAPMRTAMKRHJGKPIDOHFNIMBHGAMNMJNIREGHCOHETMHU",
"3VIJFSSGLJTBBEMGDCNAHGMRVDAQTRTHBSLKLPTMGOHMNKSPDAEANPBPVPEPPKIKGTUPFPPGIPBAPTAUEDOPGRGFCBLARHIAGB",
"3VIJFSSGLJTBJSKSCSENMGDCDTNAMRLQTRTHGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRGFCBPSLARHFPISGBLK",
"3VIJFSSGLJTBNSKSCSENMGDCDTFGHGMRLQTRTHBDCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRCBPSLARHFPISGBLK",
"3VIJFSSGLJTBNSKSCSENMGDCDTFGHGMRLQTRTHBDCFGDGCQJPNAJQSPKLPTMGOHMNKCTSAAQSLPCELOPGRCBPSLARHVPISGBLK",
"3VIJFSSGLJTBNSKSCSENMGDCDTFGHGMRLQTRTHBSPKLPTMGOHMNKCPIPPTSAAQSLELOPGRCBPSLARHFPISGBLK",
"3VIJFSSGLJTBNSSESKCNMGDCDTFGHGMRKATRTHBSPKLPTMGOHMNKCPPAPNVPIPSPPTSVLQSLELOPPFBCGRCSLARHISGBLK",
"3VIKASSGLJTBNSKSCSENMGDCDTFGHGMRLQTRFHBDCFGDGCQJPNALPKTMGOHMNKCTAQSLELOCGRCBPSRHFPISGBLK",
"3VIKASTGLJTBNSKSCSENMGDCDFFGHGMRLQTRTHBDCFGDGCQJPNALPKTMGOHMNKDTEQOCGRCBPSRHFPISGBLK",
"3VOPANAEQOSJDGBNKTDVRTRIPLBTJDPFBVPSMQAGDMMBCIQSMOGRTIIQGBTCDQETLQKN",
"3VQPABAVGAANMLLRSACOMOKNATGBVEOLBTMAARBVPSMQDMMBCIQECABSKSAESMFAQAHAAIMUEUUALPKAFPSQETLQ",
"3VQPABBCCRGTCOAMSOKLNTTAEQJDGEPLBTFKVEBVPSMQAGDMMBCITLQGBK",
"3VQPABCLAKOCRGJSLOFNTGEANOJQJMNTTAEQOSFGGEANKTDVRTRIPLLSFKVEBVPSMQAGDMMBCIQSMOTIQRGJTCDQETLQGBKN",
"3VQPABCLAKOCRGSLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMOTIQBIGOPTCBTJTLQGBKN",
"3VQPABCLAKOCRGSLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMOTIQBIGOPTCDQETLQGBKN",
"3VQPABCLAKOCRGSLTOFNTGEAJQJMNTTAEQOSJDKTNGDVRTRIPLFKVEBVPSMAADBK",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMMAJDGEANKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMOGRBJTIQBIGOPTCDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOAJDGEANKTDVRTRIPLFKVFBVPSTCDQETLQEBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLBTFKVEBVPSMQAGDMMVCIQSMOGRTIQBIGDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMOGRBJTIQBIGOPTCDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMOGRTIQBIGOPTCDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJDGEANKTDVRTRIPLFKVEBVPSMQDMMBCIQBMOGRTIIGOPNVTCDQETLQEBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJDGEDVRTRIPLFKVEBVPSTCDQETLQEBKN",
"3VQPABCRGCAKLSOLJOFNTGEAJQJMNTTAEQOSJLHKKTDVRTRIPLFKVEBVPSMQAGDMMBCIQSMO",
"3VQPABCRGCAKLSOLJOFNTGEATFRQJMNTTAEQOSJDGEANKTDVRTRIPLBTFKVEBVPSMQAGDMMBCIQSMOGRTIQBIGOPTCDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGEATQJFJMNTTAEQOSJDGEANKTDTIQVBIGOPTCDQETLQGBKN",
"3VQPABCRGCAKLSOLJOFNTGVSFKKNEATFJQJMNTFAEQOSJDGEANKTIVRTRIPLBNHSMQAGDMMBCI",
"3VQPANAEQOSJDGNKTDVRTRIPLBTFKVEBVPSMQBQAIQBIGOPTCDQETLQGBK",
"3VQPBNCRGCAKLSOBANTGEATFJQJMNTTAEQOSJDGEKNJLBTFKVEBVPSOQAGDMMBCIQSMOGRTIQBIGOPTCDQETLQGB",
"3VQPBNCRGCAKLSOBANTGEATFJQJMNTTAEQOSJDGEKNJLBTFKVEBVPSOQAGDMMBCIUSMOGRTIQBIGOPTCDQETLQGB",
"3VQPBNCRGCAKLSOLJOFNTGEATFJQJMNTTAEQOSJDGEANKNJLBTFKVEBVPSOQAGDMMBCIQSMOGRTIQBIGOPTCDQETLQGB",
"3VQVEBVPGCAKLSOLHOFNTGEATFJQHMNSAOTETQJDGEAFKTDVRTRIPLBTFKVEBVPSMQAGDMIBCIQSMOGRTIQBIGOPTCDQKLSOKN",
"3VSAAVNKCPVLJPVPEPPKLPLCHUMPHPEIPQPBCBPDPTQLPAACEROPIFGBBAICBL",
"3VSDAVNKCPVLJPVEEPPKLPLCHUMPHPEIPQPBCBPDPTQLPAACEROPIFGBBABL",
"3VSFAVNKCPVLGPVBBLBABCVFEPPKLPLCHUMPHPOCIQPDPTQLPAACEROPIFGBBJ",
"3VSFAVNKCPVLJPVFEPPKLPLCHUMPHPOIPQPBCBPDPTQLPAACEROPIFGBBABL",
"3VSJFBTBSGLBTGPGMGNDNAHGMRVJAQTRTHVSLKAPTMCOHMNKCPPTDAPNBPVPEPPKLPUQUPIPPSAUEFOPGRGFCJRHOIGB",
"3VSJFBTBSGLBTGPGMGNDNAHGMRVJAQTRTHVSLKAPTMCOHMNKCPPTDAPNBPVPEPPKLPUQUPIPPSAUEFOPGRGFCJRHTIGB",
"3VSJFGLNTBEAKAMGDCVQTDBQBCLKNCTGGOHMNKCVPLKPDNANBPVPEPKEMTUCUPPFPNAPPHIPPSLASHOPHI",
"3VSJFPCAAGKAMGDCNAHGMRPQTRTHBCLKFNTMGOHMNKCVPDPTBPVPEPPKLPGTUCUPPGIPPJSAAQSLPCELNPGRGFISLARHOPGB",
"3VSJFSLPGJTBBGKAMGDCNAHGMRVQTRTHBCLKFVTMGOHMNKCVPDKPLTBPPAVPEPEKGTUCUVPFGIUPQPPJPNLNGRGFISLARHOPGP",
"3VSJFSSGLBTBBGMGPGNDNAHGMRVJAQTRTHBSLKLPTMGOHMNKCPDAPNBPVPEPPKGTUQUPPJIPPTAUELOPGRGFCBPSRHOI",
"3VSJFSSGLBTBBGPAMGPGNDNAHGMREJAQTRTHBSLKLPTMCOHMNKCPDAPNBPVPEPPKGTUQUPIPPSAUELOPGRGFCBVSRHOI",
"3VSJFSSGLJBDTBBAMGDCNAHGMRVQTRTHBCLKGAGOHMNKCPDABPPKLPTMGTUCUPVPPIIVEPPTSAALSLELOPGRGFCIPSRHGPGB",
"3VSJFSSGLJTBABAGACKAMGDCNAHGMRVQTRTHBCLKFPTMGOHMNKCVPDPTBPVPEPPKLPGTUCUPAPPGIPPJSPSAAQSLPCELNPGRGFISLAPHOPGB",
"3VSJFSSGLJTBABAGACKAMGDCNAHGMRVQTRTHBCLKFPTMGOHMNKCVPDUABPVPEPPKLPGTUPPGIPPJSPPTSAAQSLPCELNPGRGFISLARHOPGB",
"3VSJFSSGLJTBABAGKAMGDCNAHGMRVQTRTHBCLKFPTMGOHMNKCVPDPTBPVPEPPKGTUCUPPGIPPJSPSAAQSLPCELNPGRGFISLARHOPGB",
"3VSJFSSGLJTBABAGKAMGDCNAHGMRVQTRTHBCLKFPTMGOHMNKCVPDPTBPVPEPPKLPGTUCUPPGIPPJSAAQSLPCELNPGRGFISLARHOPGB",
"3VSJFSSGLJTBABAGKAMGDCNAHGMRVQTRTHBCLKFPTMGOHMNKCVPDPTBPVPEPPKLPGTUCUPPGIPPJSPSAAQSLPCELNPGRGFISLARHOPGB",
"3VSJFSSGLJTBABAGKAMGDCNAHGMRVQTRTHBCLKLPTMGOHMNKCPDACABPVPEPPKGTUCUPPGIPPJSAAQSLELOPGRGFISLARHGB",
"3VSJFSSGLJTBABAGKAMGDCNAHGMRVQTRTHBCLKLPTMGOHMNKCPDAPABPVPEPPKGTUCUPIPPTSAAQSLELOPGRGFISLARHGB",
"3VSJFSSGLJTBBAACMGDCNAHGMRVQTRTHBCLKGAGOHMNKCPDABPVPEPPKLPTMGTUCUPPJIPPTSAAQSLELOPGRGFPSLARHGPISGB",
"3VSJFSSGLJTBBAADAPMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPBPVPEPPKGPIPPTSAAQELOPGRGFCBPSLARHISGBEK",
"3VSJFSSGLJTBBAADAPMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPBPVPEPPKGPIPPTSAAQSLELOPGRGFCBPSLARHITGB",
"3VSJFSSGLJTBBAADMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPVPEPPKGPIPBPPTSAAQSLELOPGRGFCBPSLARHISGB",
"3VSJFSSGLJTBBAADMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPVPEPPKTGGPIPBPPTSAAQSLELOPGRGFCBPSLARHISGB",
"3VSJFSSGLJTBBAKAMGDKNAHGMRVBEPTMGOHMNKCPPFUPBPVPDPPKLPGPPRIPQPUTSAAQSLEGGLONLNNPGRGFCBBSLARHOPISLK",
"3VSJFSSGLJTBBAKAMGDKNAHGMRVBEPTMGOHMNKCPPFUPBPVPDPPKLPGPPRIPQPUTSAAQSLELONLNNPGROPISSBLK",
"3VSJFSSGLJTBBAKAMGDKNAHGMRVQTRTHBSLKLPTMGOHMNKCPPFUPBPVPDPPKGPPEIPQPUTSAAQSLELOPGRGFCBLARHISGB",
"3VSJFSSGLJTBBAKAMGDKNAHGMRVQTRTHBSLKLPTMGOHMNKCPPFUPBPVPDPPKGPPTPEIPQPUTSAAQSLELOPGRGFCBLARHISGB",
"3VSJFSSGLJTBBAKAMGDKNAHGMRVQTRTHBSLKLPTMGOHMNKCPURBPVPDPPKGPPAAEIPQPUTSAAQSLELOPGRGFCTLARHISGB",
"3VSJFSSGLJTBBAKAMGDSNAHGMRVBEPTMGOHMNKCPPFUPBPVPDPPKLPGPPRIPQPUTSAAQSLEGGLONLNNPGRGFCBBSLARHOPISLK",
"3VSJFSSGLJTBBAKAMGDSNAHGMRVBEPTMGOHMNKCPPFUPIADPPKLPTAVPPRIPQPUTSAAQSLEGGLONLNNPGRGFCBBSLARHAGISLK",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBCLKGAGOHMNKCPDABPVPEPPKLPTMGTUCUPPJIPPTSAAQSLELOPGRGFPSLARHGPISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBCLKGAGOHMNLCPDABPEPPKLPTMGTVUUPPJIPPTSAAQSLELOPGRGFPSLARHGPISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBCLKLPTMGOHMNKCPDAPNBPBEAPGTUCUPVPPGPEIPPTSAAQSPGRGFLARHOPISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBCLKLPTMGOHMNKCPDAPNBPVPEPPKGTUCUPIPPTSAAQSLELOPGRGFPSLARHISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPBPVPEPPKGPIPPTSAAQSLELOPGRGFCBPSLARHFPISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPBPVPEPPKGPIPQPACPTSAAQSLELOPGRGFCBPSLARHISGB",
"3VSJFSSGLJTBBAMGDCNAHGMRVQTRTHBSLKLPTMGOHMNKCPDAPNBPVPEPPKGTUCUPIPPTSAAQSLELOPGRGFCBPSLARHISGB",
"3VSJFSSGLJTBBAMGDKNAHGMRVQTRTHBSLKLPTMGOHMNKCPPFUPBPVPDPPKGPPEIPQPPAUTSAAQSLELOPGRGFCBLARHISGB",
"3VSJFSSGLJTBBAMGDKNAHGMRVQTRUHBSLKLPTMGOHMNKCPBPVPDPPKGPPEIPQPPAUTSAAQELOPGRGFCBLARHISGB",
"3VSJFSSGLJTBBASAMGDCNAHGMRVDTRTHBCLKLPTMGOHMNKCPDAPNBPPOVPEPPDGTUCUPIPPTAQQLELGRGFCVPSLARHISGB",
"3VSJFSSGLJTBBASAMGDCNAHGMRVDTRTHBCLKLPTMGOHMNKCPDAPNBPPOVPEPPKGTUCUPPJIPPTAQQLELGRGFPSLARHISGB",
"3VSJFSSGLJTBBGMGDCNAHGMRVJAQTRTHBSLKLPTMGOHMNKCPDAPNBPVPEPPKGTUPPJIPPTAUELOPGRGFCBPSLARHIS",
"3VSJFSSGLJTBEAKAMGDCNAHGMRVQRHBCLKFPTGGOHMNKCVPDPTDNBPBQVPEPPKLPTMUCUPPNAPPHIPPSLAOPISGB",
"3VSJFSSGLJTBKAMGDKNAHGMRVQTRTHBSLKLPTMGOHMNKCPPFUPBPVPDPPKGPTPPEIPQPUTSAAQSLELOPGRGFCBLARHISTS",
"3VSJFSSGTJLBBAMGDKNAHGMRVQTRUHBSLKLPTMGOHMNKCPPAAQBPVPDPPKGPPEIPQPUTSAELOPGRGFCBLARHISGB",
"3VSJFSSNLNAVNKCPVLJPVPEPPKLPLCHUMPHPEIPQPBCBPDPTQLPAACEROPIFGBBABL",
"3VSJFSSNNAVNCPPEIPBPPTSAAQSLELOPGRGFGALARHPAKGPMLTVPSIGBCBLK",
"3VSJFSSNNPTMGOHMNKCPVLJPBPVPEPPKLPLCHUMPIPQPBAACPTQLPAELOPGRGFCBPSLARHIFGBBL",
"3VSJFSSNRPTMGOHMNKCPVLJPPNLCHUMPPEIPQPBAACBPPTQLPAEQOPGRGFCBPSLARHIFGBBL",
"3VSJFSTGLBTBBGPGMGNDNAHGMRVJAQTRTHVSLKLPTMCOHMNKCPDAPNBPVPEPPKUQUPIPPSAUEFOPGRGFCBRHOI",
"3VSPFSTGLBTBBGPGMGNDNAHGMRVJAQTRTHVSLKLPTMCOHMNKCPDABPVPEPPKUQUPPFIPAUEFOPGRGFCBRHOI",
"3VSQFSSGTJAKBKMGDKIJNAHGMRVQTRUHBSLKLPTMGOHMNKGPPAAQPBBDVPJPPCDLPEOPQPUTSAELGRGFCBNBLARHISGB",
"3VSQFSSGTJAKBKMGDKIJNAHGMRVQTRUHBSLKLPTMGOHMNKGPPAAQPBBDVPJPPCDPPEOPQPUTSAELGRGFCBNBLARHISGB",
"3VVGURDQNIHVVDRBVBDGQTTDNQUJUKBSONPNBJIMIFILSFTVHRPVOQTGFCQMLRPACQIOKVSVQGCICMSULHRS",
"3WALAHPAATWAAMAJBAAOAIRADAAG",
"3WBFHEABFQCHDEGAFGGHAFECDAHAFECDDHBHACEA",
"3WCLACAHPAATWAAMAJBAAOAIRADAAG",
"3WCLACBAKAAHEAARAOAPAIDAATWAANAJAG",
"3WCLACCUAHPAATWAAMAJBAVAAOAQAIRADAANAG",
"3WDAAHPAATWAAMAJBAACEAARAOAIANAG",
"3WDQANABDRLAQIBEASGLLHBOBJHQKBHIPDECCBAMPAEJEFFKEOAGNSETJCKEKTLMIDRAEN",
"3WDQANAGDRALQIBEAPLHBOBJHQKBHIPDECCBAMEJEFFKEONSGLETJCKEKTLMIDRAABEN",
"3WDQANKCDRLAQIBEASGLLHBOBJHALBIHPRACCBAMPAEJEWFAAGJSAQJCMCTCETEFWKEOJAABEN",
"3WLSJBGLUQNIOVVRBDPMMCKVVPONSQLETOGNLOKONBVCCTMVLJUBCKVWEAAQHFCOAFLABOKMIHIANDMNABWO",
"3WLSJBGLUQNIOVVRBDPMMCKVVPONSQLETOGNLOKONBVCRCCTLJUBCKVWEAAQHFCOAFLABOKMIHIANDMNWO",
"3WLSJQBGLNUIBDPMMCKVVPONLGSQLETOGNLOKONBVCRCCTVOLJUBCKVRVWLQHFCOAFLABOKMIHIANDEAMNGOOJABWO",
"3WLSJQBGLNUIBDPMMOKVVPONLGSJLETOGNLQKOOSNBVCRCVTVRVWHFCOAHLABOKMIHIANDEAMNGOLJUBCKOJABWO",
"3WLSJQBGLNUIBDPMMOKVVPONLGSJLETOGNLQLOOSNBVCRCVTVRVWHFCOAHLABOOKKMIHIFNDEAMNGOLJUBCKOJABWO",
"3WQBPNMCKIDJCQAMECNBFCSIQFEHFREOPSQKMGMFPOFBTPADNCDSQATLJSSQDMNMKDNR",
"3WTBBABEMIBGDCNDCNCTHCTHQAGTQVPDLDOGOLSAATHBUDQRIASIKBCLODTNQDWICGUKVDCAAVJMDRVCMUDAEJAPCPCSRCIDHD",
"3XLNLHIFBRCGBHHAMHVAHDBAAJADIADBDIMLLFEHKEFMIEGKMIBI",
"4EBCAEDCADCADE",
"4MFLABBCCGCECMEGADKHCDIEKMDHACCJLIKJFH",
"4MFLFHBAACKBAMIEKMEAHAJCIFALIKJF",
"4MFLFHBAACKBIJEJHJCJJMCELDKABHDFDHJKJGMIKEBIFJ",
"4MFLFHBFKFHBCKBIJEJHJCMGELDKHDFDBJEAAJ",
"4MJBKEILKDCFGBGLBKMKFMIDFEFKCKHIIAJIADMH",
"4NBCKNDHKCEDDLFKDAMJDNDFBAKEJAMAGDDBJBLKIJHJKJDC",
"4NCHDJLINKNIFCDAEAGIFECDHDALGLJCBKGJGAFADBKG",
"4NCHDLFKDGBCGCFMDFHEHJGEMLJGEMKDDMHADBCDLAGAFGILNFND",
"4NCHDLFKDGBCGCFMDFKDICMEAMLHEHJGAFGILNFNDB",
"4NCHDLFKDGBCGCFMDFKDJIICMEAMECLHEHJGAFLNFHDB",
"4NCLDLFKDGBCGCFMDFHEHJGEMLJGEMKDDMHADBCDLAGAILNFND",
"4NIAHMKHENIMKANAGAIFALBEIJLEABDECEDIAFJAJH",
"4OMHOFDKIHNLFIJEDAJADLBABGJCFMDBFCJGNMEFOLCA",
"4PMBDJBLCPPMFPCDANHEBIGNPHKPLHEBIGFMCGOBADKOCABJ",
"4PPAFGMADCCNNFDBFLGIFBBEOPHKAECIBJAJBMAFBADANDDLJEJFHNEN",
"4PPBNBFBJHDIJDEAJPMCGEFEGIFMKHLECIFLAOHPFA",
"4QLMPKOAAQHKHPDBHQALBLQJAMBAADQECAKAAHLCICNAAEFIIGLH",
"4RNJANDFEBCHFBDGFEGHAFLCIHRNEGIDGJBDCFBHBGABACEDBCHFGFHAFLCIHEFRNEGIJBEAEKKBJCFKJEJDFNJADNINNKAOLNCGHKMDBNLINM",
"4RRQARLDNBFEMDCJOQRHQHAMFLCMBHFQPBPGFOKJDHGABIBKCLDEIRNJNMDOLEHJIF",
"4RRQARMQPBPGFGHIJECEFBGBAGAJDBOKJDBIBKCLIDERNJEOELNDHAJIFECDEP",
"4RRQARMQPBPGFOKFHGABIBKCLIDERNJEOMLNDHJIFC",
"4RRQARMQPBPGFOKJDBGABIBKCLIDEFIMDMDOLEIJIF",
"4RRQARMQPBPGFOKJDHGABIBKCLIDERNJNMDOLEHJIF",
"4RRQARMQPGFOKJHGAC",
"4RRQBEEARMQPBPGFOKFHGABIEKCLIDCRNJOMLNDHJIBKEF",
"4SAHARJOQGJQKRQBCHDJJBCFEMDCQHLJAPQDKBMIAM",
"4SCABQJQQHKQBDRBCBBAANQLHBAQAKJBGBLSCPIARABPBFGABKNDMI",
"4SCABQJQQHKQBDRBCBBAANQLHIAQAKJBGBLSCPIADAARPBDNOGEG",
"4SCLMSRHSAFSJSPSBLOSNELHPBLAMFHPAPNSQSABEMMLSBGCCQJLKGBJSC",
"4SIAABFARIPAAKCHCFANDJIBECJOGKADCLFLOIAMJFONMICISIIP",
"4SIAICABFARIPAIKHCANDEIBACHAOPIJEIAGKAHMFCGISIIOMLONJAMFIP",
"4SIAICABFARIPAIKHCASANDEIBACHAECJOAGKAHMFCGISIIPIOMLONJAMF",
"4SIBFAEAAPNIIECJOIHICIAKCHGFANACBAADCLFSLOIFIMMJILKIPI",
"4SIBFAIAARAKCHCFANDQAPECJOADCLFLOADIAMJFOIMICISIINIP",
"4SIBFAIAARPIAKPAECJOCHCFANADCLFLOIAMJFONMICISI",
"4SIOBFAKEAAPNIRIIHEIICIAKCHGFANACBDCLFSLIJCHLKIQIP",
"4SIOBFAKNIRIIDIHEIAOIAKGFCNBDCLFDLFAIJMILKIQIP",
"4SIOBFAKNIRIIDIHEIICIAKCHGFCNBDCLFDKFAIJMILKIQIP",
"4SJRBCOQJQQHKQBDRBBAANQLHBAQAKJBBSPHDABGIABPIMASNLGEGQHI",
"4SKIIPFSJSPSBLOSNIIELHPBLIMFHPNSQIIJAGAOELAPALQJLKGCSC",
"4SKLACJOQASLRHLAMAKAPMHAJLMIMFRLAJLMIPFR",
"4SKLACJOQASLRHSHLHGBAKPLMOMFRLAJLMIAMPFRLAJLMIAM",
"4SKLAJRJOQASLRHQHAMFDNBFEMDCMBHGLQHNFPELJMKFSHLMINMI",
"4SKLARAKAHQSAMFLLDNBFEMDCMBHGLQRLAHNFPELJMABACFSHLAJQLAIHI",
"4SKLARAKAHQSAMFLLDNBFEMDCMBHGLQRLAHNFPELJMABFSHLOARLAJQLAIHI",
"4SKLARJOQAACFLLDNBFEMDCMBHGLQRLAHNFPELJMABKFSHLHGKPLMOMFRLAJLMIAMI",
"4SKLARJOQASLHRHQAMFLLDNBFEMDCMBHGLPRLAEDGPELJMKFSPLHGKPIIFRLAJLMIAMI",
"4SKLARJOQASLRHQBIDOKQHAMILERLDHLMIAS",
"4SKLARJOQASLRHQHAMFLLDNBFEMDCMBHGLQRLAHNFPELJMABKFSHACILHGKPLMOMFRJLMI",
"4SKLARJOQASLRHQHAMFLLDNBFEMDCMBHGLQRLAHNFPELJMABKFSHLHGKPLMOMFRLAJLMIAMI",
"4SKLARJOQASLRHQHAMFLLDNBFEMDCMBHGLQRLAHNFPELJMKFSHLMIAMI",
"4SKLARJOQASLRHQHAMFLLDNBFEMHCMBHGLQRLAHNFPELJMKFSHLHGSNKPLMOMFBAADRLAJLMIAMI",
"4SKLARJOQASLRHSHLHGKPLMOMFRLHGKPLMHJIAMI",
"4SKLARQAAJOAACFLLDNBFEMIBDCMBHGLLAHNFPQELJMABKFSHLHGKPLMOMIA",
"4SKLMSRHSPFSJSBLOSNIIELHPBLAMFHPNSQIISABEMSBGPPCMQJLKGSC",
"4SKLMSRHSPFSJSBLOSNIKIIELHPBLAMFHPNSQIISPFBAELGPAPQJGSCM",
"4SKLOJRQSLRHQHGLFLLDNBFEMDCKBELHANFPEHJMABKFSHGKPLMOMFRLJLMIAM",
"4SKPAGAEAQSAMFEPEIEKDNBFQHDCMDHNFPJMABACAIAKNSHLAJQLHI",
"4SKRPBGAAIAQRJOQASLRBHMAFRPOHDEPFCKCMBHGLQAHNFLSNAJAACBADALI",
"4SKRPBGAAIEIAQRJOQARSLHAFBMRAPOHDEPFCKCMBHGLQRLAHNERSNAJANCAABADMA",
"4SLGGBMSRHHPFSJSPSBLOSNELHPBMAMLBMSRHSPFSBLOSNELHAQNSQSABIIFCM",
"4SLMSBFAKRHSPFSJSPLOSNELBAAPESBLOSNAHMBPQLRGCBSQJLKGSC",
"4SLMSBFAKRHSPFSJSPLOSNELBAAPESBLOSNAHMBPQLRGCSQJLKGSCM",
"4SLMSBIBKRHSPFPJLOSNELDRFSJSPSBLOSNAHMBPLAABARGQCSQJLKGSCM",
"4SLMSBIBKRHSPFPJLOSNELDRFSJSPSBLOSNAHMBPLAARGQCSQJLKGSCM",
"4SLMSBKRHSPFSJSPLOAEBAESBLOSNAHMBPQLRGCKSQJLKGSC",
"4SLMSBKRSHPFSJSPLOSNESFNBLOSNAHMBPQLRGCSQJLKGSCM",
"4SLMSBRHJSPSBLOSNELHPBLAMRAHAIIJEMMDCBGSCJRFSQCM",
"4SLMSBRHSPFSJSBLOSNELHPBLAMRAFHPNSQSMSABEMGCJLKGSC",
"4SLMSRHSPFSESPSBLOSNFABLAMFHPNSQSMSABIIEMHRMLSBGCSQBNAAJLFGSNC",
"4SLMSRHSPFSJSPSBLOSNELEMHMLBGCSQJLKGSC",
"4SLMSRHSPFSJSPSBLOSNELHPBLAMFHPNSQSAHEMHRMLSBGCSQJLKGSCM",
"4SQDDBOAJDLKHKNDPFAMRKFNMPSJRAFODLQPQGJCFMFRFKDFHQGOFJEJIR",
"4SQDDBOAJDRKFNMPSJKHJRAFODLQPQGJCFMDBFRFKDFHQJEJIR",
"4SQIDBOGCASQFIINFDLQIPCMSFFRFKHGEGPQIABFKDFNDLFHQGOFJFLFEJIR",
"4SQIDBOGCASQJNFNAEEFAFDLPIQGOCFMFRFKDFHGQFIGJAODBFKDFHOFKMRC",
"4SQIDBOGCASQJNFNAGEADLPQCFMDBFRFKDFHGEAFFDLQIPQGOCFMFKHQFJEJIR",
"4SQIDBOGCASQJNFNAGEFAFDLPQCFMDBFRFKDFHGEFDLQIPQGOCFMFKHQIR",
"4SQIIGEADLPQGOCFMDBFRFKDFHGEAFFDLQINLCFMDBFKHQOFJFFEEJ",
"4SRFNJFHKBOIRHIHGBQSNLCOEONBGPEARIAGLKGSMAGMEGEIIQPQBJKROM",
"4SRHQHAMFLLDKNBFEMHCMBHGLQRILAHNFPELJMKFSHLHGKPLMOMFRLAJLMIAMI",
"4TAOPBFBASKNKJAGIGMGMPAFOGNRLBCAGFFEHKKTTNPLNFJNAHPIGSKRQTFKENPDDBQKFP",
"4TARTDJEJIKORERMJNEFHGLQACRCSNNODJLNCPGAPAPQEKGEJKDNOLJHJG",
"4TBCBQJQQHKQBDRBQCLHBAQTKJBGBLSPHDGHBTTGPBAPAQIMTSNLGACJETQS",
"4TBCBQJQQHKQBDRBQPQLHBAQSAETQS",
"4TBCBQJQQHKQBDRJLHBAQTKJBGBLTPHDGHBTTIPBQAIQGESI",
"4TBCBQJQQHKQBTLAJBGBLSPHDABAAMRQHBFDRAQGTIPBKNMJQMQAKLCAIESNLJIK",
"4TBCBQJQQHKQBTLAJBGBLSPHDABHBAAFDRGTITBPBKNMAMRQMQAIETTSNLGIKE",
"4TBKBQJQQHKQBTLAJBGBLSPHDABHBAAMAFLRBCMTITBPNMEIIBLFIOAOREEABNMCES",
"4TBLFHPACRNGDLFPPIPQOPJPDETPJTPDSQPSBPMPEPCPIEPHLPNPPRISRNGPKAMAACJOBKMKQOPKMGTF",
"4TBLFHPACRNGDLFPPIPQOPJPDETPJTPDSQPSBPMPEPCPIEPRISRNGPKMACJOBKQOPKMGTF",
"4TCKFOPBDAPAEFLKHAGLGEIABFASKNARKJGAMAMFOGCIKIJLINRLFKHD",
"4TCKFOPBFBASFEHKKTTNPLNFJNAHPIKNKJAIGAMAMPAFOGNRLFCAGFGSKRQTFKENFDQKFI",
"4TCKFOPBFBASFEHKKTTNPLNFJNAHPIKNKJAIGAMAMPAFOGNRLFCAGFKDGSKRQTFKENFDQKFI",
"4TCKFOPBFBASFIDATNPLNFJNAHPIKNKJAIGAMBNRLFCAGFFEHKKAMPAFOGKTGSKRQTFKENFDQK",
"4TCKFOPBFBASKNKJAIGAMAHAMPAFOMNRLFCAGFFEHKKTTNPLNFJAQHGSIGDBQKLE",
"4TCKFOPBFBASKNKJAIGAMAMFOGNRLFCPNAGRFKENFDDBQKFP",
"4TCKFOPKKBFBACHPPNKJAIGAMAMPAFOGNRLFGFFEHKKTTNPLNFJNAHPIGSKRQTFKENFDDBQKFP",
"4TCKFOPKKBFBACHPPNKJAIGAMAMPAFOGNRLKGFFEKTTNPLNFJNAHPIGSKRQTFKENFDDBQKFP",
"4TCKFOPKKBFBACKFKENFPHNKJAIGAMPAGNRLGFFEHKKTTNAFHJNPNLPIGSKRQP",
"4TECCFCMPQMRMJENPSACELOAPIPEEDTKSMMPIMRCAFPHOCFMQNEKPJBHMHFLKHKNDPFTERGF",
"4TECCFCQPQMRMJENPSACELOAIACHKAFBNHGMCJAPIGOGDAHAARPGCDFAEAFDEDAB",
"4TFATDJEBIKORERCDNBFEMJNEFHGLQACSNNODJLNCQEKJKOLJHJG",
"4TFATDJEGFGARNIJNENQCNHNRMRQPNRCSNOJDLQINKGCJKARNIJNQCNAABDPNOLJHJSR",
"4TFATDJEJIKORERCDNBFEMJNEFHGLQACSNNODJLNCQEKGEJKOLJHJG",
"4TFCAHASDHGHCDQCKLDLRSHSRIDICTARHLRQERDEOCBARTKRJDOFMCRJMRPRRFNPPCBL",
"4TFCCDKDCKLRQSHSCIDISTRALSHRRQHAERNECGBAASHGRTRKJBOFMCRJMDSNFRSRBG",
"4TFCCDKLRQHRRSRINDISTRALSHNHAERDEKOBHGRKNBACOFJAMCRJMBGQ",
"4TFCCDLDCKLRQSHSRIDISTRALSHRRQHAERDECOBAASHGRTRKJBOFMCRJMDSNFRSRBG",
"4TFCCDLDCKLRQSHSRIDISTRALSHRRQHAERDECOBAASHGRTRKJHOFMCRJMDSDPRQARMQPBNFRIS",
"4TFCCDQCKHDLRSHSRIDICTRALSHRRQHAERDEOCBAASRTKRJDOFMCRJMRPRRFNPPCBG",
"4TFCCDQCKLDLRGHSRIDICTRALSHRRQHAERDECOBAASSGRTRKJDOFMCRJMRSNFRSRPCBG",
"4TFCCDQCKLDLRGHSRIDIPRCTRALSHRRQHAERDECOBAASSGRTRKJDOFMCRJMRSNFRBG",
"4TFCCDQCKLDLRGHSRIDIPRCTRALSHRRQHAERDECOBAASSGRTRKJDOFMCRJMRSNFRSRPCBG",
"4TFCCDQCKLDLRSHSRIDICTRALSHRRQHAERDECOBAASHGRTRKJDOFMCRJMDSNFRDPPCBG",
"4TFCCDQCKLDLRSHSRIDICTRALSHRRQHAERDECOBAASSGRTRKJDOFMCRJMRSNFRPCBG",
"4TFCCDQCKLDLRSHSRIDICTRALSHRRQHAERDEOCBAASHGRTKRJDOFMCRJMRPRRFNPPCBG",
"4TFCCDQCKLDLRSHSRIDICTRALSHRRQHAERDEOCBAASHGRTKRJDOFMCRJMRPRRFNPPCBL",
"4TFCCDQCKPDLRSHSRIDICTRALSHARNQRERDECORTRKJDOFMCRJMRSNFRBRPCBD",
"4TFCCDQPPCKLDLRSHSRIDICTRALSHARNQRERDECOBAASSGRTRKJDOFMCRJMRSNFRBG",
"4TFCCDRKKLRQSHSRIDISTRALQHAERDECOBHGJBAOFJAMCRJMDSNFCBGQ",
"4TFCDGCDQCKDHLRSHSRIDICTRALAHRRQHAERDECOBAASSGRTRKJDORMCRJMRSNFRPCBG",
"4TFCDGCDQCKDHLRSHSRIDICTRALSHRRQHAERDECOBAASSGRTRKJDORMCRJMRSNFRPCBG",
"4TFCDQKLDLRSHSRIDICTRALSHRRQHAERDECOBAASHGRTRKJDORMCRJMDSNFRDPPCBG",
"4TFCKAAOPBFBASKNKJAIGAMAMPAFOGNRLBCAGFFEHKKTTNPLNFJNAHPIGSKRQTFKENPDDBQKFP",
"4TGACAADPQMRMJEPPAMBOMAOOPNPSACPPDTKSMMPGPKAFPHPCFMQNAPJHFLCAERPPB",
"4TGACAPQMRMJEPHPPAMBOMAOOPNPSAPMBPMAPSHLDTKSCFMQNACPPJHFLCAERP",
"4TGCABAQMRMJEPFPPONPSACPPADPTKSMMPGPLAHPAOCFMQNAEKTRJBMHFLCADAER",
"4TGCAIPQMRMJTKSMMPOPEPPAQNPSACPDLAFPHPGPAOCFMLNLEKPJBMHFLKHKNPDFTERPPB",
"4TGCCFAIJEGPPNPSACECELOAPRPEEDBTKSPIRFPFOCMQNEKPJBMHFLKHKNDPFTMPQP",
"4TGCCFAIJEHPPNPSACELOAPRPEEDBTKSPIMRCOAFPFFMQNEKPJBMHFLKHKNDTMPQPB",
"4TGCCFCMPNJEMQPARSACELOAPIPEEDTKIMMPAFPHOCFMQPKEJNBMHFLKHKNDPFTERP",
"4TGCCFCMPQMRMJEMPSAQELOAPIPEEDTKSMMPIMRCAFPHOCFMQNEKPJQMPFLPPKFKNDTERPPB",
"4TGCCFCMPQMRMJEPLPNPSACELOAPRPDTKSMIPICOQFPFFMQNEKPJBMHFLKHKNDTNPB",
"4TGCCFCMPQMRMJEPMPQMJEAKPNPSACOAPIEDTKSMPJBMHFLKHKNDPFTMRPPB",
"4TGCCFCMPQMRMJEPNPSACELOAPRPDTKSPICOAFPFFMQNEKPJBMHFLKHKNDTMPB",
"4TGCCFCMPQMRMJEPOPNPSACELOAPIPDTKSCOAFPFFMQNEKPJBMHFLKHKNDDFTERPPB",
"4TGCCFCMPQMRMJEPSACELOAPIPDTKSCSACELOAEDTKSMMPIMDRCOTPRCFIFOMQ",
"4TGCCFSAPTQMRMJEPNPSACELFRFONESKPJBMHFLKHKNDPFTEQPPB",
"4TGCCMPQMRMJEMPSAIPEEDTKSMMLAPIMRCAFPHOFQENKPJBOPFLPPKFKNDTERPPB",
"4TGCEAPQMRMJEPAPPNMPPSDTKJJSPOPLAFOHCPQNSMEKPJBMHFLKHKNDPFTERPPB",
"4TGCPAMRMJEPAFPHLPKFKNBGDPFTERPNTSKSPOOHCPQNMFAEKPJBMCHFLKHKNDPFTERPPB",
"4TGCPQMRMJAPJPKPRTKSPOPLAFPHEOCFMQRECPNAEKBQHFLKHKNDPT",
"4TGCPQMRMJEPABCPDPPNPSAMPOPLAFOHQNJBMHFLKHKNDFDTPFTERPPB",
"4TGCPQMRMJEPAPNMJEPDTKSMMPOPLAFOHCFAEKPJBMHFLKHKNDPFTERPPB",
"4TGCPQMRMJEPAPNPSACPPDTKSMMPOPLAFPHOCFMQNAEKPJBMHFLKHKNDTERPPB",
"4TGCPQMRMJEPAPNPSASPPDTKSMMPOPKAFPHOCFMQNAEKPJBMHFLKHKNDTERPPB",
"4TGCPQMRMJEPAPPONPSACPPDTKSMMPGPLAFPHPAOCFMQNAEKPJBMHFLCAERPPB",
"4TGCQAPQMRMJEPOGRLOEFNSTRBTDINBK",
"4TGKSFCNDPQMOPRARMMPMLGASKPJBMHFHKNDPQJEMNNPAMLKPFTERGPTFBFE",
"4TGKSFCNDPQMQPPMRMMLABCPPKHKNDJEMNNPSKPJAMHFLKPFTERGPTFBFE",
"4TGKSFCNDPQMQPPMRMMLCPGASKPJBMHFHKNDJEMNNPAMLKPFTERGPTFBFE",
"4TGKSFCNDPQMQPPMRMMLPFOPCPGASKPJBMHFHKNDJEMNNPAMLKTERGPTFBFEFO",
"4TGKSFCNDPQMRMMPMLGASKPJBMHFHKNDPQMJENNPAMLKPFTERGFB",
"4TGONAPABJEACAOPLAFOHCPQNMFAEKPJBMHFLKHKNDPTCR",
"4TGONAPABJEACAOPLAFOHCPQNMFAEKTJBMHFLKHKNDPTCR",
"4TJBCQBQHQKQBDRBCBQJLHBAQTKABLSPHDGHBGTABITBPBQA",
"4TJBCQBQHQKQBDRBCBQRLHBAQTKAAGGBLSPHDATABITBPBQA",
"4TJBRCQBQHQLBGAHBNHLDFBDRBCBBMQTKAGKBLSPHDABGHTABITBPBQABE",
"4TJBRCQBQHQLKQBDRBCBAHBMQTKAGKBLSPHDABGHBGTABITBPBQABE",
"4TJNPHQAMKBJMEGBQSLDTSINCDCKLCSIJTEBNLLHNEGNLPPCTB",
"4TLGAJFMTALTHCGOINGKMBEOBIADJGFGBEGHDKDBCDON",
"4TLSGMOCHRBDATALTHNGMIJIDALBAHFQOJFKASCDENKE",
"4TLSGMOJHRBDATALTHCONGMILJQRQATBPIFQFKASCDBAPENKES",
"4TLSGMOJHRBDATALTHCONGMILJQRQATBPIFQFKASCDENKE",
"4TLSGMOJHRBDATALTHCONGMIPJQRTBPIFQFKASCDENKE",
"4TLSGMOJHRBDMTALTHCONGMILJQRQATBPIFQFKASCDPENKES",
"4TMOJHHLSGRBDPAPATALTHCONIGPBMNRQPIFQOJFKASCDENKEC",
"4TMOJHRBPATAJTHLSGIODALTHCOJJGPBMNRQPIFQFKASCDENKE",
"4TMOJHRBPATAJTHLSGIODALTHCONJGPBMJRQPIFQOJFKASCDENKE",
"4TMOJHRBPATAJTHLSGIORNDALTHCONJGRPRIFBAQJMOJFKASCDENKE",
"4TMOJHRBPATALTHLSGALTHOCNIGPBMNRQPIFQOJFKASCDENKER",
"4TMOJHRBPATALTHLSGDAHCONIGPBMNRQPIFQOJFKASCDENKE",
"4TMTEMEJPIDBIOKETDFMPBDIOSISLEAERKMSDGDPDFPGMLDSHERHNSCNRAQKQRRT",
"4TMTETDFMEPJFMCBFGSFIRKSODGDPDMHERHNSCNBAQKQ",
"4TNOMJSGHRBDATALTHCANAGMIPJQRFHLHMAHBPIFJAKASCDENKET",
"4TNTRFGIRNMGNFIAIPEQEKBETDSOFJCPTFKIGQAHFHNBHPFCLOCHSJDLPA",
"4TNTRHGENMGNFCAIPEQEKFNAETDKESOFJKEBDHHCBAQHNHBHPFHSJDLFRPAE",
"4TNTRHGENMGNFCAIPEQEKFNBETDKESOFJKEBDHHCBAQHNHBHPFRPAE",
"4TNTRHGENMGNFCAIPEQEKFNBETDKESOFJKEHABEKPIGMGQHPLOCHSJDLFRPA",
"4TNTRHGENMGNPAIFCEQEKFNHBETDSKOFJKEHEFNDHJPIGMGQNBHAAOCHSJDLFRAE",
"4TNTRHGENPPEQEKFNBETDCKESOFJCPQHHNBHPFCLOFLJCFREPDAE",
"4TNTRHGHNMGNFCAIPEQEKFNBELATDSKESOFJHEPIGMGQHPLOCHSJDLFRPA",
"4TNTRHNMGNFCAIPEQEKFNBETDKESOFJKEHEAHKPNGMGQHNLOJHSJDLFRPA",
"4UDPROFPDHQGTOERQNIJAQMAGACQQLUQPIJAQMBCABAKSAPHDAFAHAANQPAPBLPKPSQERA",
"4UDPROFPDHQGTOERQNIJAQMAGACQQLUQPIJAQMBCABAKSAPHDAFAHAANQPAPPKPSQERA",
"4UFADHQGTBANIACADFEFQUDBTJAQMPAGCQRQQLNJUAMACSAKSAHFDEPLUBLAHBKBID",
"4UFADHQGTBANIACADFEFQUDBTJAQMPAGCQRQQLNJUAMACSAKSAHFPLUBLAHBKNRIJH",
"4UFPDHQGTOERQNIJAQMAGACQQLUQPIJAQMBCABAKSAPHDAFAHAANQPAPPKPSQERF",
"4UFPDHQGTOERQNIJAQMAGACQQLUQPIJAQMBCABAKSAPHFAEAHAANQPAPPKPSQE",
"4UFPDHQGTOEUQNIJAQACAUADDCRQLQIQNIJQMABAASDSTSJAFBPKPSPEEQ",
"4UFPDHQGTOEUQNIJAQMAGACQQLUQNIJAQMACABSKSAHFPDHABQAPNAOBMPKASQEA",
"4UIBDHGQKGRBIQNOHLAMSFBEDCMDOJLKIFSMPACJNHQDPERA",
"4ULMSRHSPFSJSPSBIEAUCDLDOD",
"4VGCCFCMPQMRMJESURNLJCVAPIPEEDTKSMMPIMRPJBMHFLKHKNDPFTENTN",
"4VQPABCRGCAKLSOLJDAGQATFJQJMNTTAEQFJMNAEQOVAAD",
"4VVGIOKASARAQTSDNFOQTGICQMLRVLIHIRMFCQKVGNBARSULHRSK",
"4VVGIOKASBVBDAQTSDNFOQTGFCQMLRVLIHIRMFCQKVGNBARSULHR",
"4VVGIOKVSVGQURDQNRBVBDEQDNQUJUKOJQBSONMILVFSTFHIRPVOCQMKRVLIHMOAQIVMSULHRS",
"4VVGIOODNFOQTGFCQMLRVLIHIRMFCQKVGNRSULHR",
"4WEAICCWANAQEJGDCADKGFFIPGLMNEAKAOCHBCLAAHTAWABAIABDBFCSSVQEMGSBJA",
"4WLMGNAPOHLKKENMAKEOKDPJACSQSMSHABEMHRDSLBDGCSQJGSCM",
"4WLMSRHSBFSJSNPBELHPLOBLAMABCSQJLKGSFHPNSQSMSABEMHRMLSBGCM",
"4WLMSRHSPFSJSPCDHAPBLAMFUPNSQSMSACHJEFCIBEMIAR",
"4WLMSRHSPFSJSPSBLOSNELHPBLAMFHPNSQSMABEMHRDGCSQJLKGSCM",
"4WLMSRHSPFSJSPSBLOSNELHPBLAMQFKMSQSMSABEMHRMLSBGCSQJLKGSCM",
"4WLMSRHSPFSJSPSBSNELHPLOBLAMABFHPNSQSMSABEMHRMLSBGCSQJLKGSCM",
"4WOFFGEANRCWEJGDCADKFIPTLMNEAKAOBCLAAHPAATWAABAIAUANRCTCHBSARVGQEMGSUDIEGAQAAJ",
"4WOFMCCIPAAGTADAAORAAEGQFPBACBCAANJPFAEHIBLKSRMNKMSHQSDTDFNHDKJAAVMI",
"4WOFMCCIPAAGTADAAORAAEGQFPLABACAANJPFAEHIBLKSRMNKMSHQSDTDFNHDKJAAVMI",
"4WOFMGAVABNUKAAFEVSAACADKGIPPLMNANKEIFQAPAOAVRUCAICBHAWBHCAESIRJQJMAFRAG",
"4WOFMGVANRAWANAQEJGDCADKGFEAKGSHOALMNEAKIFPORBLAARHAAPTWABAITCCBSOVGQESJJA",
"4WOFMGVANRCWANAQEJGDCADKGFEAKGSHOALMNEAKIFPOCRBCLAARHAAPTRVGQEMAABAITCSOSJJA",
"4WOFMGVANRCWAQEJGDCADKGFFIPGLMNEAKAOCRBCLAAHPAATWAABAITCSARVGQEMGSJAAG",
"4WOFMGVANRCWEJGDCADKGFFIPTLMNEAKAOBCLAAHPAATWAABAIANRCTCHBSARVGQEMGSUDJAAG",
"4WOFMGVANRCWEJGDCAGFFIPTBHNAAKAOAEBCLAAHPAATWAABAISVRCTCGBSARVGQAQAGRADAJG",
"4WOFMGVANRCWEJGDCAGFFIPTBHNAAQRVBCLAAHRAATWASVRCKIFAOATCGBSAEAGEQGDAPAAIJG",
"4WOFMGVANRCWEJGDCAGFFIPTLMNEAKITFAOALAAHPAATWAABAISVANRCTCGBSARVGARADAAEJA",
"4WOFMGVANRCWJAAQEDAGCADKGFFIPGLUBAAMNEAKAOCRBCUAAHPAATWAAITCSDARVGQESJBLOSLH",
"4WOFMGVANRCWJAAQEDAGCADKGFFIPGLUBAAMNEASAKAOCRBCLAAHPAATWAAITCSDARVGQESJBLOSLCBH",
"4WOFMGVNAGQAEVAHLASAACADKGIPPLMNAKEIFACRCBVAAPNACOBAAWBHESIRJQJBDMBQAR",
"4WOFMGVQNGCWACADKGIPGLMNAKEIFACBHAAPIABAAWBHCIEGQEJGDKJAAMAG",
"4WOFMGVQNRCWAQEJGDCADKGFFIPGLMNEAKAOBCLAAHPAATWAABAITCDBSARVGQGUJAAMAG",
"4WOFMGVQNRCWAQEJGDCADKGFFIPGLMNEAKAOBCPATBAIRBTCDBSARVGUJAAM",
"4WOFMGVQNRQCCWAQEJGDCADKGFFIPNAMNEAKAODAAVASCBCLHAAPLATWBAIABTCHBSARVUGQEUJAAG",
"4WOFMGVQNRQCCWAQEJGDCADKGFFIPOAMNEAKAOBCLAAHPAATWAABAITCSARVGQEUJAAG",
"4WOFMGVQRAMAACJQEJGDDKSUURPONEAKISAOBCLAAHPAATWAABAIMOBTBSVGQEHJHUJAAG",
"4WOFMVVCNRCWEJWDCTCAGAIPTLCMNCECCUKITFAOCLAHPAATWAAKABAISCJAGBSARVUARADA",
"4WOFMVVCNSCWCUKITFAOCLACCQAHMAWAAGCPFJIMPAAKSCBIJAABTCEAALGMSARVUAAIJHCDDEQARADA",
"4WOMFGVNAGQAEVCABSDKGDJPCPNAFILMKERCPHOAPATAABWBHCAWSIRLQJBOMAFBRA",
"4WOMSWPWRHSPFSJSBLOSNELHPBLAMFHPNSQSABEMMLSBGCJLKS",
"4WOPTCGASQEFMBBAAHICANMCNKCBCWCAKCHCFAJADCLFVCOCWAIJCNRCCPCGASQAGESCRADAPATAAI",
"4XGCPAMRMJEPMPPCCXNPSAKPLPPDTMVMGPDAFPHPAOCFMQNAEKPIPJBMHFLCAERPPB",
"4XHDDLNSREEFEASPPAEPNUDTCGONKBIGBEOIRDBVJGBASQQAGMWMLJ",
"DRCPBEACJODANGPRRQHBLMQMDQCNRAMHELIEGIJHGADHKBDK",
"DRCPBEACJODNGFKFPRRQHBLNQMQCNMLRAMAHNELIEGIJHGADBDKI",
"DTBLAFHPCRTGDLFPPIPQOPJPAETPJTPDSQPSIAMPAHINPNLPADOHJCBKMKPKKF",
"DTBLFHPACRNGDLFPPIPQOPJPDETPJTPDSQPSBPMPEPCPIEPRISRNGPNPLPPHCJDAHOBKMKQOPKMGTF",
"DTBLFHPACRNGDLFPPIPQOPJPDETSTPDSSBEMPEPCRISRPNPLHCJDAHOBKMKQGT",
"DTBLFHPECRNGDLFPPIPQAPJPAETPJTPDSQPSBPMPCPIEPRISRNGPNPLPPHCJDAHOBKMKQOPKMGTF",
"DTBLFHPECRNGDLFPPIPQOPJPAETPJTPDSQPSBPMPCPIEPRISRNGPNPLPPHCJDAHOBKMKQOPKMGTF",
"DTJLNJAIATBSAJRAAEALAKHDPCTEBCODGDAGFEACBAFIKCAOTNNAHLLQAPMBAQSAMEBEAHAD",
"DTJLNJAIATBSAJRAAMAEALAKHDPCTEBCODGDAGFEACBAFIKCAOTNNAHLLQAPMBAQSAMEBEAHAD",
"DTJMCODAOPJPFAEHIBLKRMNKSHQSDTDFBNTQIRSPRGCESFOGQKFLGELD",
"DTMBDJRLCBSEHGNPQTKO",
"DTMBDJRLCFHNLIEAKQEBIGNPHSTPFMCGCDORQTKOSAMJ",
"DVCDEAVEAFGONR",
"DWEGFACAEBEDABFDCG",
"DWOFMEHAVEJAAIRADAPAATWAACBCEKANLCCG",
"ORCLHGEKAJDHGEELGCMGFGDFOFEARBAF",
"ORJAJORERCAQEAGOPNNHNCJLFANQMA",
"ORNJANEABQBIKORERCAGARJOKGHGEJDBLHEICFGDBHBEBGCHFAABACEDFEBCHFGFEGHAFLCIHEFRNEGIJBEKKBJCFKJDFNJADNINNKAOLNCGHKMDBLNCMF",
"ORNJANEABQBIKORERCAGARJOKGHGLHEBJDEICFGDBHBGCHFAABACEDFEBCHFBDGFEGHAFLCIHEFRNEGIJBEKKBJCFKJEFNJADNINNKQOLNCGHKMDBNLINM",
"ORRFOKGFDHADDIEABFDCGEDEFACERLPG",
"ORRFOKGFJQARMQPGFOKGKJ",
"ORRFOKGFJQARMQPLPGFOKGKE",
"ORRFOKGKJQARMQPLPGFOKL",
"OSKLARJOLMOMFRLAJLMIAM",
"OSSAIHMCGLNKQCDPILBRMDIFKDMGIEMLDIMAAGBNSC",
"OTMABFSORDCPJSMINLKNEQTG",
"OTNAGHDBLPJCATQNOBKELCLDHAJALMACBFIEBGCH",
"OTNAGHDBLPJCTAQNORKRJFCSQPFPMLIEPHGBMQKCOADH",
"OTNAGHDBLPJCTAQNORKSQPFJFCSQPFSTGEDH",
"OTNAGHDBLPJCTNQAOBKELCLDHAJALMACBFIEBC",
"OTNAGHPDJCTAQNORKRIBJFCSQPFAASTONOSEKTMLLBIEPHGBMAFIGEDH",
"OVCDEAFEAFGONR",
"OVCDFIAEAFFBBEEDCFGDFDAUIALB",
"OWRVABBFRCCAAWAEAQQKJIAMAJHA",
"OWRVABBFRCCAFRCMWAEAQAKJIAMKJH",
"OXGNWGLVGFOGKVBHDTCNXHCGLACUDBLCHMJGDGIHBN",
"PICBICGHHBGEEIFBAFEBFGIAHC",
"PKBEFAGICBFBBAIBEFFGKFFJDKIHEGICBHKJECEAAGDI",
"PMCHCACKMBMIKBMCICFHGFCGJMIDJKIGJBGJJCDAAKECBAGEIEKGIHMDHAJLIFLAFKCDKECBAGDJKIHMDHIAMLEFEALHMALG",
"PPDJBAAGDOEFANIMMPPDPECKCACBPIPAIKHAAIMHGJADEIBJAJBDCPIGIFIDFAJFCJEABF",
"PPDJOFBAPONPBJPEOJLMFJMFNEBNDOKBKIIAELEMLOEOKODPKAOIFAALNCCE",
"PPNGOBOAPONPBFOCPKCMFJMFNEBIDIINABAELEMLOENA",
"PSERCGJPJLHRJILKSNKSKIQSEDNLLMCRGRIFAQLFJOKPQKJKLSJQNMMOASFJELCHGDCAAOFDRASH",
"PSERDKJSOIAQQERAONPECGJLFEGKDMQBHNPNRLHRJCBJNQISFM",
"PUTAAGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNDQDNEPDEFIKBIUGNIDNMECPCAONAGKEUBFHTFKLMDCTNRTRGGONRSMKLUCUPNHOLJI",
"PUTAAGLNDJUJKSFQQURHDUNQKNFMQMLSBMFNDQEPDEFIKBIUGNIDNMECPCAONAGKEUBFHTFKLMDCTNRTRGGONRSMKLUCUPNHRLJI",
"PVFDVMHFTAUPKTAHRLIVRDMCADKMUVQEFCTCDHCIAPHNOGSAGNJLOEBLNKPTKGPSGEJBGJBMCKAQIOLGGIHMTSNRRFBORQGCAUPOOKTHMLGSPE",
"PVFDVMHFTAUPKTHRLIVRDMCKMUVQEFCTCDHEINNKPTKGPSGEJBGJBMAQIOLGNCNFDRFBORQGHIGCCHIENGQEBQEOOJBGMOOUOBHASLGSPE",
"PVFJBCMJICIMKIFHGCLAHLJVKAUTLEVOOBGNODEDPIMGNODPPK",
"PVFJCHNRQMMGFQKLARJOQASLRHQRAMFLLDNBFEMDCMBLQHGR",
"PVQPABCLAKOCADBKTOFPTGEAJQJMNTTAEVQOSJDKGAEDLRTRIPSFKVEBVPSMDBKN",
"PWCHCFCLFNCKHLAMKBMCICFHGBHIGJMIDJKIDGKEAIBJAJBCILHMKLAH",
