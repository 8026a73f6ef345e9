package refqr

// sjis lists Shift JIS code, Unicode pairs of kanji mode (from Python's codec).
const sjis = "" +
	"8140300081413001814230028143ff0c8144ff0e814530fb8146ff1a8147ff1b8148ff1f8149ff01814a309b814b309c814c00b4814dff40814e00a8" +
	"814fff3e8150ffe38151ff3f815230fd815330fe8154309d8155309e8156300381574edd8158300581593006815a3007815b30fc815c2015815d2010" +
	"815eff0f815fff3c8160301c816120168162ff5c816320268164202581652018816620198167201c8168201d8169ff08816aff09816b3014816c3015" +
	"816dff3b816eff3d816fff5b8170ff5d81713008817230098173300a8174300b8175300c8176300d8177300e8178300f81793010817a3011817bff0b" +
	"817c2212817d00b1817e00d7818000f78181ff1d818222608183ff1c8184ff1e81852266818622678187221e8188223481892642818a2640818b00b0" +
	"818c2032818d2033818e2103818fffe58190ff04819100a2819200a38193ff058194ff038195ff068196ff0a8197ff20819800a781992606819a2605" +
	"819b25cb819c25cf819d25ce819e25c7819f25c681a025a181a125a081a225b381a325b281a425bd81a525bc81a6203b81a7301281a8219281a92190" +
	"81aa219181ab219381ac301381b8220881b9220b81ba228681bb228781bc228281bd228381be222a81bf222981c8222781c9222881ca00ac81cb21d2" +
	"81cc21d481cd220081ce220381da222081db22a581dc231281dd220281de220781df226181e0225281e1226a81e2226b81e3221a81e4223d81e5221d" +
	"81e6223581e7222b81e8222c81f0212b81f1203081f2266f81f3266d81f4266a81f5202081f6202181f700b681fc25ef824fff108250ff118251ff12" +
	"8252ff138253ff148254ff158255ff168256ff178257ff188258ff198260ff218261ff228262ff238263ff248264ff258265ff268266ff278267ff28" +
	"8268ff298269ff2a826aff2b826bff2c826cff2d826dff2e826eff2f826fff308270ff318271ff328272ff338273ff348274ff358275ff368276ff37" +
	"8277ff388278ff398279ff3a8281ff418282ff428283ff438284ff448285ff458286ff468287ff478288ff488289ff49828aff4a828bff4b828cff4c" +
	"828dff4d828eff4e828fff4f8290ff508291ff518292ff528293ff538294ff548295ff558296ff568297ff578298ff588299ff59829aff5a829f3041" +
	"82a0304282a1304382a2304482a3304582a4304682a5304782a6304882a7304982a8304a82a9304b82aa304c82ab304d82ac304e82ad304f82ae3050" +
	"82af305182b0305282b1305382b2305482b3305582b4305682b5305782b6305882b7305982b8305a82b9305b82ba305c82bb305d82bc305e82bd305f" +
	"82be306082bf306182c0306282c1306382c2306482c3306582c4306682c5306782c6306882c7306982c8306a82c9306b82ca306c82cb306d82cc306e" +
	"82cd306f82ce307082cf307182d0307282d1307382d2307482d3307582d4307682d5307782d6307882d7307982d8307a82d9307b82da307c82db307d" +
	"82dc307e82dd307f82de308082df308182e0308282e1308382e2308482e3308582e4308682e5308782e6308882e7308982e8308a82e9308b82ea308c" +
	"82eb308d82ec308e82ed308f82ee309082ef309182f0309282f13093834030a1834130a2834230a3834330a4834430a5834530a6834630a7834730a8" +
	"834830a9834930aa834a30ab834b30ac834c30ad834d30ae834e30af834f30b0835030b1835130b2835230b3835330b4835430b5835530b6835630b7" +
	"835730b8835830b9835930ba835a30bb835b30bc835c30bd835d30be835e30bf835f30c0836030c1836130c2836230c3836330c4836430c5836530c6" +
	"836630c7836730c8836830c9836930ca836a30cb836b30cc836c30cd836d30ce836e30cf836f30d0837030d1837130d2837230d3837330d4837430d5" +
	"837530d6837630d7837730d8837830d9837930da837a30db837b30dc837c30dd837d30de837e30df838030e0838130e1838230e2838330e3838430e4" +
	"838530e5838630e6838730e7838830e8838930e9838a30ea838b30eb838c30ec838d30ed838e30ee838f30ef839030f0839130f1839230f2839330f3" +
	"839430f4839530f5839630f6839f039183a0039283a1039383a2039483a3039583a4039683a5039783a6039883a7039983a8039a83a9039b83aa039c" +
	"83ab039d83ac039e83ad039f83ae03a083af03a183b003a383b103a483b203a583b303a683b403a783b503a883b603a983bf03b183c003b283c103b3" +
	"83c203b483c303b583c403b683c503b783c603b883c703b983c803ba83c903bb83ca03bc83cb03bd83cc03be83cd03bf83ce03c083cf03c183d003c3" +
	"83d103c483d203c583d303c683d403c783d503c883d603c9844004108441041184420412844304138444041484450415844604018447041684480417" +
	"84490418844a0419844b041a844c041b844d041c844e041d844f041e8450041f84510420845204218453042284540423845504248456042584570426" +
	"8458042784590428845a0429845b042a845c042b845d042c845e042d845f042e8460042f847004308471043184720432847304338474043484750435" +
	"84760451847704368478043784790438847a0439847b043a847c043b847d043c847e043d8480043e8481043f84820440848304418484044284850443" +
	"84860444848704458488044684890447848a0448848b0449848c044a848d044b848e044c848f044d8490044e8491044f849f250084a0250284a1250c" +
	"84a2251084a3251884a4251484a5251c84a6252c84a7252484a8253484a9253c84aa250184ab250384ac250f84ad251384ae251b84af251784b02523" +
	"84b1253384b2252b84b3253b84b4254b84b5252084b6252f84b7252884b8253784b9253f84ba251d84bb253084bc252584bd253884be2542889f4e9c" +
	"88a0551688a15a0388a2963f88a354c088a4611b88a5632888a659f688a7902288a8847588a9831c88aa7a5088ab60aa88ac63e188ad6e2588ae65ed" +
	"88af846688b082a688b19bf588b2689388b3572788b465a188b5627188b65b9b88b759d088b8867b88b998f488ba7d6288bb7dbe88bc9b8e88bd6216" +
	"88be7c9f88bf88b788c05b8988c15eb588c2630988c3669788c4684888c595c788c6978d88c7674f88c84ee588c94f0a88ca4f4d88cb4f9d88cc5049" +
	"88cd56f288ce593788cf59d488d05a0188d15c0988d260df88d3610f88d4617088d5661388d6690588d770ba88d8754f88d9757088da79fb88db7dad" +
	"88dc7def88dd80c388de840e88df886388e08b0288e1905588e2907a88e3533b88e44e9588e54ea588e657df88e780b288e890c188e978ef88ea4e00" +
	"88eb58f188ec6ea288ed903888ee7a3288ef832888f0828b88f19c2f88f2514188f3537088f454bd88f554e188f656e088f759fb88f85f1588f998f2" +
	"88fa6deb88fb80e488fc852d8940966289419670894296a0894397fb8944540b894553f389465b87894770cf89487fbd89498fc2894a96e8894b536f" +
	"894c9d5c894d7aba894e4e11894f7893895081fc89516e26895256188953550489546b1d8955851a89569c3b895759e5895853a989596d66895a74dc" +
	"895b958f895c5642895d4e91895e904b895f96f28960834f8961990c896253e1896355b689645b3089655f7189666620896766f38968680489696c38" +
	"896a6cf3896b6d29896c745b896d76c8896e7a4e896f9834897082f18971885b89728a60897392ed89746db2897575ab897676ca897799c5897860a6" +
	"89798b01897a8d8a897b95b2897c698e897d53ad897e518689805712898158308982594489835bb489845ef689856028898663a9898763f489886cbf" +
	"89896f14898a708e898b7114898c7159898d71d5898e733f898f7e0189908276899182d189928597899390608994925b89959d1b89965869899765bc" +
	"89986c5a89997525899a51f9899b592e899c5965899d5f80899e5fdc899f62bc89a065fa89a16a2a89a26b2789a36bb489a4738b89a57fc189a68956" +
	"89a79d2c89a89d0e89a99ec489aa5ca189ab6c9689ac837b89ad510489ae5c4b89af61b689b081c689b1687689b2726189b34e5989b44ffa89b55378" +
	"89b6606989b76e2989b87a4f89b997f389ba4e0b89bb531689bc4eee89bd4f5589be4f3d89bf4fa189c04f7389c152a089c253ef89c3560989c4590f" +
	"89c55ac189c65bb689c75be189c879d189c9668789ca679c89cb67b689cc6b4c89cd6cb389ce706b89cf73c289d0798d89d179be89d27a3c89d37b87" +
	"89d482b189d582db89d6830489d7837789d883ef89d983d389da876689db8ab289dc562989dd8ca889de8fe689df904e89e0971e89e1868a89e24fc4" +
	"89e35ce889e4621189e5725989e6753b89e781e589e882bd89e986fe89ea8cc089eb96c589ec991389ed99d589ee4ecb89ef4f1a89f089e389f156de" +
	"89f2584a89f358ca89f45efb89f55feb89f6602a89f7609489f8606289f961d089fa621289fb62d089fc65398a409b418a4166668a4268b08a436d77" +
	"8a4470708a45754c8a4676868a477d758a4882a58a4987f98a4a958b8a4b968e8a4c8c9d8a4d51f18a4e52be8a4f59168a5054b38a515bb38a525d16" +
	"8a5361688a5469828a556daf8a56788d8a5784cb8a5888578a598a728a5a93a78a5b9ab88a5c6d6c8a5d99a88a5e86d98a5f57a38a6067ff8a6186ce" +
	"8a62920e8a6352838a6456878a6554048a665ed38a6762e18a6864b98a69683c8a6a68388a6b6bbb8a6c73728a6d78ba8a6e7a6b8a6f899a8a7089d2" +
	"8a718d6b8a728f038a7390ed8a7495a38a7596948a7697698a775b668a785cb38a79697d8a7a984d8a7b984e8a7c639b8a7d7b208a7e6a2b8a806a7f" +
	"8a8168b68a829c0d8a836f5f8a8452728a85559d8a8660708a8762ec8a886d3b8a896e078a8a6ed18a8b845b8a8c89108a8d8f448a8e4e148a8f9c39" +
	"8a9053f68a91691b8a926a3a8a9397848a94682a8a95515c8a967ac38a9784b28a9891dc8a99938c8a9a565b8a9b9d288a9c68228a9d83058a9e8431" +
	"8a9f7ca58aa052088aa182c58aa274e68aa34e7e8aa44f838aa551a08aa65bd28aa7520a8aa852d88aa952e78aaa5dfb8aab559a8aac582a8aad59e6" +
	"8aae5b8c8aaf5b988ab05bdb8ab15e728ab25e798ab360a38ab4611f8ab561638ab661be8ab763db8ab865628ab967d18aba68538abb68fa8abc6b3e" +
	"8abd6b538abe6c578abf6f228ac06f978ac16f458ac274b08ac375188ac476e38ac5770b8ac67aff8ac77ba18ac87c218ac97de98aca7f368acb7ff0" +
	"8acc809d8acd82668ace839e8acf89b38ad08acc8ad18cab8ad290848ad394518ad495938ad595918ad695a28ad796658ad897d38ad999288ada8218" +
	"8adb4e388adc542b8add5cb88ade5dcc8adf73a98ae0764c8ae1773c8ae25ca98ae37feb8ae48d0b8ae596c18ae698118ae798548ae898588ae94f01" +
	"8aea4f0e8aeb53718aec559c8aed56688aee57fa8aef59478af05b098af15bc48af25c908af35e0c8af45e7e8af55fcc8af663ee8af7673a8af865d7" +
	"8af965e28afa671f8afb68cb8afc68c48b406a5f8b415e308b426bc58b436c178b446c7d8b45757f8b4679488b475b638b487a008b497d008b4a5fbd" +
	"8b4b898f8b4c8a188b4d8cb48b4e8d778b4f8ecc8b508f1d8b5198e28b529a0e8b539b3c8b544e808b55507d8b5651008b5759938b585b9c8b59622f" +
	"8b5a62808b5b64ec8b5c6b3a8b5d72a08b5e75918b5f79478b607fa98b6187fb8b628abc8b638b708b6463ac8b6583ca8b6697a08b6754098b685403" +
	"8b6955ab8b6a68548b6b6a588b6c8a708b6d78278b6e67758b6f9ecd8b7053748b715ba28b72811a8b7386508b7490068b754e188b764e458b774ec7" +
	"8b784f118b7953ca8b7a54388b7b5bae8b7c5f138b7d60258b7e65518b80673d8b816c428b826c728b836ce38b8470788b8574038b867a768b877aae" +
	"8b887b088b897d1a8b8a7cfe8b8b7d668b8c65e78b8d725b8b8e53bb8b8f5c458b905de88b9162d28b9262e08b9363198b946e208b95865a8b968a31" +
	"8b978ddd8b9892f88b996f018b9a79a68b9b9b5a8b9c4ea88b9d4eab8b9e4eac8b9f4f9b8ba04fa08ba150d18ba251478ba37af68ba451718ba551f6" +
	"8ba653548ba753218ba8537f8ba953eb8baa55ac8bab58838bac5ce18bad5f378bae5f4a8baf602f8bb060508bb1606d8bb2631f8bb365598bb46a4b" +
	"8bb56cc18bb672c28bb772ed8bb877ef8bb980f88bba81058bbb82088bbc854e8bbd90f78bbe93e18bbf97ff8bc099578bc19a5a8bc24ef08bc351dd" +
	"8bc45c2d8bc566818bc6696d8bc75c408bc866f28bc969758bca73898bcb68508bcc7c818bcd50c58bce52e48bcf57478bd05dfe8bd193268bd265a4" +
	"8bd36b238bd46b3d8bd574348bd679818bd779bd8bd87b4b8bd97dca8bda82b98bdb83cc8bdc887f8bdd895f8bde8b398bdf8fd18be091d18be1541f" +
	"8be292808be34e5d8be450368be553e58be6533a8be772d78be873968be977e98bea82e68beb8eaf8bec99c68bed99c88bee99d28bef51778bf0611a" +
	"8bf1865e8bf255b08bf37a7a8bf450768bf55bd38bf690478bf796858bf84e328bf96adb8bfa91e78bfb5c518bfc5c488c4063988c417a9f8c426c93" +
	"8c4397748c448f618c457aaa8c46718a8c4796888c487c828c4968178c4a7e708c4b68518c4c936c8c4d52f28c4e541b8c4f85ab8c508a138c517fa4" +
	"8c528ecd8c5390e18c5453668c5588888c5679418c574fc28c5850be8c5952118c5a51448c5b55538c5c572d8c5d73ea8c5e578b8c5f59518c605f62" +
	"8c615f848c6260758c6361768c6461678c6561a98c6663b28c67643a8c68656c8c69666f8c6a68428c6b6e138c6c75668c6d7a3d8c6e7cfb8c6f7d4c" +
	"8c707d998c717e4b8c727f6b8c73830e8c74834a8c7586cd8c768a088c778a638c788b668c798efd8c7a981a8c7b9d8f8c7c82b88c7d8fce8c7e9be8" +
	"8c8052878c81621f8c8264838c836fc08c8496998c8568418c8650918c876b208c886c7a8c896f548c8a7a748c8b7d508c8c88408c8d8a238c8e6708" +
	"8c8f4ef68c9050398c9150268c9250658c93517c8c9452388c9552638c9655a78c97570f8c9858058c995acc8c9a5efa8c9b61b28c9c61f88c9d62f3" +
	"8c9e63728c9f691c8ca06a298ca1727d8ca272ac8ca3732e8ca478148ca5786f8ca67d798ca7770c8ca880a98ca9898b8caa8b198cab8ce28cac8ed2" +
	"8cad90638cae93758caf967a8cb098558cb19a138cb29e788cb351438cb4539f8cb553b38cb65e7b8cb75f268cb86e1b8cb96e908cba73848cbb73fe" +
	"8cbc7d438cbd82378cbe8a008cbf8afa8cc096508cc14e4e8cc2500b8cc353e48cc4547c8cc556fa8cc659d18cc75b648cc85df18cc95eab8cca5f27" +
	"8ccb62388ccc65458ccd67af8cce6e568ccf72d08cd07cca8cd188b48cd280a18cd380e18cd483f08cd5864e8cd68a878cd78de88cd892378cd996c7" +
	"8cda98678cdb9f138cdc4e948cdd4e928cde4f0d8cdf53488ce054498ce1543e8ce25a2f8ce35f8c8ce45fa18ce5609f8ce668a78ce76a8e8ce8745a" +
	"8ce978818cea8a9e8ceb8aa48cec8b778ced91908cee4e5e8cef9bc98cf04ea48cf14f7c8cf24faf8cf350198cf450168cf551498cf6516c8cf7529f" +
	"8cf852b98cf952fe8cfa539a8cfb53e38cfc54118d40540e8d4155898d4257518d4357a28d44597d8d455b548d465b5d8d475b8f8d485de58d495de7" +
	"8d4a5df78d4b5e788d4c5e838d4d5e9a8d4e5eb78d4f5f188d5060528d51614c8d5262978d5362d88d5463a78d55653b8d5666028d5766438d5866f4" +
	"8d59676d8d5a68218d5b68978d5c69cb8d5d6c5f8d5e6d2a8d5f6d698d606e2f8d616e9d8d6275328d6376878d64786c8d657a3f8d667ce08d677d05" +
	"8d687d188d697d5e8d6a7db18d6b80158d6c80038d6d80af8d6e80b18d6f81548d70818f8d71822a8d7283528d73884c8d7488618d758b1b8d768ca2" +
	"8d778cfc8d7890ca8d7991758d7a92718d7b783f8d7c92fc8d7d95a48d7e964d8d8098058d8199998d829ad88d839d3b8d84525b8d8552ab8d8653f7" +
	"8d8754088d8858d58d8962f78d8a6fe08d8b8c6a8d8c8f5f8d8d9eb98d8e514b8d8f523b8d90544a8d9156fd8d927a408d9391778d949d608d959ed2" +
	"8d9673448d976f098d9881708d9975118d9a5ffd8d9b60da8d9c9aa88d9d72db8d9e8fbc8d9f6b648da098038da14eca8da256f08da357648da458be" +
	"8da55a5a8da660688da761c78da8660f8da966068daa68398dab68b18dac6df78dad75d58dae7d3a8daf826e8db09b428db14e9b8db24f508db353c9" +
	"8db455068db55d6f8db65de68db75dee8db867fb8db96c998dba74738dbb78028dbc8a508dbd93968dbe88df8dbf57508dc05ea78dc1632b8dc250b5" +
	"8dc350ac8dc4518d8dc567008dc654c98dc7585e8dc859bb8dc95bb08dca5f698dcb624d8dcc63a18dcd683d8dce6b738dcf6e088dd0707d8dd191c7" +
	"8dd272808dd378158dd478268dd5796d8dd6658e8dd77d308dd883dc8dd988c18dda8f098ddb969b8ddc52648ddd57288dde67508ddf7f6a8de08ca1" +
	"8de151b48de257428de3962a8de4583a8de5698a8de680b48de754b28de85d0e8de957fc8dea78958deb9dfa8dec4f5c8ded524a8dee548b8def643e" +
	"8df066288df167148df267f58df37a848df47b568df57d228df6932f8df7685c8df89bad8df97b398dfa53198dfb518a8dfc52378e405bdf8e4162f6" +
	"8e4264ae8e4364e68e44672d8e456bba8e4685a98e4796d18e4876908e499bd68e4a634c8e4b93068e4c9bab8e4d76bf8e4e66528e4f4e098e505098" +
	"8e5153c28e525c718e5360e88e5464928e5565638e56685f8e5771e68e5873ca8e5975238e5a7b978e5b7e828e5c86958e5d8b838e5e8cdb8e5f9178" +
	"8e6099108e6165ac8e6266ab8e636b8b8e644ed58e654ed48e664f3a8e674f7f8e68523a8e6953f88e6a53f28e6b55e38e6c56db8e6d58eb8e6e59cb" +
	"8e6f59c98e7059ff8e715b508e725c4d8e735e028e745e2b8e755fd78e76601d8e7763078e78652f8e795b5c8e7a65af8e7b65bd8e7c65e88e7d679d" +
	"8e7e6b628e806b7b8e816c0f8e8273458e8379498e8479c18e857cf88e867d198e877d2b8e8880a28e8981028e8a81f38e8b89968e8c8a5e8e8d8a69" +
	"8e8e8a668e8f8a8c8e908aee8e918cc78e928cdc8e9396cc8e9498fc8e956b6f8e964e8b8e974f3c8e984f8d8e9951508e9a5b578e9b5bfa8e9c6148" +
	"8e9d63018e9e66428e9f6b218ea06ecb8ea16cbb8ea2723e8ea374bd8ea475d48ea578c18ea6793a8ea7800c8ea880338ea981ea8eaa84948eab8f9e" +
	"8eac6c508ead9e7f8eae5f0f8eaf8b588eb09d2b8eb17afa8eb28ef88eb35b8d8eb496eb8eb54e038eb653f18eb757f78eb859318eb95ac98eba5ba4" +
	"8ebb60898ebc6e7f8ebd6f068ebe75be8ebf8cea8ec05b9f8ec185008ec27be08ec350728ec467f48ec5829d8ec65c618ec7854a8ec87e1e8ec9820e" +
	"8eca51998ecb5c048ecc63688ecd8d668ece659c8ecf716e8ed0793e8ed17d178ed280058ed38b1d8ed48eca8ed5906e8ed686c78ed790aa8ed8501f" +
	"8ed952fa8eda5c3a8edb67538edc707c8edd72358ede914c8edf91c88ee0932b8ee182e58ee25bc28ee35f318ee460f98ee54e3b8ee653d68ee75b88" +
	"8ee8624b8ee967318eea6b8a8eeb72e98eec73e08eed7a2e8eee816b8eef8da38ef091528ef199968ef251128ef353d78ef4546a8ef55bff8ef66388" +
	"8ef76a398ef87dac8ef997008efa56da8efb53ce8efc54688f405b978f415c318f425dde8f434fee8f4461018f4562fe8f466d328f4779c08f4879cb" +
	"8f497d428f4a7e4d8f4b7fd28f4c81ed8f4d821f8f4e84908f4f88468f5089728f518b908f528e748f538f2f8f5490318f55914b8f56916c8f5796c6" +
	"8f58919c8f594ec08f5a4f4f8f5b51458f5c53418f5d5f938f5e620e8f5f67d48f606c418f616e0b8f6273638f637e268f6491cd8f6592838f6653d4" +
	"8f6759198f685bbf8f696dd18f6a795d8f6b7e2e8f6c7c9b8f6d587e8f6e719f8f6f51fa8f7088538f718ff08f724fca8f735cfb8f7466258f7577ac" +
	"8f767ae38f77821c8f7899ff8f7951c68f7a5faa8f7b65ec8f7c696f8f7d6b898f7e6df38f806e968f816f648f8276fe8f837d148f845de18f859075" +
	"8f8691878f8798068f8851e68f89521d8f8a62408f8b66918f8c66d98f8d6e1a8f8e5eb68f8f7dd28f907f728f9166f88f9285af8f9385f78f948af8" +
	"8f9552a98f9653d98f9759738f985e8f8f995f908f9a60558f9b92e48f9c96648f9d50b78f9e511f8f9f52dd8fa053208fa153478fa253ec8fa354e8" +
	"8fa455468fa555318fa656178fa759688fa859be8fa95a3c8faa5bb58fab5c068fac5c0f8fad5c118fae5c1a8faf5e848fb05e8a8fb15ee08fb25f70" +
	"8fb3627f8fb462848fb562db8fb6638c8fb763778fb866078fb9660c8fba662d8fbb66768fbc677e8fbd68a28fbe6a1f8fbf6a358fc06cbc8fc16d88" +
	"8fc26e098fc36e588fc4713c8fc571268fc671678fc775c78fc877018fc9785d8fca79018fcb79658fcc79f08fcd7ae08fce7b118fcf7ca78fd07d39" +
	"8fd180968fd283d68fd3848b8fd485498fd5885d8fd688f38fd78a1f8fd88a3c8fd98a548fda8a738fdb8c618fdc8cde8fdd91a48fde92668fdf937e" +
	"8fe094188fe1969c8fe297988fe34e0a8fe44e088fe54e1e8fe64e578fe751978fe852708fe957ce8fea58348feb58cc8fec5b228fed5e388fee60c5" +
	"8fef64fe8ff067618ff167568ff26d448ff372b68ff475738ff57a638ff684b88ff78b728ff891b88ff993208ffa56318ffb57f48ffc98fe904062ed" +
	"9041690d90426b96904371ed90447e549045807790468272904789e6904898df90498755904a8fb1904b5c3b904c4f38904d4fe1904e4fb5904f5507" +
	"90505a2090515bdd90525be990535fc39054614e9055632f905665b09057664b905868ee9059699b905a6d78905b6df1905c7533905d75b9905e771f" +
	"905f795e906079e690617d33906281e3906382af906485aa906589aa90668a3a90678eab90688f9b90699032906a91dd906b9707906c4eba906d4ec1" +
	"906e5203906f5875907058ec90715c0b9072751a90735c3d9074814e90758a0a90768fc5907796639078976d90797b25907a8acf907b9808907c9162" +
	"907d56f3907e53a890809017908154399082578290835e25908463a890856c349086708a9087776190887c8b90897fe0908a8870908b9042908c9154" +
	"908d9310908e9318908f968f9090745e90919ac490925d0790935d6990946570909567a290968da8909796db9098636e90996749909a6919909b83c5" +
	"909c9817909d96c0909e88fe909f6f8490a0647a90a15bf890a24e1690a3702c90a4755d90a5662f90a651c490a7523690a852e290a959d390aa5f81" +
	"90ab602790ac621090ad653f90ae657490af661f90b0667490b168f290b2681690b36b6390b46e0590b5727290b6751f90b776db90b87cbe90b98056" +
	"90ba58f090bb88fd90bc897f90bd8aa090be8a9390bf8acb90c0901d90c1919290c2975290c3975990c4658990c57a0e90c6810690c796bb90c85e2d" +
	"90c960dc90ca621a90cb65a590cc661490cd679090ce77f390cf7a4d90d07c4d90d17e3e90d2810a90d38cac90d48d6490d58de190d68e5f90d778a9" +
	"90d8520790d962d990da63a590db644290dc629890dd8a2d90de7a8390df7bc090e08aac90e196ea90e27d7690e3820c90e4874990e54ed990e65148" +
	"90e7534390e8536090e95ba390ea5c0290eb5c1690ec5ddd90ed622690ee624790ef64b090f0681390f1683490f26cc990f36d4590f46d1790f567d3" +
	"90f66f5c90f7714e90f8717d90f965cb90fa7a7f90fb7bad90fc7dda91407e4a91417fa89142817a9143821b91448239914585a691468a6e91478cce" +
	"91488df591499078914a9077914b92ad914c9291914d9583914e9bae914f524d9150558491516f3891527136915351689154798591557e55915681b3" +
	"91577cce9158564c91595851915a5ca8915b63aa915c66fe915d66fd915e695a915f72d99160758f9161758e9162790e91637956916479df91657c97" +
	"91667d2091677d449168860791698a34916a963b916b9061916c9f20916d50e7916e5275916f53cc917053e291715009917255aa917358ee9174594f" +
	"9175723d91765b8b91775c649178531d917960e3917a60f3917b635c917c6383917d633f917e63bb918064cd918165e9918266f991835de3918469cd" +
	"918569fd91866f15918771e591884e89918975e9918a76f8918b7a93918c7cdf918d7dcf918e7d9c918f806191908349919183589192846c919384bc" +
	"919485fb919588c591968d70919790019198906d91999397919a971c919b9a12919c50cf919d5897919e618e919f81d391a0853591a18d0891a29020" +
	"91a34fc391a4507491a5524791a6537391a7606f91a8634991a9675f91aa6e2c91ab8db391ac901f91ad4fd791ae5c5e91af8cca91b065cf91b17d9a" +
	"91b2535291b3889691b4517691b563c391b65b5891b75b6b91b85c0a91b9640d91ba675191bb905c91bc4ed691bd591a91be592a91bf6c7091c08a51" +
	"91c1553e91c2581591c359a591c460f091c5625391c667c191c7823591c8695591c9964091ca99c491cb9a2891cc4f5391cd580691ce5bfe91cf8010" +
	"91d05cb191d15e2f91d25f8591d3602091d4614b91d5623491d666ff91d76cf091d86ede91d980ce91da817f91db82d491dc888b91dd8cb891de9000" +
	"91df902e91e0968a91e19edb91e29bdb91e34ee391e453f091e5592791e67b2c91e7918d91e8984c91e99df991ea6edd91eb702791ec535391ed5544" +
	"91ee5b8591ef625891f0629e91f162d391f26ca291f36fef91f4742291f58a1791f6943891f76fc191f88afe91f9833891fa51e791fb86f891fc53ea" +
	"924053e992414f469242905492438fb09244596a9245813192465dfd92477aea92488fbf924968da924a8c37924b72f8924c9c48924d6a3d924e8ab0" +
	"924f4e39925053589251560692525766925362c5925463a2925565e692566b4e92576de192586e5b925970ad925a77ed925b7aef925c7baa925d7dbb" +
	"925e803d925f80c6926086cb92618a959262935b926356e3926458c792655f3e926665ad9267669692686a8092696bb5926a7537926b8ac7926c5024" +
	"926d77e5926e5730926f5f1b927060659271667a92726c60927375f492747a1a92757f6e927681f49277871892789045927999b3927a7bc9927b755c" +
	"927c7af9927d7b51927e84c492809010928179e992827a929283833692845ae19285774092864e2d92874ef292885b9992895fe0928a62bd928b663c" +
	"928c67f1928d6ce8928e866b928f887792908a3b9291914e929292f3929399d092946a17929570269296732a929782e79298845792998caf929a4e01" +
	"929b5146929c51cb929d558b929e5bf5929f5e1692a05e3392a15e8192a25f1492a35f3592a45f6b92a55fb492a661f292a7631192a866a292a9671d" +
	"92aa6f6e92ab725292ac753a92ad773a92ae807492af813992b0817892b1877692b28abf92b38adc92b48d8592b58df392b6929a92b7957792b89802" +
	"92b99ce592ba52c592bb635792bc76f492bd671592be6c8892bf73cd92c08cc392c193ae92c2967392c36d2592c4589c92c5690e92c669cc92c78ffd" +
	"92c8939a92c975db92ca901a92cb585a92cc680292cd63b492ce69fb92cf4f4392d06f2c92d167d892d28fbb92d3852692d47db492d5935492d6693f" +
	"92d76f7092d8576a92d958f792da5b2c92db7d2c92dc722a92dd540a92de91e392df9db492e04ead92e14f4e92e2505c92e3507592e4524392e58c9e" +
	"92e6544892e7582492e85b9a92e95e1d92ea5e9592eb5ead92ec5ef792ed5f1f92ee608c92ef62b592f0633a92f163d092f268af92f36c4092f47887" +
	"92f5798e92f67a0b92f77de092f8824792f98a0292fa8ae692fb8e4492fc9013934090b89341912d934291d893439f0e93446ce593456458934664e2" +
	"9347657593486ef493497684934a7b1b934b9069934c93d1934d6eba934e54f2934f5fb9935064a493518f4d93528fed93539244935451789355586b" +
	"9356592993575c5593585e9793596dfb935a7e8f935b751c935c8cbc935d8ee2935e985b935f70b993604f1d93616bbf93626fb193637530936496fb" +
	"9365514e936654109367583593685857936959ac936a5c60936b5f92936c6597936d675c936e6e21936f767b937083df93718ced93729014937390fd" +
	"9374934d937578259376783a937752aa93785ea69379571f937a5974937b6012937c5012937d515a937e51ac938051cd938152009382551093835854" +
	"938458589385595793865b9593875cf693885d8b938960bc938a6295938b642d938c6771938d6843938e68bc938f68df939076d793916dd893926e6f" +
	"93936d9b9394706f939571c893965f53939775d89398797793997b49939a7b54939b7b52939c7cd6939d7d71939e5230939f846393a0856993a185e4" +
	"93a28a0e93a38b0493a48c4693a58e0f93a6900393a7900f93a8941993a9967693aa982d93ab9a3093ac95d893ad50cd93ae52d593af540c93b05802" +
	"93b15c0e93b261a793b3649e93b46d1e93b577b393b67ae593b780f493b8840493b9905393ba928593bb5ce093bc9d0793bd533f93be5f9793bf5fb3" +
	"93c06d9c93c1727993c2776393c379bf93c47be493c56bd293c672ec93c78aad93c8680393c96a6193ca51f893cb7a8193cc693493cd5c4a93ce9cf6" +
	"93cf82eb93d05bc593d1914993d2701e93d3567893d45c6f93d560c793d6656693d76c8c93d88c5a93d9904193da981393db545193dc66c793dd920d" +
	"93de594893df90a393e0518593e14e4d93e251ea93e3859993e48b0e93e5705893e6637a93e7934b93e8696293e999b493ea7e0493eb757793ec5357" +
	"93ed696093ee8edf93ef96e393f06c5d93f14e8c93f25c3c93f35f1093f48fe993f5530293f68cd193f7808993f8867993f95eff93fa65e593fb4e73" +
	"93fc51659440598294415c3f944297ee94434efb9444598a94455fcd94468a8d94476fe1944879b094497962944a5be7944b8471944c732b944d71b1" +
	"944e5e74944f5ff59450637b9451649a945271c394537c9894544e4394555efc94564e4b945757dc945856a2945960a9945a6fc3945b7d0d945c80fd" +
	"945d8133945e81bf945f8fb294608997946186a494625df49463628a946464ad946589879466677794676ce294686d3e94697436946a7834946b5a46" +
	"946c7f75946d82ad946e99ac946f4ff394705ec3947162dd94726392947365579474676f947576c39476724c947780cc947880ba94798f29947a914d" +
	"947b500d947c57f9947d5a92947e68859480697394817164948272fd94838cb7948458f294858ce09486966a948790199488877f948979e4948a77e7" +
	"948b8429948c4f2f948d5265948e535a948f62cd949067cf94916cca9492767d94937b9494947c95949582369496858494978feb949866dd94996f20" +
	"949a7206949b7e1b949c83ab949d99c1949e9ea6949f51fd94a07bb194a1787294a27bb894a3808794a47b4894a56ae894a65e6194a7808c94a87551" +
	"94a9756094aa516b94ab926294ac6e8c94ad767a94ae919794af9aea94b04f1094b17f7094b2629c94b37b4f94b495a594b59ce994b6567a94b75859" +
	"94b886e494b996bc94ba4f3494bb522494bc534a94bd53cd94be53db94bf5e0694c0642c94c1659194c2677f94c36c3e94c46c4e94c5724894c672af" +
	"94c773ed94c8755494c97e4194ca822c94cb85e994cc8ca994cd7bc494ce91c694cf716994d0981294d198ef94d2633d94d3666994d4756a94d576e4" +
	"94d678d094d7854394d886ee94d9532a94da535194db542694dc598394dd5e8794de5f7c94df60b294e0624994e1627994e262ab94e3659094e46bd4" +
	"94e56ccc94e675b294e776ae94e8789194e979d894ea7dcb94eb7f7794ec80a594ed88ab94ee8ab994ef8cbb94f0907f94f1975e94f298db94f36a0b" +
	"94f47c3894f5509994f65c3e94f75fae94f8678794f96bd894fa743594fb770994fc7f8e95409f3b954167ca95427a17954353399544758b95459aed" +
	"95465f669547819d954883f195498098954a5f3c954b5fc5954c7562954d7b46954e903c954f6867955059eb95515a9b95527d109553767e95548b2c" +
	"95554ff595565f6a95576a1995586c3795596f02955a74e2955b7968955c8868955d8a55955e8c79955f5edf956063cf956175c5956279d2956382d7" +
	"95649328956592f29566849c956786ed95689c2d956954c1956a5f6c956b658c956c6d5c956d7015956e8ca7956f8cd39570983b9571654f957274f6" +
	"95734e0d95744ed8957557e09576592b95775a6695785bcc957951a8957a5e03957b5e9c957c6016957d6276957e6577958065a79581666e95826d6e" +
	"9583723695847b26958581509586819a9587829995888b5c95898ca0958a8ce6958b8d74958c961c958d9644958e4fae958f64ab95906b669591821e" +
	"959284619593856a959490e895955c0195966953959798a89598847a95998557959a4f0f959b526f959c5fa9959d5e45959e670d959f798f95a08179" +
	"95a1890795a2898695a36df595a45f1795a5625595a66cb895a74ecf95a8726995a99b9295aa520695ab543b95ac567495ad58b395ae61a495af626e" +
	"95b0711a95b1596e95b27c8995b37cde95b47d1b95b596f095b6658795b7805e95b84e1995b94f7595ba517595bb584095bc5e6395bd5e7395be5f0a" +
	"95bf67c495c04e2695c1853d95c2958995c3965b95c47c7395c5980195c650fb95c758c195c8765695c978a795ca522595cb77a595cc851195cd7b86" +
	"95ce504f95cf590995d0724795d17bc795d27de895d38fba95d48fd495d5904d95d64fbf95d752c995d85a2995d95f0195da97ad95db4fdd95dc8217" +
	"95dd92ea95de570395df635595e06b6995e1752b95e288dc95e38f1495e47a4295e552df95e6589395e7615595e8620a95e966ae95ea6bcd95eb7c3f" +
	"95ec83e995ed502395ee4ff895ef530595f0544695f1583195f2594995f35b9d95f45cf095f55cef95f65d2995f75e9695f862b195f9636795fa653e" +
	"95fb65b995fc670b96406cd596416ce1964270f99643783296447e2b964580de964682b39647840c964884ec96498702964a8912964b8a2a964c8c4a" +
	"964d90a6964e92d2964f98fd96509cf396519d6c96524e4f96534ea19654508d965552569656574a965759a896585e3d96595fd8965a5fd9965b623f" +
	"965c66b4965d671b965e67d0965f68d29660519296617d21966280aa966381a896648b0096658c8c96668cbf9667927e9668963296695420966a982c" +
	"966b5317966c50d5966d535c966e58a8966f64b296706734967172679672776696737a46967491e6967552c396766ca196776b869678580096795e4c" +
	"967a5954967b672c967c7ffb967d51e1967e76c696806469968178e896829b5496839ebb968457cb968559b9968666279687679a96886bce968954e9" +
	"968a69d9968b5e55968c819c968d6795968e9baa968f67fe96909c529691685d96924ea696934fe3969453c8969562b99696672b96976cab96988fc4" +
	"96994fad969a7e6d969b9ebf969c4e07969d6162969e6e80969f6f2b96a0851396a1547396a2672a96a39b4596a45df396a57b9596a65cac96a75bc6" +
	"96a8871c96a96e4a96aa84d196ab7a1496ac810896ad599996ae7c8d96af6c1196b0772096b152d996b2592296b3712196b4725f96b577db96b69727" +
	"96b79d6196b8690b96b95a7f96ba5a1896bb51a596bc540d96bd547d96be660e96bf76df96c08ff796c1929896c29cf496c359ea96c4725d96c56ec5" +
	"96c6514d96c768c996c87dbf96c97dec96ca976296cb9eba96cc647896cd6a2196ce830296cf598496d05b5f96d16bdb96d2731b96d376f296d47db2" +
	"96d5801796d6849996d7513296d8672896d99ed996da76ee96db676296dc52ff96dd990596de5c2496df623b96e07c7e96e18cb096e2554f96e360b6" +
	"96e47d0b96e5958096e6530196e74e5f96e851b696e9591c96ea723a96eb803696ec91ce96ed5f2596ee77e296ef538496f05f7996f17d0496f285ac" +
	"96f38a3396f48e8d96f5975696f667f396f785ae96f8945396f9610996fa610896fb6cb996fc765297408aed97418f389742552f97434f519744512a" +
	"974552c7974653cb97475ba597485e7d974960a0974a6182974b63d6974c6709974d67da974e6e67974f6d8c97507336975173379752753197537950" +
	"975488d597558a989756904a97579091975890f5975996c4975a878d975b5915975c4e88975d4f59975e4e0e975f8a8997608f3f97619810976250ad" +
	"97635e7c9764599697655bb997665eb8976763da976863fa976964c1976a66dc976b694a976c69d8976d6d0b976e6eb6976f71949770752897717aaf" +
	"97727f8a9773800097748449977584c99776898197778b2197788e0a97799065977a967d977b990a977c617e977d6291977e6b3297806c8397816d74" +
	"97827fcc97837ffc97846dc097857f85978687ba978788f897886765978983b1978a983c978b96f7978c6d1b978d7d61978e843d978f916a97904e71" +
	"9791537597925d5097936b0497946feb979585cd9796862d979789a7979852299799540f979a5c65979b674e979c68a8979d7406979e7483979f75e2" +
	"97a088cf97a188e197a291cc97a396e297a4967897a55f8b97a6738797a77acb97a8844e97a963a097aa756597ab528997ac6d4197ad6e9c97ae7409" +
	"97af755997b0786b97b17c9297b2968697b37adc97b49f8d97b54fb697b6616e97b765c597b8865c97b94e8697ba4eae97bb50da97bc4e2197bd51cc" +
	"97be5bee97bf659997c0688197c16dbc97c2731f97c3764297c477ad97c57a1c97c67ce797c7826f97c88ad297c9907c97ca91cf97cb967597cc9818" +
	"97cd529b97ce7dd197cf502b97d0539897d1679797d26dcb97d371d097d4743397d581e897d68f2a97d796a397d89c5797d99e9f97da746097db5841" +
	"97dc6d9997dd7d2f97de985e97df4ee497e04f3697e14f8b97e251b797e352b197e45dba97e5601c97e673b297e7793c97e882d397e9923497ea96b7" +
	"97eb96f697ec970a97ed9e9797ee9f6297ef66a697f06b7497f1521797f252a397f370c897f488c297f55ec997f6604b97f7619097f86f2397f97149" +
	"97fa7c3e97fb7df497fc806f984084ee984190239842932c9843544298449b6f98456ad39846708998478cc298488def98499732984a52b4984b5a41" +
	"984c5eca984d5f04984e6717984f697c9850699498516d6a98526f0f98537262985472fc98557bed985680019857807e9858874b985990ce985a516d" +
	"985b9e93985c7984985d808b985e9332985f8ad69860502d9861548c98628a7198636b6a98648cc498658107986660d1986767a098689df298694e99" +
	"986a4e98986b9c10986c8a6b986d85c1986e8568986f690098706e7e9871789798728155989f5f0c98a04e1098a14e1598a24e2a98a34e3198a44e36" +
	"98a54e3c98a64e3f98a74e4298a84e5698a94e5898aa4e8298ab4e8598ac8c6b98ad4e8a98ae821298af5f0d98b04e8e98b14e9e98b24e9f98b34ea0" +
	"98b44ea298b54eb098b64eb398b74eb698b84ece98b94ecd98ba4ec498bb4ec698bc4ec298bd4ed798be4ede98bf4eed98c04edf98c14ef798c24f09" +
	"98c34f5a98c44f3098c54f5b98c64f5d98c74f5798c84f4798c94f7698ca4f8898cb4f8f98cc4f9898cd4f7b98ce4f6998cf4f7098d04f9198d14f6f" +
	"98d24f8698d34f9698d4511898d54fd498d64fdf98d74fce98d84fd898d94fdb98da4fd198db4fda98dc4fd098dd4fe498de4fe598df501a98e05028" +
	"98e1501498e2502a98e3502598e4500598e54f1c98e64ff698e7502198e8502998e9502c98ea4ffe98eb4fef98ec501198ed500698ee504398ef5047" +
	"98f0670398f1505598f2505098f3504898f4505a98f5505698f6506c98f7507898f8508098f9509a98fa508598fb50b498fc50b2994050c9994150ca" +
	"994250b3994350c2994450d6994550de994650e5994750ed994850e3994950ee994a50f9994b50f5994c5109994d5101994e5102994f511699505115" +
	"995151149952511a995351219954513a995551379956513c9957513b9958513f99595140995a5152995b514c995c5154995d5162995e7af8995f5169" +
	"9960516a9961516e9962518099635182996456d89965518c996651899967518f9968519199695193996a5195996b5196996c51a4996d51a6996e51a2" +
	"996f51a9997051aa997151ab997251b3997351b1997451b2997551b0997651b5997751bd997851c5997951c9997a51db997b51e0997c8655997d51e9" +
	"997e51ed998051f0998151f5998251fe998352049984520b998552149986520e998752279988522a9989522e998a5233998b5239998c524f998d5244" +
	"998e524b998f524c9990525e999152549992526a9993527499945269999552739996527f9997527d9998528d99995294999a5292999b5271999c5288" +
	"999d5291999e8fa8999f8fa799a052ac99a152ad99a252bc99a352b599a452c199a552cd99a652d799a752de99a852e399a952e699aa98ed99ab52e0" +
	"99ac52f399ad52f599ae52f899af52f999b0530699b1530899b2753899b3530d99b4531099b5530f99b6531599b7531a99b8532399b9532f99ba5331" +
	"99bb533399bc533899bd534099be534699bf534599c04e1799c1534999c2534d99c351d699c4535e99c5536999c6536e99c7591899c8537b99c95377" +
	"99ca538299cb539699cc53a099cd53a699ce53a599cf53ae99d053b099d153b699d253c399d37c1299d496d999d553df99d666fc99d771ee99d853ee" +
	"99d953e899da53ed99db53fa99dc540199dd543d99de544099df542c99e0542d99e1543c99e2542e99e3543699e4542999e5541d99e6544e99e7548f" +
	"99e8547599e9548e99ea545f99eb547199ec547799ed547099ee549299ef547b99f0548099f1547699f2548499f3549099f4548699f554c799f654a2" +
	"99f754b899f854a599f954ac99fa54c499fb54c899fc54a89a4054ab9a4154c29a4254a49a4354be9a4454bc9a4554d89a4654e59a4754e69a48550f" +
	"9a4955149a4a54fd9a4b54ee9a4c54ed9a4d54fa9a4e54e29a4f55399a5055409a5155639a52554c9a53552e9a54555c9a5555459a5655569a575557" +
	"9a5855389a5955339a5a555d9a5b55999a5c55809a5d54af9a5e558a9a5f559f9a60557b9a61557e9a6255989a63559e9a6455ae9a65557c9a665583" +
	"9a6755a99a6855879a6955a89a6a55da9a6b55c59a6c55df9a6d55c49a6e55dc9a6f55e49a7055d49a7156149a7255f79a7356169a7455fe9a7555fd" +
	"9a76561b9a7755f99a78564e9a7956509a7a71df9a7b56349a7c56369a7d56329a7e56389a80566b9a8156649a82562f9a83566c9a84566a9a855686" +
	"9a8656809a87568a9a8856a09a8956949a8a568f9a8b56a59a8c56ae9a8d56b69a8e56b49a8f56c29a9056bc9a9156c19a9256c39a9356c09a9456c8" +
	"9a9556ce9a9656d19a9756d39a9856d79a9956ee9a9a56f99a9b57009a9c56ff9a9d57049a9e57099a9f57089aa0570b9aa1570d9aa257139aa35718" +
	"9aa457169aa555c79aa6571c9aa757269aa857379aa957389aaa574e9aab573b9aac57409aad574f9aae57699aaf57c09ab057889ab157619ab2577f" +
	"9ab357899ab457939ab557a09ab657b39ab757a49ab857aa9ab957b09aba57c39abb57c69abc57d49abd57d29abe57d39abf580a9ac057d69ac157e3" +
	"9ac2580b9ac358199ac4581d9ac558729ac658219ac758629ac8584b9ac958709aca6bc09acb58529acc583d9acd58799ace58859acf58b99ad0589f" +
	"9ad158ab9ad258ba9ad358de9ad458bb9ad558b89ad658ae9ad758c59ad858d39ad958d19ada58d79adb58d99adc58d89add58e59ade58dc9adf58e4" +
	"9ae058df9ae158ef9ae258fa9ae358f99ae458fb9ae558fc9ae658fd9ae759029ae8590a9ae959109aea591b9aeb68a69aec59259aed592c9aee592d" +
	"9aef59329af059389af1593e9af27ad29af359559af459509af5594e9af6595a9af759589af859629af959609afa59679afb596c9afc59699b405978" +
	"9b4159819b42599d9b434f5e9b444fab9b4559a39b4659b29b4759c69b4859e89b4959dc9b4a598d9b4b59d99b4c59da9b4d5a259b4e5a1f9b4f5a11" +
	"9b505a1c9b515a099b525a1a9b535a409b545a6c9b555a499b565a359b575a369b585a629b595a6a9b5a5a9a9b5b5abc9b5c5abe9b5d5acb9b5e5ac2" +
	"9b5f5abd9b605ae39b615ad79b625ae69b635ae99b645ad69b655afa9b665afb9b675b0c9b685b0b9b695b169b6a5b329b6b5ad09b6c5b2a9b6d5b36" +
	"9b6e5b3e9b6f5b439b705b459b715b409b725b519b735b559b745b5a9b755b5b9b765b659b775b699b785b709b795b739b7a5b759b7b5b789b7c6588" +
	"9b7d5b7a9b7e5b809b805b839b815ba69b825bb89b835bc39b845bc79b855bc99b865bd49b875bd09b885be49b895be69b8a5be29b8b5bde9b8c5be5" +
	"9b8d5beb9b8e5bf09b8f5bf69b905bf39b915c059b925c079b935c089b945c0d9b955c139b965c209b975c229b985c289b995c389b9a5c399b9b5c41" +
	"9b9c5c469b9d5c4e9b9e5c539b9f5c509ba05c4f9ba15b719ba25c6c9ba35c6e9ba44e629ba55c769ba65c799ba75c8c9ba85c919ba95c949baa599b" +
	"9bab5cab9bac5cbb9bad5cb69bae5cbc9baf5cb79bb05cc59bb15cbe9bb25cc79bb35cd99bb45ce99bb55cfd9bb65cfa9bb75ced9bb85d8c9bb95cea" +
	"9bba5d0b9bbb5d159bbc5d179bbd5d5c9bbe5d1f9bbf5d1b9bc05d119bc15d149bc25d229bc35d1a9bc45d199bc55d189bc65d4c9bc75d529bc85d4e" +
	"9bc95d4b9bca5d6c9bcb5d739bcc5d769bcd5d879bce5d849bcf5d829bd05da29bd15d9d9bd25dac9bd35dae9bd45dbd9bd55d909bd65db79bd75dbc" +
	"9bd85dc99bd95dcd9bda5dd39bdb5dd29bdc5dd69bdd5ddb9bde5deb9bdf5df29be05df59be15e0b9be25e1a9be35e199be45e119be55e1b9be65e36" +
	"9be75e379be85e449be95e439bea5e409beb5e4e9bec5e579bed5e549bee5e5f9bef5e629bf05e649bf15e479bf25e759bf35e769bf45e7a9bf59ebc" +
	"9bf65e7f9bf75ea09bf85ec19bf95ec29bfa5ec89bfb5ed09bfc5ecf9c405ed69c415ee39c425edd9c435eda9c445edb9c455ee29c465ee19c475ee8" +
	"9c485ee99c495eec9c4a5ef19c4b5ef39c4c5ef09c4d5ef49c4e5ef89c4f5efe9c505f039c515f099c525f5d9c535f5c9c545f0b9c555f119c565f16" +
	"9c575f299c585f2d9c595f389c5a5f419c5b5f489c5c5f4c9c5d5f4e9c5e5f2f9c5f5f519c605f569c615f579c625f599c635f619c645f6d9c655f73" +
	"9c665f779c675f839c685f829c695f7f9c6a5f8a9c6b5f889c6c5f919c6d5f879c6e5f9e9c6f5f999c705f989c715fa09c725fa89c735fad9c745fbc" +
	"9c755fd69c765ffb9c775fe49c785ff89c795ff19c7a5fdd9c7b60b39c7c5fff9c7d60219c7e60609c8060199c8160109c8260299c83600e9c846031" +
	"9c85601b9c8660159c87602b9c8860269c89600f9c8a603a9c8b605a9c8c60419c8d606a9c8e60779c8f605f9c90604a9c9160469c92604d9c936063" +
	"9c9460439c9560649c9660429c97606c9c98606b9c9960599c9a60819c9b608d9c9c60e79c9d60839c9e609a9c9f60849ca0609b9ca160969ca26097" +
	"9ca360929ca460a79ca5608b9ca660e19ca760b89ca860e09ca960d39caa60b49cab5ff09cac60bd9cad60c69cae60b59caf60d89cb0614d9cb16115" +
	"9cb261069cb360f69cb460f79cb561009cb660f49cb760fa9cb861039cb961219cba60fb9cbb60f19cbc610d9cbd610e9cbe61479cbf613e9cc06128" +
	"9cc161279cc2614a9cc3613f9cc4613c9cc5612c9cc661349cc7613d9cc861429cc961449cca61739ccb61779ccc61589ccd61599cce615a9ccf616b" +
	"9cd061749cd1616f9cd261659cd361719cd4615f9cd5615d9cd661539cd761759cd861999cd961969cda61879cdb61ac9cdc61949cdd619a9cde618a" +
	"9cdf61919ce061ab9ce161ae9ce261cc9ce361ca9ce461c99ce561f79ce661c89ce761c39ce861c69ce961ba9cea61cb9ceb7f799cec61cd9ced61e6" +
	"9cee61e39cef61f69cf061fa9cf161f49cf261ff9cf361fd9cf461fc9cf561fe9cf662009cf762089cf862099cf9620d9cfa620c9cfb62149cfc621b" +
	"9d40621e9d4162219d42622a9d43622e9d4462309d4562329d4662339d4762419d48624e9d49625e9d4a62639d4b625b9d4c62609d4d62689d4e627c" +
	"9d4f62829d5062899d51627e9d5262929d5362939d5462969d5562d49d5662839d5762949d5862d79d5962d19d5a62bb9d5b62cf9d5c62ff9d5d62c6" +
	"9d5e64d49d5f62c89d6062dc9d6162cc9d6262ca9d6362c29d6462c79d65629b9d6662c99d67630c9d6862ee9d6962f19d6a63279d6b63029d6c6308" +
	"9d6d62ef9d6e62f59d6f63509d70633e9d71634d9d72641c9d73634f9d7463969d75638e9d7663809d7763ab9d7863769d7963a39d7a638f9d7b6389" +
	"9d7c639f9d7d63b59d7e636b9d8063699d8163be9d8263e99d8363c09d8463c69d8563e39d8663c99d8763d29d8863f69d8963c49d8a64169d8b6434" +
	"9d8c64069d8d64139d8e64269d8f64369d90651d9d9164179d9264289d93640f9d9464679d95646f9d9664769d97644e9d98652a9d9964959d9a6493" +
	"9d9b64a59d9c64a99d9d64889d9e64bc9d9f64da9da064d29da164c59da264c79da364bb9da464d89da564c29da664f19da764e79da882099da964e0" +
	"9daa64e19dab62ac9dac64e39dad64ef9dae652c9daf64f69db064f49db164f29db264fa9db365009db464fd9db565189db6651c9db765059db86524" +
	"9db965239dba652b9dbb65349dbc65359dbd65379dbe65369dbf65389dc0754b9dc165489dc265569dc365559dc4654d9dc565589dc6655e9dc7655d" +
	"9dc865729dc965789dca65829dcb65839dcc8b8a9dcd659b9dce659f9dcf65ab9dd065b79dd165c39dd265c69dd365c19dd465c49dd565cc9dd665d2" +
	"9dd765db9dd865d99dd965e09dda65e19ddb65f19ddc67729ddd660a9dde66039ddf65fb9de067739de166359de266369de366349de4661c9de5664f" +
	"9de666449de766499de866419de9665e9dea665d9deb66649dec66679ded66689dee665f9def66629df066709df166839df266889df3668e9df46689" +
	"9df566849df666989df7669d9df866c19df966b99dfa66c99dfb66be9dfc66bc9e4066c49e4166b89e4266d69e4366da9e4466e09e45663f9e4666e6" +
	"9e4766e99e4866f09e4966f59e4a66f79e4b670f9e4c67169e4d671e9e4e67269e4f67279e5097389e51672e9e52673f9e5367369e5467419e556738" +
	"9e5667379e5767469e58675e9e5967609e5a67599e5b67639e5c67649e5d67899e5e67709e5f67a99e60677c9e61676a9e62678c9e63678b9e6467a6" +
	"9e6567a19e6667859e6767b79e6867ef9e6967b49e6a67ec9e6b67b39e6c67e99e6d67b89e6e67e49e6f67de9e7067dd9e7167e29e7267ee9e7367b9" +
	"9e7467ce9e7567c69e7667e79e776a9c9e78681e9e7968469e7a68299e7b68409e7c684d9e7d68329e7e684e9e8068b39e81682b9e8268599e836863" +
	"9e8468779e85687f9e86689f9e87688f9e8868ad9e8968949e8a689d9e8b689b9e8c68839e8d6aae9e8e68b99e8f68749e9068b59e9168a09e9268ba" +
	"9e93690f9e94688d9e95687e9e9669019e9768ca9e9869089e9968d89e9a69229e9b69269e9c68e19e9d690c9e9e68cd9e9f68d49ea068e79ea168d5" +
	"9ea269369ea369129ea469049ea568d79ea668e39ea769259ea868f99ea968e09eaa68ef9eab69289eac692a9ead691a9eae69239eaf69219eb068c6" +
	"9eb169799eb269779eb3695c9eb469789eb5696b9eb669549eb7697e9eb8696e9eb969399eba69749ebb693d9ebc69599ebd69309ebe69619ebf695e" +
	"9ec0695d9ec169819ec2696a9ec369b29ec469ae9ec569d09ec669bf9ec769c19ec869d39ec969be9eca69ce9ecb5be89ecc69ca9ecd69dd9ece69bb" +
	"9ecf69c39ed069a79ed16a2e9ed269919ed369a09ed4699c9ed569959ed669b49ed769de9ed869e89ed96a029eda6a1b9edb69ff9edc6b0a9edd69f9" +
	"9ede69f29edf69e79ee06a059ee169b19ee26a1e9ee369ed9ee46a149ee569eb9ee66a0a9ee76a129ee86ac19ee96a239eea6a139eeb6a449eec6a0c" +
	"9eed6a729eee6a369eef6a789ef06a479ef16a629ef26a599ef36a669ef46a489ef56a389ef66a229ef76a909ef86a8d9ef96aa09efa6a849efb6aa2" +
	"9efc6aa39f406a979f4186179f426abb9f436ac39f446ac29f456ab89f466ab39f476aac9f486ade9f496ad19f4a6adf9f4b6aaa9f4c6ada9f4d6aea" +
	"9f4e6afb9f4f6b059f5086169f516afa9f526b129f536b169f549b319f556b1f9f566b389f576b379f5876dc9f596b399f5a98ee9f5b6b479f5c6b43" +
	"9f5d6b499f5e6b509f5f6b599f606b549f616b5b9f626b5f9f636b619f646b789f656b799f666b7f9f676b809f686b849f696b839f6a6b8d9f6b6b98" +
	"9f6c6b959f6d6b9e9f6e6ba49f6f6baa9f706bab9f716baf9f726bb29f736bb19f746bb39f756bb79f766bbc9f776bc69f786bcb9f796bd39f7a6bdf" +
	"9f7b6bec9f7c6beb9f7d6bf39f7e6bef9f809ebe9f816c089f826c139f836c149f846c1b9f856c249f866c239f876c5e9f886c559f896c629f8a6c6a" +
	"9f8b6c829f8c6c8d9f8d6c9a9f8e6c819f8f6c9b9f906c7e9f916c689f926c739f936c929f946c909f956cc49f966cf19f976cd39f986cbd9f996cd7" +
	"9f9a6cc59f9b6cdd9f9c6cae9f9d6cb19f9e6cbe9f9f6cba9fa06cdb9fa16cef9fa26cd99fa36cea9fa46d1f9fa5884d9fa66d369fa76d2b9fa86d3d" +
	"9fa96d389faa6d199fab6d359fac6d339fad6d129fae6d0c9faf6d639fb06d939fb16d649fb26d5a9fb36d799fb46d599fb56d8e9fb66d959fb76fe4" +
	"9fb86d859fb96df99fba6e159fbb6e0a9fbc6db59fbd6dc79fbe6de69fbf6db89fc06dc69fc16dec9fc26dde9fc36dcc9fc46de89fc56dd29fc66dc5" +
	"9fc76dfa9fc86dd99fc96de49fca6dd59fcb6dea9fcc6dee9fcd6e2d9fce6e6e9fcf6e2e9fd06e199fd16e729fd26e5f9fd36e3e9fd46e239fd56e6b" +
	"9fd66e2b9fd76e769fd86e4d9fd96e1f9fda6e439fdb6e3a9fdc6e4e9fdd6e249fde6eff9fdf6e1d9fe06e389fe16e829fe26eaa9fe36e989fe46ec9" +
	"9fe56eb79fe66ed39fe76ebd9fe86eaf9fe96ec49fea6eb29feb6ed49fec6ed59fed6e8f9fee6ea59fef6ec29ff06e9f9ff16f419ff26f119ff3704c" +
	"9ff46eec9ff56ef89ff66efe9ff76f3f9ff86ef29ff96f319ffa6eef9ffb6f329ffc6ecce0406f3ee0416f13e0426ef7e0436f86e0446f7ae0456f78" +
	"e0466f81e0476f80e0486f6fe0496f5be04a6ff3e04b6f6de04c6f82e04d6f7ce04e6f58e04f6f8ee0506f91e0516fc2e0526f66e0536fb3e0546fa3" +
	"e0556fa1e0566fa4e0576fb9e0586fc6e0596faae05a6fdfe05b6fd5e05c6fece05d6fd4e05e6fd8e05f6ff1e0606feee0616fdbe0627009e063700b" +
	"e0646ffae0657011e0667001e067700fe0686ffee069701be06a701ae06b6f74e06c701de06d7018e06e701fe06f7030e070703ee0717032e0727051" +
	"e0737063e0747099e0757092e07670afe07770f1e07870ace07970b8e07a70b3e07b70aee07c70dfe07d70cbe07e70dde08070d9e0817109e08270fd" +
	"e083711ce0847119e0857165e0867155e0877188e0887166e0897162e08a714ce08b7156e08c716ce08d718fe08e71fbe08f7184e0907195e09171a8" +
	"e09271ace09371d7e09471b9e09571bee09671d2e09771c9e09871d4e09971cee09a71e0e09b71ece09c71e7e09d71f5e09e71fce09f71f9e0a071ff" +
	"e0a1720de0a27210e0a3721be0a47228e0a5722de0a6722ce0a77230e0a87232e0a9723be0aa723ce0ab723fe0ac7240e0ad7246e0ae724be0af7258" +
	"e0b07274e0b1727ee0b27282e0b37281e0b47287e0b57292e0b67296e0b772a2e0b872a7e0b972b9e0ba72b2e0bb72c3e0bc72c6e0bd72c4e0be72ce" +
	"e0bf72d2e0c072e2e0c172e0e0c272e1e0c372f9e0c472f7e0c5500fe0c67317e0c7730ae0c8731ce0c97316e0ca731de0cb7334e0cc732fe0cd7329" +
	"e0ce7325e0cf733ee0d0734ee0d1734fe0d29ed8e0d37357e0d4736ae0d57368e0d67370e0d77378e0d87375e0d9737be0da737ae0db73c8e0dc73b3" +
	"e0dd73cee0de73bbe0df73c0e0e073e5e0e173eee0e273dee0e374a2e0e47405e0e5746fe0e67425e0e773f8e0e87432e0e9743ae0ea7455e0eb743f" +
	"e0ec745fe0ed7459e0ee7441e0ef745ce0f07469e0f17470e0f27463e0f3746ae0f47476e0f5747ee0f6748be0f7749ee0f874a7e0f974cae0fa74cf" +
	"e0fb74d4e0fc73f1e14074e0e14174e3e14274e7e14374e9e14474eee14574f2e14674f0e14774f1e14874f8e14974f7e14a7504e14b7503e14c7505" +
	"e14d750ce14e750ee14f750de1507515e1517513e152751ee1537526e154752ce155753ce1567544e157754de158754ae1597549e15a755be15b7546" +
	"e15c755ae15d7569e15e7564e15f7567e160756be161756de1627578e1637576e1647586e1657587e1667574e167758ae1687589e1697582e16a7594" +
	"e16b759ae16c759de16d75a5e16e75a3e16f75c2e17075b3e17175c3e17275b5e17375bde17475b8e17575bce17675b1e17775cde17875cae17975d2" +
	"e17a75d9e17b75e3e17c75dee17d75fee17e75ffe18075fce1817601e18275f0e18375fae18475f2e18575f3e186760be187760de1887609e189761f" +
	"e18a7627e18b7620e18c7621e18d7622e18e7624e18f7634e1907630e191763be1927647e1937648e1947646e195765ce1967658e1977661e1987662" +
	"e1997668e19a7669e19b766ae19c7667e19d766ce19e7670e19f7672e1a07676e1a17678e1a2767ce1a37680e1a47683e1a57688e1a6768be1a7768e" +
	"e1a87696e1a97693e1aa7699e1ab769ae1ac76b0e1ad76b4e1ae76b8e1af76b9e1b076bae1b176c2e1b276cde1b376d6e1b476d2e1b576dee1b676e1" +
	"e1b776e5e1b876e7e1b976eae1ba862fe1bb76fbe1bc7708e1bd7707e1be7704e1bf7729e1c07724e1c1771ee1c27725e1c37726e1c4771be1c57737" +
	"e1c67738e1c77747e1c8775ae1c97768e1ca776be1cb775be1cc7765e1cd777fe1ce777ee1cf7779e1d0778ee1d1778be1d27791e1d377a0e1d4779e" +
	"e1d577b0e1d677b6e1d777b9e1d877bfe1d977bce1da77bde1db77bbe1dc77c7e1dd77cde1de77d7e1df77dae1e077dce1e177e3e1e277eee1e377fc" +
	"e1e4780ce1e57812e1e67926e1e77820e1e8792ae1e97845e1ea788ee1eb7874e1ec7886e1ed787ce1ee789ae1ef788ce1f078a3e1f178b5e1f278aa" +
	"e1f378afe1f478d1e1f578c6e1f678cbe1f778d4e1f878bee1f978bce1fa78c5e1fb78cae1fc78ece24078e7e24178dae24278fde24378f4e2447907" +
	"e2457912e2467911e2477919e248792ce249792be24a7940e24b7960e24c7957e24d795fe24e795ae24f7955e2507953e251797ae252797fe253798a" +
	"e254799de25579a7e2569f4be25779aae25879aee25979b3e25a79b9e25b79bae25c79c9e25d79d5e25e79e7e25f79ece26079e1e26179e3e2627a08" +
	"e2637a0de2647a18e2657a19e2667a20e2677a1fe2687980e2697a31e26a7a3be26b7a3ee26c7a37e26d7a43e26e7a57e26f7a49e2707a61e2717a62" +
	"e2727a69e2739f9de2747a70e2757a79e2767a7de2777a88e2787a97e2797a95e27a7a98e27b7a96e27c7aa9e27d7ac8e27e7ab0e2807ab6e2817ac5" +
	"e2827ac4e2837abfe2849083e2857ac7e2867acae2877acde2887acfe2897ad5e28a7ad3e28b7ad9e28c7adae28d7adde28e7ae1e28f7ae2e2907ae6" +
	"e2917aede2927af0e2937b02e2947b0fe2957b0ae2967b06e2977b33e2987b18e2997b19e29a7b1ee29b7b35e29c7b28e29d7b36e29e7b50e29f7b7a" +
	"e2a07b04e2a17b4de2a27b0be2a37b4ce2a47b45e2a57b75e2a67b65e2a77b74e2a87b67e2a97b70e2aa7b71e2ab7b6ce2ac7b6ee2ad7b9de2ae7b98" +
	"e2af7b9fe2b07b8de2b17b9ce2b27b9ae2b37b8be2b47b92e2b57b8fe2b67b5de2b77b99e2b87bcbe2b97bc1e2ba7bcce2bb7bcfe2bc7bb4e2bd7bc6" +
	"e2be7bdde2bf7be9e2c07c11e2c17c14e2c27be6e2c37be5e2c47c60e2c57c00e2c67c07e2c77c13e2c87bf3e2c97bf7e2ca7c17e2cb7c0de2cc7bf6" +
	"e2cd7c23e2ce7c27e2cf7c2ae2d07c1fe2d17c37e2d27c2be2d37c3de2d47c4ce2d57c43e2d67c54e2d77c4fe2d87c40e2d97c50e2da7c58e2db7c5f" +
	"e2dc7c64e2dd7c56e2de7c65e2df7c6ce2e07c75e2e17c83e2e27c90e2e37ca4e2e47cade2e57ca2e2e67cabe2e77ca1e2e87ca8e2e97cb3e2ea7cb2" +
	"e2eb7cb1e2ec7caee2ed7cb9e2ee7cbde2ef7cc0e2f07cc5e2f17cc2e2f27cd8e2f37cd2e2f47cdce2f57ce2e2f69b3be2f77cefe2f87cf2e2f97cf4" +
	"e2fa7cf6e2fb7cfae2fc7d06e3407d02e3417d1ce3427d15e3437d0ae3447d45e3457d4be3467d2ee3477d32e3487d3fe3497d35e34a7d46e34b7d73" +
	"e34c7d56e34d7d4ee34e7d72e34f7d68e3507d6ee3517d4fe3527d63e3537d93e3547d89e3557d5be3567d8fe3577d7de3587d9be3597dbae35a7dae" +
	"e35b7da3e35c7db5e35d7dc7e35e7dbde35f7dabe3607e3de3617da2e3627dafe3637ddce3647db8e3657d9fe3667db0e3677dd8e3687ddde3697de4" +
	"e36a7ddee36b7dfbe36c7df2e36d7de1e36e7e05e36f7e0ae3707e23e3717e21e3727e12e3737e31e3747e1fe3757e09e3767e0be3777e22e3787e46" +
	"e3797e66e37a7e3be37b7e35e37c7e39e37d7e43e37e7e37e3807e32e3817e3ae3827e67e3837e5de3847e56e3857e5ee3867e59e3877e5ae3887e79" +
	"e3897e6ae38a7e69e38b7e7ce38c7e7be38d7e83e38e7dd5e38f7e7de3908faee3917e7fe3927e88e3937e89e3947e8ce3957e92e3967e90e3977e93" +
	"e3987e94e3997e96e39a7e8ee39b7e9be39c7e9ce39d7f38e39e7f3ae39f7f45e3a07f4ce3a17f4de3a27f4ee3a37f50e3a47f51e3a57f55e3a67f54" +
	"e3a77f58e3a87f5fe3a97f60e3aa7f68e3ab7f69e3ac7f67e3ad7f78e3ae7f82e3af7f86e3b07f83e3b17f88e3b27f87e3b37f8ce3b47f94e3b57f9e" +
	"e3b67f9de3b77f9ae3b87fa3e3b97fafe3ba7fb2e3bb7fb9e3bc7faee3bd7fb6e3be7fb8e3bf8b71e3c07fc5e3c17fc6e3c27fcae3c37fd5e3c47fd4" +
	"e3c57fe1e3c67fe6e3c77fe9e3c87ff3e3c97ff9e3ca98dce3cb8006e3cc8004e3cd800be3ce8012e3cf8018e3d08019e3d1801ce3d28021e3d38028" +
	"e3d4803fe3d5803be3d6804ae3d78046e3d88052e3d98058e3da805ae3db805fe3dc8062e3dd8068e3de8073e3df8072e3e08070e3e18076e3e28079" +
	"e3e3807de3e4807fe3e58084e3e68086e3e78085e3e8809be3e98093e3ea809ae3eb80ade3ec5190e3ed80ace3ee80dbe3ef80e5e3f080d9e3f180dd" +
	"e3f280c4e3f380dae3f480d6e3f58109e3f680efe3f780f1e3f8811be3f98129e3fa8123e3fb812fe3fc814be440968be4418146e442813ee4438153" +
	"e4448151e44580fce4468171e447816ee4488165e4498166e44a8174e44b8183e44c8188e44d818ae44e8180e44f8182e45081a0e4518195e45281a4" +
	"e45381a3e454815fe4558193e45681a9e45781b0e45881b5e45981bee45a81b8e45b81bde45c81c0e45d81c2e45e81bae45f81c9e46081cde46181d1" +
	"e46281d9e46381d8e46481c8e46581dae46681dfe46781e0e46881e7e46981fae46a81fbe46b81fee46c8201e46d8202e46e8205e46f8207e470820a" +
	"e471820de4728210e4738216e4748229e475822be4768238e4778233e4788240e4798259e47a8258e47b825de47c825ae47d825fe47e8264e4808262" +
	"e4818268e482826ae483826be484822ee4858271e4868277e4878278e488827ee489828de48a8292e48b82abe48c829fe48d82bbe48e82ace48f82e1" +
	"e49082e3e49182dfe49282d2e49382f4e49482f3e49582fae4968393e4978303e49882fbe49982f9e49a82dee49b8306e49c82dce49d8309e49e82d9" +
	"e49f8335e4a08334e4a18316e4a28332e4a38331e4a48340e4a58339e4a68350e4a78345e4a8832fe4a9832be4aa8317e4ab8318e4ac8385e4ad839a" +
	"e4ae83aae4af839fe4b083a2e4b18396e4b28323e4b3838ee4b48387e4b5838ae4b6837ce4b783b5e4b88373e4b98375e4ba83a0e4bb8389e4bc83a8" +
	"e4bd83f4e4be8413e4bf83ebe4c083cee4c183fde4c28403e4c383d8e4c4840be4c583c1e4c683f7e4c78407e4c883e0e4c983f2e4ca840de4cb8422" +
	"e4cc8420e4cd83bde4ce8438e4cf8506e4d083fbe4d1846de4d2842ae4d3843ce4d4855ae4d58484e4d68477e4d7846be4d884ade4d9846ee4da8482" +
	"e4db8469e4dc8446e4dd842ce4de846fe4df8479e4e08435e4e184cae4e28462e4e384b9e4e484bfe4e5849fe4e684d9e4e784cde4e884bbe4e984da" +
	"e4ea84d0e4eb84c1e4ec84c6e4ed84d6e4ee84a1e4ef8521e4f084ffe4f184f4e4f28517e4f38518e4f4852ce4f5851fe4f68515e4f78514e4f884fc" +
	"e4f98540e4fa8563e4fb8558e4fc8548e5408541e5418602e542854be5438555e5448580e54585a4e5468588e5478591e548858ae54985a8e54a856d" +
	"e54b8594e54c859be54d85eae54e8587e54f859ce5508577e551857ee5528590e55385c9e55485bae55585cfe55685b9e55785d0e55885d5e55985dd" +
	"e55a85e5e55b85dce55c85f9e55d860ae55e8613e55f860be56085fee56185fae5628606e5638622e564861ae5658630e566863fe567864de5684e55" +
	"e5698654e56a865fe56b8667e56c8671e56d8693e56e86a3e56f86a9e57086aae571868be572868ce57386b6e57486afe57586c4e57686c6e57786b0" +
	"e57886c9e5798823e57a86abe57b86d4e57c86dee57d86e9e57e86ece58086dfe58186dbe58286efe5838712e5848706e5858708e5868700e5878703" +
	"e58886fbe5898711e58a8709e58b870de58c86f9e58d870ae58e8734e58f873fe5908737e591873be5928725e5938729e594871ae5958760e596875f" +
	"e5978778e598874ce599874ee59a8774e59b8757e59c8768e59d876ee59e8759e59f8753e5a08763e5a1876ae5a28805e5a387a2e5a4879fe5a58782" +
	"e5a687afe5a787cbe5a887bde5a987c0e5aa87d0e5ab96d6e5ac87abe5ad87c4e5ae87b3e5af87c7e5b087c6e5b187bbe5b287efe5b387f2e5b487e0" +
	"e5b5880fe5b6880de5b787fee5b887f6e5b987f7e5ba880ee5bb87d2e5bc8811e5bd8816e5be8815e5bf8822e5c08821e5c18831e5c28836e5c38839" +
	"e5c48827e5c5883be5c68844e5c78842e5c88852e5c98859e5ca885ee5cb8862e5cc886be5cd8881e5ce887ee5cf889ee5d08875e5d1887de5d288b5" +
	"e5d38872e5d48882e5d58897e5d68892e5d788aee5d88899e5d988a2e5da888de5db88a4e5dc88b0e5dd88bfe5de88b1e5df88c3e5e088c4e5e188d4" +
	"e5e288d8e5e388d9e5e488dde5e588f9e5e68902e5e788fce5e888f4e5e988e8e5ea88f2e5eb8904e5ec890ce5ed890ae5ee8913e5ef8943e5f0891e" +
	"e5f18925e5f2892ae5f3892be5f48941e5f58944e5f6893be5f78936e5f88938e5f9894ce5fa891de5fb8960e5fc895ee6408966e6418964e642896d" +
	"e643896ae644896fe6458974e6468977e647897ee6488983e6498988e64a898ae64b8993e64c8998e64d89a1e64e89a9e64f89a6e65089ace65189af" +
	"e65289b2e65389bae65489bde65589bfe65689c0e65789dae65889dce65989dde65a89e7e65b89f4e65c89f8e65d8a03e65e8a16e65f8a10e6608a0c" +
	"e6618a1be6628a1de6638a25e6648a36e6658a41e6668a5be6678a52e6688a46e6698a48e66a8a7ce66b8a6de66c8a6ce66d8a62e66e8a85e66f8a82" +
	"e6708a84e6718aa8e6728aa1e6738a91e6748aa5e6758aa6e6768a9ae6778aa3e6788ac4e6798acde67a8ac2e67b8adae67c8aebe67d8af3e67e8ae7" +
	"e6808ae4e6818af1e6828b14e6838ae0e6848ae2e6858af7e6868adee6878adbe6888b0ce6898b07e68a8b1ae68b8ae1e68c8b16e68d8b10e68e8b17" +
	"e68f8b20e6908b33e69197abe6928b26e6938b2be6948b3ee6958b28e6968b41e6978b4ce6988b4fe6998b4ee69a8b49e69b8b56e69c8b5be69d8b5a" +
	"e69e8b6be69f8b5fe6a08b6ce6a18b6fe6a28b74e6a38b7de6a48b80e6a58b8ce6a68b8ee6a78b92e6a88b93e6a98b96e6aa8b99e6ab8b9ae6ac8c3a" +
	"e6ad8c41e6ae8c3fe6af8c48e6b08c4ce6b18c4ee6b28c50e6b38c55e6b48c62e6b58c6ce6b68c78e6b78c7ae6b88c82e6b98c89e6ba8c85e6bb8c8a" +
	"e6bc8c8de6bd8c8ee6be8c94e6bf8c7ce6c08c98e6c1621de6c28cade6c38caae6c48cbde6c58cb2e6c68cb3e6c78caee6c88cb6e6c98cc8e6ca8cc1" +
	"e6cb8ce4e6cc8ce3e6cd8cdae6ce8cfde6cf8cfae6d08cfbe6d18d04e6d28d05e6d38d0ae6d48d07e6d58d0fe6d68d0de6d78d10e6d89f4ee6d98d13" +
	"e6da8ccde6db8d14e6dc8d16e6dd8d67e6de8d6de6df8d71e6e08d73e6e18d81e6e28d99e6e38dc2e6e48dbee6e58dbae6e68dcfe6e78ddae6e88dd6" +
	"e6e98dcce6ea8ddbe6eb8dcbe6ec8deae6ed8debe6ee8ddfe6ef8de3e6f08dfce6f18e08e6f28e09e6f38dffe6f48e1de6f58e1ee6f68e10e6f78e1f" +
	"e6f88e42e6f98e35e6fa8e30e6fb8e34e6fc8e4ae7408e47e7418e49e7428e4ce7438e50e7448e48e7458e59e7468e64e7478e60e7488e2ae7498e63" +
	"e74a8e55e74b8e76e74c8e72e74d8e7ce74e8e81e74f8e87e7508e85e7518e84e7528e8be7538e8ae7548e93e7558e91e7568e94e7578e99e7588eaa" +
	"e7598ea1e75a8eace75b8eb0e75c8ec6e75d8eb1e75e8ebee75f8ec5e7608ec8e7618ecbe7628edbe7638ee3e7648efce7658efbe7668eebe7678efe" +
	"e7688f0ae7698f05e76a8f15e76b8f12e76c8f19e76d8f13e76e8f1ce76f8f1fe7708f1be7718f0ce7728f26e7738f33e7748f3be7758f39e7768f45" +
	"e7778f42e7788f3ee7798f4ce77a8f49e77b8f46e77c8f4ee77d8f57e77e8f5ce7808f62e7818f63e7828f64e7838f9ce7848f9fe7858fa3e7868fad" +
	"e7878fafe7888fb7e7898fdae78a8fe5e78b8fe2e78c8feae78d8fefe78e9087e78f8ff4e7909005e7918ff9e7928ffae7939011e7949015e7959021" +
	"e796900de797901ee7989016e799900be79a9027e79b9036e79c9035e79d9039e79e8ff8e79f904fe7a09050e7a19051e7a29052e7a3900ee7a49049" +
	"e7a5903ee7a69056e7a79058e7a8905ee7a99068e7aa906fe7ab9076e7ac96a8e7ad9072e7ae9082e7af907de7b09081e7b19080e7b2908ae7b39089" +
	"e7b4908fe7b590a8e7b690afe7b790b1e7b890b5e7b990e2e7ba90e4e7bb6248e7bc90dbe7bd9102e7be9112e7bf9119e7c09132e7c19130e7c2914a" +
	"e7c39156e7c49158e7c59163e7c69165e7c79169e7c89173e7c99172e7ca918be7cb9189e7cc9182e7cd91a2e7ce91abe7cf91afe7d091aae7d191b5" +
	"e7d291b4e7d391bae7d491c0e7d591c1e7d691c9e7d791cbe7d891d0e7d991d6e7da91dfe7db91e1e7dc91dbe7dd91fce7de91f5e7df91f6e7e0921e" +
	"e7e191ffe7e29214e7e3922ce7e49215e7e59211e7e6925ee7e79257e7e89245e7e99249e7ea9264e7eb9248e7ec9295e7ed923fe7ee924be7ef9250" +
	"e7f0929ce7f19296e7f29293e7f3929be7f4925ae7f592cfe7f692b9e7f792b7e7f892e9e7f9930fe7fa92fae7fb9344e7fc932ee8409319e8419322" +
	"e842931ae8439323e844933ae8459335e846933be847935ce8489360e849937ce84a936ee84b9356e84c93b0e84d93ace84e93ade84f9394e85093b9" +
	"e85193d6e85293d7e85393e8e85493e5e85593d8e85693c3e85793dde85893d0e85993c8e85a93e4e85b941ae85c9414e85d9413e85e9403e85f9407" +
	"e8609410e8619436e862942be8639435e8649421e865943ae8669441e8679452e8689444e869945be86a9460e86b9462e86c945ee86d946ae86e9229" +
	"e86f9470e8709475e8719477e872947de873945ae874947ce875947ee8769481e877947fe8789582e8799587e87a958ae87b9594e87c9596e87d9598" +
	"e87e9599e88095a0e88195a8e88295a7e88395ade88495bce88595bbe88695b9e88795bee88895cae8896ff6e88a95c3e88b95cde88c95cce88d95d5" +
	"e88e95d4e88f95d6e89095dce89195e1e89295e5e89395e2e8949621e8959628e896962ee897962fe8989642e899964ce89a964fe89b964be89c9677" +
	"e89d965ce89e965ee89f965de8a0965fe8a19666e8a29672e8a3966ce8a4968de8a59698e8a69695e8a79697e8a896aae8a996a7e8aa96b1e8ab96b2" +
	"e8ac96b0e8ad96b4e8ae96b6e8af96b8e8b096b9e8b196cee8b296cbe8b396c9e8b496cde8b5894de8b696dce8b7970de8b896d5e8b996f9e8ba9704" +
	"e8bb9706e8bc9708e8bd9713e8be970ee8bf9711e8c0970fe8c19716e8c29719e8c39724e8c4972ae8c59730e8c69739e8c7973de8c8973ee8c99744" +
	"e8ca9746e8cb9748e8cc9742e8cd9749e8ce975ce8cf9760e8d09764e8d19766e8d29768e8d352d2e8d4976be8d59771e8d69779e8d79785e8d8977c" +
	"e8d99781e8da977ae8db9786e8dc978be8dd978fe8de9790e8df979ce8e097a8e8e197a6e8e297a3e8e397b3e8e497b4e8e597c3e8e697c6e8e797c8" +
	"e8e897cbe8e997dce8ea97ede8eb9f4fe8ec97f2e8ed7adfe8ee97f6e8ef97f5e8f0980fe8f1980ce8f29838e8f39824e8f49821e8f59837e8f6983d" +
	"e8f79846e8f8984fe8f9984be8fa986be8fb986fe8fc9870e9409871e9419874e9429873e94398aae94498afe94598b1e94698b6e94798c4e94898c3" +
	"e94998c6e94a98e9e94b98ebe94c9903e94d9909e94e9912e94f9914e9509918e9519921e952991de953991ee9549924e9559920e956992ce957992e" +
	"e958993de959993ee95a9942e95b9949e95c9945e95d9950e95e994be95f9951e9609952e961994ce9629955e9639997e9649998e96599a5e96699ad" +
	"e96799aee96899bce96999dfe96a99dbe96b99dde96c99d8e96d99d1e96e99ede96f99eee97099f1e97199f2e97299fbe97399f8e9749a01e9759a0f" +
	"e9769a05e97799e2e9789a19e9799a2be97a9a37e97b9a45e97c9a42e97d9a40e97e9a43e9809a3ee9819a55e9829a4de9839a5be9849a57e9859a5f" +
	"e9869a62e9879a65e9889a64e9899a69e98a9a6be98b9a6ae98c9aade98d9ab0e98e9abce98f9ac0e9909acfe9919ad1e9929ad3e9939ad4e9949ade" +
	"e9959adfe9969ae2e9979ae3e9989ae6e9999aefe99a9aebe99b9aeee99c9af4e99d9af1e99e9af7e99f9afbe9a09b06e9a19b18e9a29b1ae9a39b1f" +
	"e9a49b22e9a59b23e9a69b25e9a79b27e9a89b28e9a99b29e9aa9b2ae9ab9b2ee9ac9b2fe9ad9b32e9ae9b44e9af9b43e9b09b4fe9b19b4de9b29b4e" +
	"e9b39b51e9b49b58e9b59b74e9b69b93e9b79b83e9b89b91e9b99b96e9ba9b97e9bb9b9fe9bc9ba0e9bd9ba8e9be9bb4e9bf9bc0e9c09bcae9c19bb9" +
	"e9c29bc6e9c39bcfe9c49bd1e9c59bd2e9c69be3e9c79be2e9c89be4e9c99bd4e9ca9be1e9cb9c3ae9cc9bf2e9cd9bf1e9ce9bf0e9cf9c15e9d09c14" +
	"e9d19c09e9d29c13e9d39c0ce9d49c06e9d59c08e9d69c12e9d79c0ae9d89c04e9d99c2ee9da9c1be9db9c25e9dc9c24e9dd9c21e9de9c30e9df9c47" +
	"e9e09c32e9e19c46e9e29c3ee9e39c5ae9e49c60e9e59c67e9e69c76e9e79c78e9e89ce7e9e99cece9ea9cf0e9eb9d09e9ec9d08e9ed9cebe9ee9d03" +
	"e9ef9d06e9f09d2ae9f19d26e9f29dafe9f39d23e9f49d1fe9f59d44e9f69d15e9f79d12e9f89d41e9f99d3fe9fa9d3ee9fb9d46e9fc9d48ea409d5d" +
	"ea419d5eea429d64ea439d51ea449d50ea459d59ea469d72ea479d89ea489d87ea499dabea4a9d6fea4b9d7aea4c9d9aea4d9da4ea4e9da9ea4f9db2" +
	"ea509dc4ea519dc1ea529dbbea539db8ea549dbaea559dc6ea569dcfea579dc2ea589dd9ea599dd3ea5a9df8ea5b9de6ea5c9dedea5d9defea5e9dfd" +
	"ea5f9e1aea609e1bea619e1eea629e75ea639e79ea649e7dea659e81ea669e88ea679e8bea689e8cea699e92ea6a9e95ea6b9e91ea6c9e9dea6d9ea5" +
	"ea6e9ea9ea6f9eb8ea709eaaea719eadea729761ea739eccea749eceea759ecfea769ed0ea779ed4ea789edcea799edeea7a9eddea7b9ee0ea7c9ee5" +
	"ea7d9ee8ea7e9eefea809ef4ea819ef6ea829ef7ea839ef9ea849efbea859efcea869efdea879f07ea889f08ea8976b7ea8a9f15ea8b9f21ea8c9f2c" +
	"ea8d9f3eea8e9f4aea8f9f52ea909f54ea919f63ea929f5fea939f60ea949f61ea959f66ea969f67ea979f6cea989f6aea999f77ea9a9f72ea9b9f76" +
	"ea9c9f95ea9d9f9cea9e9fa0ea9f582feaa069c7eaa19059eaa27464eaa351dceaa47199"
