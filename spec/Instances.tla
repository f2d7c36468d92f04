------------------------------ MODULE Instances -----------------------------
(***************************************************************************)
(* Published constants of the named curves and maps.  Generated by         *)
(* tools/mkinstances.py from openssl, RFC 7748, RFC 8032, RFC 9380.        *)
(***************************************************************************)
EXTENDS Morphisms

CurveNames == <<"P256", "P384", "P521", "SECP256K1", "CURVE25519", "EDWARDS25519", "CURVE448", "EDWARDS448", "BLS12381G1", "SECP256K1_3ISO", "BLS12381G1_11ISO">>

Named(name) ==
  CASE name = "P256" ->
         [kind |-> "w",
          p |-> N("115792089210356248762697446949407573530086143415290314195533631308867097853951"),
          a |-> N("115792089210356248762697446949407573530086143415290314195533631308867097853948"),
          b |-> N("41058363725152142129326129780047268409114441015993725554835256314039467401291"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("115792089210356248762697446949407573529996955224135760342422259061068512044369"),
          h |-> N("1"),
          gx |-> N("48439561293906451759052585252797914202762949526041747995844080717082404635286"),
          gy |-> N("36134250956749795798585127919587881956611106672985015071877198253568414405109")]
    [] name = "P384" ->
         [kind |-> "w",
          p |-> N("39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112319"),
          a |-> N("39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112316"),
          b |-> N("27580193559959705877849011840389048093056905856361568521428707301988689241309860865136260764883745107765439761230575"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("39402006196394479212279040100143613805079739270465446667946905279627659399113263569398956308152294913554433653942643"),
          h |-> N("1"),
          gx |-> N("26247035095799689268623156744566981891852923491109213387815615900925518854738050089022388053975719786650872476732087"),
          gy |-> N("8325710961489029985546751289520108179287853048861315594709205902480503199884419224438643760392947333078086511627871")]
    [] name = "P521" ->
         [kind |-> "w",
          p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"),
          a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057148"),
          b |-> N("1093849038073734274511112390766805569936207598951683748994586394495953116150735016013708737573759623248592132296706313309438452531591012912142327488478985984"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655394245057746333217197532963996371363321113864768612440380340372808892707005449"),
          h |-> N("1"),
          gx |-> N("2661740802050217063228768716723360960729859168756973147706671368418802944996427808491545080627771902352094241225065558662157113545570916814161637315895999846"),
          gy |-> N("3757180025770020463545507224491183603594455134769762486694567779615544477440556316691234405012945539562144444537289428522585666729196580810124344277578376784")]
    [] name = "SECP256K1" ->
         [kind |-> "w",
          p |-> N("115792089237316195423570985008687907853269984665640564039457584007908834671663"),
          a |-> N("0"),
          b |-> N("7"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("115792089237316195423570985008687907852837564279074904382605163141518161494337"),
          h |-> N("1"),
          gx |-> N("55066263022277343669578718895168534326250603453777594175500187360389116729240"),
          gy |-> N("32670510020758816978083085130507043184471273380659243275938904335757337482424")]
    [] name = "CURVE25519" ->
         [kind |-> "m",
          p |-> N("57896044618658097711785492504343953926634992332820282019728792003956564819949"),
          a |-> N("486662"),
          b |-> N("1"),
          d |-> N("0"),
          s |-> N("1"),
          r |-> N("7237005577332262213973186563042994240857116359379907606001950938285454250989"),
          h |-> N("8"),
          gx |-> N("9"),
          gy |-> N("43114425171068552920764898935933967039370386198203806730763910166200978582548")]
    [] name = "EDWARDS25519" ->
         [kind |-> "e",
          p |-> N("57896044618658097711785492504343953926634992332820282019728792003956564819949"),
          a |-> N("57896044618658097711785492504343953926634992332820282019728792003956564819948"),
          b |-> N("0"),
          d |-> N("37095705934669439343138083508754565189542113879843219016388785533085940283555"),
          s |-> N("0"),
          r |-> N("7237005577332262213973186563042994240857116359379907606001950938285454250989"),
          h |-> N("8"),
          gx |-> N("15112221349535400772501151409588531511454012693041857206046113283949847762202"),
          gy |-> N("46316835694926478169428394003475163141307993866256225615783033603165251855960")]
    [] name = "CURVE448" ->
         [kind |-> "m",
          p |-> N("726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439"),
          a |-> N("156326"),
          b |-> N("1"),
          d |-> N("0"),
          s |-> N("3"),
          r |-> N("181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779"),
          h |-> N("4"),
          gx |-> N("5"),
          gy |-> N("355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362")]
    [] name = "EDWARDS448" ->
         [kind |-> "e",
          p |-> N("726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439"),
          a |-> N("1"),
          b |-> N("0"),
          d |-> N("726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018326358"),
          s |-> N("0"),
          r |-> N("181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779"),
          h |-> N("4"),
          gx |-> N("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710"),
          gy |-> N("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660")]
    [] name = "BLS12381G1" ->
         [kind |-> "w",
          p |-> N("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"),
          a |-> N("0"),
          b |-> N("4"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("52435875175126190479447740508185965837690552500527637822603658699938581184513"),
          h |-> N("15132376222941642753"),
          gx |-> N("3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507"),
          gy |-> N("1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569")]
    [] name = "SECP256K1_3ISO" ->
         [kind |-> "w",
          p |-> N("115792089237316195423570985008687907853269984665640564039457584007908834671663"),
          a |-> N("28734576633528757162648956269730739219262246272443394170905244663053633733939"),
          b |-> N("1771"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("115792089237316195423570985008687907852837564279074904382605163141518161494337"),
          h |-> N("1"),
          gx |-> N("75295888890003590383366995344834012177557063699577440394299653383124903397514"),
          gy |-> N("82553647407850972504999846303729620951309077682374043495922869307182479212755")]
    [] name = "BLS12381G1_11ISO" ->
         [kind |-> "w",
          p |-> N("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"),
          a |-> N("12190336318893619529228877361869031420615612348429846051986726275283378313155663745811710833465465981901188123677"),
          b |-> N("2906670324641927570491258158026293881577086121416628140204402091718288198173574630967936031029026176254968826637280"),
          d |-> N("0"),
          s |-> N("0"),
          r |-> N("52435875175126190479447740508185965837690552500527637822603658699938581184513"),
          h |-> N("76329603384216526031706109802092473003"),
          gx |-> N("1020232295111649411126762359530270833151925872915888263107080350435116244445972822132949957555221231229957568042978"),
          gy |-> N("572738012940399893876716047881377207991025392386390068007901896139525257801331726850963609787517204283814804267188")]

\* the constant of the 25519 birational map
K25519 == N("6853475219497561581579357271197624642482790079785650197046958215289687604742")

\* rational maps: name -> [dom, cod]
RatDom(name) == Named(IF name = "25519" THEN "EDWARDS25519" ELSE "EDWARDS448")
RatCod(name) == Named(IF name = "25519" THEN "CURVE25519" ELSE "CURVE448")
RatPush(name, P) == IF name = "25519" THEN Push25519(RatDom(name).p, K25519, P) ELSE Push448(RatDom(name).p, P)
RatPull(name, P) == IF name = "25519" THEN Pull25519(RatDom(name).p, K25519, P) ELSE Pull448(RatDom(name).p, P)

Iso_secp256k1 ==
  [dom |-> Named("SECP256K1_3ISO"), cod |-> Named("SECP256K1"),
   xn |-> <<N("64328938465175664124206102782604393251816658147578091133031991115504908150983"),
     N("3540463234204664767867377763959255381561641196938647754971861192896365225345"),
     N("37676595701789655284650173187508961899444205326770530105295841645151729341026"),
     N("64328938465175664124206102782604393251816658147578091133031991115504908150924")>>,
   xd |-> <<N("95592507323525948732419199626899895302164312317343489384240252208201861084315"),
     N("107505182841474506714709588670204841388457878609653642868747406790547894725908"),
     N("1")>>,
   yn |-> <<N("34308767181427020866243254817389009734302217678708315270950395261602617680444"),
     N("90176424683627901097894375140309208301239340832535417794535213712559228940707"),
     N("18838297850894827642325086593754480949722102663385265052647920822575864670513"),
     N("21442979488391888041402034260868131083938886049192697044343997038501636050308")>>,
   yd |-> <<N("115792089237316195423570985008687907853269984665640564039457584007908834670907"),
     N("55193343495945455350115628863323870199952967620749340073805588608787913909619"),
     N("45465685024895564648493397996619354229416833248839900263663526177913007417199"),
     N("1")>>]

Iso_bls12381g1 ==
  [dom |-> Named("BLS12381G1_11ISO"), cod |-> Named("BLS12381G1"),
   xn |-> <<N("2712959285290305970661081772124144179193819192423276218370281158706191519995889425075952244140278856085036081760695"),
     N("3564859427549639835253027846704205725951033235539816243131874237388832081954622352624080767121604606753339903542203"),
     N("2051387046688339481714726479723076305756384619135044672831882917686431912682625619320120082313093891743187631791280"),
     N("3612713941521031012780325893181011392520079402153354595775735142359240110423346445050803899623018402874731133626465"),
     N("2247053637822768981792833880270996398470828564809439728372634811976089874056583714987807553397615562273407692740057"),
     N("3415427104483187489859740871640064348492611444552862448295571438270821994900526625562705192993481400731539293415811"),
     N("2067521456483432583860405634125513059912765526223015704616050604591207046392807563217109432457129564962571408764292"),
     N("3650721292069012982822225637849018828271936405382082649291891245623305084633066170122780668657208923883092359301262"),
     N("1239271775787030039269460763652455868148971086016832054354147730155061349388626624328773377658494412538595239256855"),
     N("3479374185711034293956731583912244564891370843071137483962415222733470401948838363051960066766720884717833231600798"),
     N("2492756312273161536685660027440158956721981129429869601638362407515627529461742974364729223659746272460004902959995"),
     N("1058488477413994682556770863004536636444795456512795473806825292198091015005841418695586811009326456605062948114985")>>,
   xd |-> <<N("1353092447850172218905095041059784486169131709710991428415161466575141675351394082965234118340787683181925558786844"),
     N("2822220997908397120956501031591772354860004534930174057793539372552395729721474912921980407622851861692773516917759"),
     N("1717937747208385987946072944131378949849282930538642983149296304709633281382731764122371874602115081850953846504985"),
     N("501624051089734157816582944025690868317536915684467868346388760435016044027032505306995281054569109955275640941784"),
     N("3025903087998593826923738290305187197829899948335370692927241015584233559365859980023579293766193297662657497834014"),
     N("2224140216975189437834161136818943039444741035168992629437640302964164227138031844090123490881551522278632040105125"),
     N("1146414465848284837484508420047674663876992808692209238763293935905506532411661921697047880549716175045414621825594"),
     N("3179090966864399634396993677377903383656908036827452986467581478509513058347781039562481806409014718357094150199902"),
     N("1549317016540628014674302140786462938410429359529923207442151939696344988707002602944342203885692366490121021806145"),
     N("1442797143427491432630626390066422021593505165588630398337491100088557278058060064930663878153124164818522816175370"),
     N("1")>>,
   yn |-> <<N("1393399195776646641963150658816615410692049723305861307490980409834842911816308830479576739332720113414154429643571"),
     N("2968610969752762946134106091152102846225411740689724909058016729455736597929366401532929068084731548131227395540630"),
     N("122933100683284845219599644396874530871261396084070222155796123161881094323788483360414289333111221370374027338230"),
     N("303251954782077855462083823228569901064301365507057490567314302006681283228886645653148231378803311079384246777035"),
     N("1353972356724735644398279028378555627591260676383150667237975415318226973994509601413730187583692624416197017403099"),
     N("3443977503653895028417260979421240655844034880950251104724609885224259484262346958661845148165419691583810082940400"),
     N("718493410301850496156792713845282235942975872282052335612908458061560958159410402177452633054233549648465863759602"),
     N("1466864076415884313141727877156167508644960317046160398342634861648153052436926062434809922037623519108138661903145"),
     N("1536886493137106337339531461344158973554574987550750910027365237255347020572858445054025958480906372033954157667719"),
     N("2171468288973248519912068884667133903101171670397991979582205855298465414047741472281361964966463442016062407908400"),
     N("3915937073730221072189646057898966011292434045388986394373682715266664498392389619761133407846638689998746172899634"),
     N("3802409194827407598156407709510350851173404795262202653149767739163117554648574333789388883640862266596657730112910"),
     N("1707589313757812493102695021134258021969283151093981498394095062397393499601961942449581422761005023512037430861560"),
     N("349697005987545415860583335313370109325490073856352967581197273584891698473628451945217286148025358795756956811571"),
     N("885704436476567581377743161796735879083481447641210566405057346859953524538988296201011389016649354976986251207243"),
     N("3370924952219000111210625390420697640496067348723987858345031683392215988129398381698161406651860675722373763741188")>>,
   yd |-> <<N("3396434800020507717552209507749485772788165484415495716688989613875369612529138640646200921379825018840894888371137"),
     N("3907278185868397906991868466757978732688957419873771881240086730384895060595583602347317992689443299391009456758845"),
     N("854914566454823955479427412036002165304466268547334760894270240966182605542146252771872707010378658178126128834546"),
     N("3496628876382137961119423566187258795236027183112131017519536056628828830323846696121917502443333849318934945158166"),
     N("1828256966233331991927609917644344011503610008134915752990581590799656305331275863706710232159635159092657073225757"),
     N("1362317127649143894542621413133849052553333099883364300946623208643344298804722863920546222860227051989127113848748"),
     N("3443845896188810583748698342858554856823966611538932245284665132724280883115455093457486044009395063504744802318172"),
     N("3484671274283470572728732863557945897902920439975203610275006103818288159899345245633896492713412187296754791689945"),
     N("3755735109429418587065437067067640634211015783636675372165599470771975919172394156249639331555277748466603540045130"),
     N("3459661102222301807083870307127272890283709299202626530836335779816726101522661683404130556379097384249447658110805"),
     N("742483168411032072323733249644347333168432665415341249073150659015707795549260947228694495111018381111866512337576"),
     N("1662231279858095762833829698537304807741442669992646287950513237989158777254081548205552083108208170765474149568658"),
     N("1668238650112823419388205992952852912407572045257706138925379268508860023191233729074751042562151098884528280913356"),
     N("369162719928976119195087327055926326601627748362769544198813069133429557026740823593067700396825489145575282378487"),
     N("2164195715141237148945939585099633032390257748382945597506236650132835917087090097395995817229686247227784224263055"),
     N("1")>>]

NamedIso(name) == IF name = "secp256k1" THEN Iso_secp256k1 ELSE Iso_bls12381g1
=============================================================================
