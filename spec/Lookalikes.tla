----------------------------- MODULE Lookalikes -----------------------------
(***************************************************************************)
(* Written by tools/mklookalikes.py: pairs of different primes that agree  *)
(* in what a summary of a number may keep of it, curves over such fields,  *)
(* and curves over one field with such coefficients.                       *)
(***************************************************************************)
EXTENDS GenLib

Lookalikes(t) == <<
  \* the same 32-bit digits
  <<N("307932742227478401592169205962494366387"), N("274126393909041725299669397771665143187")>>,
  \* the same 32-bit digits
  <<N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), N("71459259861008715974678854007517540171946420087306941801239311401823880831939")>>,
  \* the same 64-bit digits, the outer ones in place
  <<N("25647680455430383126545252771525434647402778445144229023019171836411226368830971054170269330077236007000429989021031"), N("25647680455430383126545252771525434647445117235743340811024868749487828636246152334918586739129081097257486772421991")>>,
  \* the same 64-bit digits
  <<N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), N("106792167117939289414193478869687242417022904733666846686697342512843717637271")>>,
  \* the same bytes
  <<N("9651590049276293299"), N("17344472071908787459")>>,
  \* the same bytes, the outer ones in place
  <<N("102019100231001286679513453974808686564218014876098977638428233842357600732167"), N("102142201124953959530673389350611400967047077124948438571921633448568663975687")>>,
  \* all but a word in the middle
  <<N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), N("58832960701582761688183445519508645374322588828894318142028220472245061158583")>>,
  \* all but the lowest word
  <<N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), N("80004505040050162709539085131294079441523404510851760928122060871661449242759")>>,
  \* all but the highest word
  <<N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), N("92607702140906525892435604362420166998731674013150874042967972722385676746487")>>,
  \* congruent modulo 2^128
  <<N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), N("45359507403705161281243555205812977037469822765563244693346820689643565863531")>>,
  \* congruent modulo 2^32
  <<N("7302908481323297099"), N("7827985249919723851")>>,
  \* congruent modulo 2^32-1 and 2^31-1
  <<N("171294187629118066755437202941682133103"), N("171320303267855561776270803486587913863")>>,
  \* congruent modulo many
  <<N("6184158714588695212978180580269340367748208698595195801130823003220705391082890951455883716014614867987192983247289805513248604348722351607210221627300138499"), N("6184158714588695212978180580269343598848915939298862320711695852168670139059822249953809497792626579701266078699633222252767814175785534726688907323300138499")>>,
  \* words with the same sum
  <<N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), N("115748149824290457039007839705249568103523961927205992070379427589960000740979")>>,
  \* words with the same exclusive or
  <<N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), N("111046706366701226828468296446221597978552177264885218988140553621841881861551")>>,
  \* words with the same exclusive or
  <<N("281634957934143824384427652298007456059"), N("196773435063715099533397389929078401339")>>,
  \* the same decimal digits
  <<N("283652740538518418639084141751032825097636737085536910088483"), N("283630089904033771257583645045872880170465191531182566388483")>>
>>
LookW(t) == <<
  <<[kind |-> "w", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("6"), b |-> N("1000005999989"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("6"), b |-> N("1000005999989"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), a |-> N("6"), b |-> N("1000005999989"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("12"), b |-> N("1000005999977"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("12"), b |-> N("1000005999977"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), a |-> N("12"), b |-> N("1000005999977"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("14"), b |-> N("1000005999973"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("14"), b |-> N("1000005999973"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("45359507403705161281243555205812977037469822765563244693346820689643565863531"), a |-> N("14"), b |-> N("1000005999973"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("18"), b |-> N("1000005999965"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("18"), b |-> N("1000005999965"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), a |-> N("18"), b |-> N("1000005999965"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655915130012373032440202134474229323206029971909746584185449541909486663943362914"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655915130012373032440202134474229323206029971909746584185449541909486663943362914"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655909204039918644022605619588296356400514144281813385833041333951225643359393274"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656017874422823754200966766590790874412151020818927645833845244907893134323633592"), b |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656016392929710157096567637869307632710772063911944346245743192918327879177641182"), b |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655838538225404782875727787085141582029660746753495386327294665556160877307081810"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655838538225404782875727787085141582029660746753495386327294665556160877307081810"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289414193478869687242417022904733666846686697342512843717637271"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655838538225404782875726590338572016996023991312520666023270417889003603685782610"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655998726476081691809848179743518939118058714529864846369306525819561687664563316"), b |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655998726476081691809847880556876547859649525669621166293300463902772369259238516"), b |-> N("106792167117939289414193478869687242417022904733666846686697342512843717637271"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655934456638237495931178610405274003519327300644387022640179643013367588099493906"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655934456638237495931178610405274003519327300644387022640179643013367588099493906"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445519508645374322588828894318142028220472245061158583"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655934456638237495931178610405272374190109391944330211080359756133084800998739986"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656022706079289870073710885573552044490475353002587755447527770183863365362666340"), b |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656022706079289870073710885573551637158170875827573552557572798463792668587477860"), b |-> N("58832960701582761688183445519508645374322588828894318142028220472245061158583"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655892113549560561129135899126048803321974990312966296194787574863459439445492106"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655892113549560561129135899126048803321974990312966296194787574863459439445492106"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655892113549560561129135899126048803321974990312966296194787568452285968222571634"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656012120307120636373200207753745744441137275419732573836179753146386328199165890"), b |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656012120307120636373200207753745744441137275419732573836179751543592960393435772"), b |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655874265097881737701703088798231034336188365757312376714748416874541768696012690"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655874265097881737701703088798231034336188365757312376714748416874541768696012690"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("92607702140906525892435604362420166998731674013150874042967972722385676746487"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655866907155358848402770106087586551146860573773961697968557876628584519767564178"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656007658194200930516342005171791302194690619280819093966169963649156910511796036"), b |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656005818708570208191608759494130181397358671284981424279622328587667598279683908"), b |-> N("92607702140906525892435604362420166998731674013150874042967972722385676746487"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655820626259992080540477388585475653011961599308415764156881393294998987239874714"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655820626259992080540477388585475653011961599308415764156881393294998987239874714"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655820626259992080540476961616900892344650989198133587732503053718849371119575194"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655994248484728516226035580118602456863633927668594940826703207754271215147761542"), b |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655994248484728516226035473376458766696806275141024396720608622860233811117686662"), b |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655889924646853843537267764128574100865336555913550985741454705822178414963340786"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655889924646853843537267764128574100865336555913550985741454705822178414963340786"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("111046706366701226828468296446221597978552177264885218988140553621841881861551"), b |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655830029146907259000898040703418948284900932767458229278667531466785607357334050"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656011573081443956975233174004377068826977666819878746222846535886066072078628060"), b |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "w", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397655996599206457310841140743148088280681868761033355557107149742297217870177126376"), b |-> N("111046706366701226828468296446221597978552177264885218988140553621841881861551"), d |-> N("0"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>
>>
LookM(t) == <<
  <<[kind |-> "m", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("6"), b |-> N("34"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("6"), b |-> N("34"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), a |-> N("6"), b |-> N("34"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")]>>,
  <<[kind |-> "m", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("12"), b |-> N("58"), d |-> N("0"), s |-> N("16"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("12"), b |-> N("58"), d |-> N("0"), s |-> N("16"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), a |-> N("12"), b |-> N("58"), d |-> N("0"), s |-> N("16"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")]>>,
  <<[kind |-> "m", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("14"), b |-> N("66"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("14"), b |-> N("66"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("45359507403705161281243555205812977037469822765563244693346820689643565863531"), a |-> N("14"), b |-> N("66"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")]>>,
  <<[kind |-> "m", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("18"), b |-> N("82"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("18"), b |-> N("82"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")],
    [kind |-> "m", p |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), a |-> N("18"), b |-> N("82"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), b |-> N("3483142703505839107875469063096046011210340558490476413031704294415737920515374674626392357274582161154061290370004853355331012725499117229652744372646364210"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), b |-> N("3483142703505839107875469063096046011210340558490476413031704294415737920515374674626392357274582161154061290370004853355331012725499117229652744372646364210"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), b |-> N("5911009219685225606182967063031889926881661349175401428291153840505010614392436663746176073059838407557507230944187023353818327839131521075203695798794654"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796402920020567031224771452365397160788403634447258482205105200821172581311823280549032170303"), b |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796403660771568315784481341110494742168064891625277058255136415970257636814537967174419136148"), b |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), b |-> N("6807335055941824180440509284661406414139426434710252825350914649685354932239236622711397188743299217310085620411433041199997605617958190670809528425862605117"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), b |-> N("6807335055941824180440509284661406414139426434710252825350914649685354932239236622711397188743299217310085620411433041199997605617958190670809528425862605117"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("106792167117939289414193478869687242417022904733666846686697342512843717637271"), b |-> N("2515379763097968562571188671339791858510993471776484731924370291348702064131559337131254585161645598171060629591421256291508884148952652312839270799499468460"), d |-> N("0"), s |-> N("5"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796412494051381988812278258425553703892068393577532164504073736579085993871595887269825986545"), b |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), d |-> N("0"), s |-> N("5"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796412494051381988812278408019772460794786653995883426622988092116008430720839055177049948145"), b |-> N("106792167117939289414193478869687242417022904733666846686697342512843717637271"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), b |-> N("3440232014650465916082694439666832480152876536773126884578513096157668712940067243409723406533623710999754762150821757634254484362181837849941476026183311369"), d |-> N("0"), s |-> N("8"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), b |-> N("3440232014650465916082694439666832480152876536773126884578513096157668712940067243409723406533623710999754762150821757634254484362181837849941476026183311369"), d |-> N("0"), s |-> N("8"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("58832960701582761688183445519508645374322588828894318142028220472245061158583"), b |-> N("1428856278867171404884647713641501500436024330162993801961898885779833842487017769205631491584111992990155525436604653410307992289154192795261322359352844768"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796400504177838982147597677120232278930308808117079416923108626642350066517871923411112522937"), b |-> N("58832960701582761688183445518693980765368238800488538232084780330851510781623"), d |-> N("0"), s |-> N("15"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796400504177838982147597677120232482597683045451013413557982346280305372490296807112040871097"), b |-> N("58832960701582761688183445519508645374322588828894318142028220472245061158583"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), b |-> N("3281994409792686866904991338348039692781184643237736973359692426949754040475602428964136597404575038365058586100643583472303290459956363042555082438511361733"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), b |-> N("3281994409792686866904991338348039692781184643237736973359692426949754040475602428964136597404575038365058586100643583472303290459956363042555082438511361733"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), b |-> N("4653453491740303102107518071628774132294241560090522575853847356608441428003938286550010409077204088593917916243645174611305260169826173840786348592155743138"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796405797095680963141528879113821186424067123272961777643450317522390763607402285579698274962"), b |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796405797095680963141528879113821186424067123272961777643450318323792255897583331925178060493"), b |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), b |-> N("6439961877218577280456467809160858725065207988098911282490788914749891618489241940892888055394914025490394929528303011048309399104609180160652786505421283511"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), b |-> N("6439961877218577280456467809160858725065207988098911282490788914749891618489241940892888055394914025490394929528303011048309399104609180160652786505421283511"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("92607702140906525892435604362420166998731674013150874042967972722385676746487"), b |-> N("1055958092048050015205539891617826698115013342228362907653849534573659792182363597653578913067112951575504741780314953889636791635829402177517052832994935868"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796408028165527174908583689655762015322235985672495944271519932959789008192077807068853439305"), b |-> N("88928730879461876425944249040178572334835682337811500947697849743761212522231"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796408947913861001240802624944790908309813826709846760393784079647028313133847269310281943881"), b |-> N("92607702140906525892435604362420166998731674013150874042967972722385676746487"), d |-> N("0"), s |-> N("3"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), b |-> N("2716848815872930418434437774576587465852406648190983331605436741089767097735796078684558118138257720726016449999250205222160886748951189976650965983072986086"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), b |-> N("2716848815872930418434437774576587465852406648190983331605436741089767097735796078684558118138257720726016449999250205222160886748951189976650965983072986086"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), b |-> N("474364807597497181611451009183545708286780838899881391132836952668228098851919650796193725549381046709154378715848585072191333415688257943625001489355677852"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796414733060492570814672398965937976467039674452672612625967737996627140932708131801473594528"), b |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796414733060492570814672452337330048461863647805166191827021416175877950691980830344248931488"), b |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>,
  <<[kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), b |-> N("1459503683739438642054560467254952417963811704585267669978230495399236488626660980677775852588406398898092484114071685487460839898049887427764764051989558967"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), b |-> N("1459503683739438642054560467254952417963811704585267669978230495399236488626660980677775852588406398898092484114071685487460839898049887427764764051989558967"), d |-> N("0"), s |-> N("6"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("111046706366701226828468296446221597978552177264885218988140553621841881861551"), b |-> N("73611885389576550887884392594408200456269362526634705733477788400138833692351795272920177098445139073931897789088817565548607293615191512874808696903309073"), d |-> N("0"), s |-> N("7"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796406070710160982333066134946897623989045929091978209250299108376462672106111003345730695197"), b |-> N("81098956393408958643606583868645307760740604218506987594553375925438078858183"), d |-> N("0"), s |-> N("2"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")],
    [kind |-> "m", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796413557692575997742488192559938002866818116858610153453754206612288175172617366759339452775"), b |-> N("111046706366701226828468296446221597978552177264885218988140553621841881861551"), d |-> N("0"), s |-> N("4"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("1000003")]>>
>>
LookE(t) == <<
  <<[kind |-> "e", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("673"), b |-> N("0"), d |-> N("43"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("4")],
    [kind |-> "e", p |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), a |-> N("673"), b |-> N("0"), d |-> N("43"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("4")],
    [kind |-> "e", p |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), a |-> N("673"), b |-> N("0"), d |-> N("43"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("4")]>>,
  <<[kind |-> "e", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("3301"), b |-> N("0"), d |-> N("34"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("10")],
    [kind |-> "e", p |-> N("80004505040050162709539085131294079441523404510851760928118855284925837782523"), a |-> N("3301"), b |-> N("0"), d |-> N("34"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("10")],
    [kind |-> "e", p |-> N("80004505040050162709539085131294079441523404510851760928122060871661449242759"), a |-> N("3301"), b |-> N("0"), d |-> N("34"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("10")]>>,
  <<[kind |-> "e", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("1297"), b |-> N("0"), d |-> N("10"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("12")],
    [kind |-> "e", p |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), a |-> N("1297"), b |-> N("0"), d |-> N("10"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("12")],
    [kind |-> "e", p |-> N("45359507403705161281243555205812977037469822765563244693346820689643565863531"), a |-> N("1297"), b |-> N("0"), d |-> N("10"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("12")]>>,
  <<[kind |-> "e", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("257"), b |-> N("0"), d |-> N("2"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("16")],
    [kind |-> "e", p |-> N("115748149824290457038794355417869234448218906786117779881209639515151940591219"), a |-> N("257"), b |-> N("0"), d |-> N("2"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("16")],
    [kind |-> "e", p |-> N("115748149824290457039007839705249568103523961927205992070379427589960000740979"), a |-> N("257"), b |-> N("0"), d |-> N("2"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("1"), gy |-> N("16")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414287015734445423392344429968241984419870639704979830991549494472592327134152763"), b |-> N("0"), d |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414287015734445423392344429968241984419870639704979830991549494472592327134152763"), b |-> N("0"), d |-> N("68496273633814507176421411041034137414032606120707765597135332271313588847119"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414298867679354200227537459740107918030902294960846227696365910389114368302092043"), b |-> N("0"), d |-> N("71459259861008715974678854007517540171946420087306941801239311401823880831939"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317461415757648073881122045807471897588003624144420487081455715431669722753345538393497178077249469897171508792734848411"), b |-> N("0"), d |-> N("25647680455430383126545252771525434647402778445144229023019171836411226368830971054170269330077236007000429989021031"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317461415757648073881122045807471897588003624144420487081455715431669722753345538393497178077249469897171508792734848411"), b |-> N("0"), d |-> N("25647680455430383126545252771525434647402778445144229023019171836411226368830971054170269330077236007000429989021031"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317461415757648073881122045807471897588003793499582883528607738219322029162415199118620171346885677277532537019868452251"), b |-> N("0"), d |-> N("25647680455430383126545252771525434647445117235743340811024868749487828636246152334918586739129081097257486772421991"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414440199308381922521293124746417466772609090017482226707859247179243900406714971"), b |-> N("0"), d |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414440199308381922521293124746417466772609090017482226707859247179243900406714971"), b |-> N("0"), d |-> N("106792167117939289413595105584904725598645184246306694674573508934206906987671"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414440199308381922521295518239556596839882600899431667315907742513558447649313371"), b |-> N("0"), d |-> N("106792167117939289414193478869687242417022904733666846686697342512843717637271"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), b |-> N("0"), d |-> N("6435747806372446607795531999138806141190095593884348821307309492986446734435302560204776435645874055340195708298754843976300098622450513164753836154843264154"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("45359507090103041640195921665476966158265992939490864638361862738527691592299"), b |-> N("0"), d |-> N("6435747806372446607795531999138806141190095593884348821307309492986446734435302560204776435645874055340195708298754843976300098622450513164753836154843264154"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("45359507403705161281243555205812977037469822765563244693346820689643565863531"), b |-> N("0"), d |-> N("6435747806372446607795531999138806141190095593884348821307309492986446734435302560204776514046403965602104093382757563777257555140545526910993323933811831962"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("65726176331909673889"), b |-> N("0"), d |-> N("7302908481323297099"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("3")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("65726176331909673889"), b |-> N("0"), d |-> N("7302908481323297099"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("3")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414013030639910165363638744324077847870214509280496999929160984455448072457659691"), b |-> N("0"), d |-> N("7827985249919723851"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("4282354690727951668885930073542053327569"), b |-> N("0"), d |-> N("171294187629118066755437202941682133103"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("5")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("4282354690727951668885930073542053327569"), b |-> N("0"), d |-> N("171294187629118066755437202941682133103"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("5")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("1716199415032652428745475199770348304317358825035826352348615864796385795849414013030639910165363638744324077847870215194561710071351408058226721019130419739"), b |-> N("0"), d |-> N("171320303267855561776270803486587913863"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")]>>,
  <<[kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("281634957934143824384427652298007456059"), b |-> N("0"), d |-> N("6435747806372446607795531999138806141190095593884348821307309492986446734435302548864899663120113645291215291929513304480210603233270309670395064597422230094"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("281634957934143824384427652298007456059"), b |-> N("0"), d |-> N("6435747806372446607795531999138806141190095593884348821307309492986446734435302548864899663120113645291215291929513304480210603233270309670395064597422230094"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("2")],
    [kind |-> "e", p |-> N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"), a |-> N("196773435063715099533397389929078401339"), b |-> N("0"), d |-> N("6328485342932905830998939799153159372170260667319609674285521001436672622194714173050484668734778417869695037064021416015270172378720974735554019201439093395"), s |-> N("0"), r |-> BigR, h |-> One, gx |-> N("2"), gy |-> N("4")]>>
>>
=============================================================================
