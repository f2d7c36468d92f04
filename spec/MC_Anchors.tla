------------------------------ MODULE MC_Anchors ----------------------------
(***************************************************************************)
(* The full-size model against values computed by others (C09-C12, C14,    *)
(* C17-C23): public keys made by openssl (also X25519), RFC 8032 and RFC 7748 key pairs, *)
(* RFC 9380 hash-to-curve outputs (u from expand_message_xmd of the empty  *)
(* message), and the group data of the named curves.                       *)
(***************************************************************************)
EXTENDS Instances
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC
VARIABLE n
Claim(name, b) == Assert(b, <<"wrong", name>>)

Keys == <<
  <<"P256", N("79534627609989693873273132098082243699834589797820980714260489089951381039404"), N("40643399801325635536534423705784408754932232034324334697857248432613747522237"), N("12856166113062208801074843142000868510424456775057458127757494625501478380857")>>,
  <<"P384", N("2009951083523174012589802080484177685294320762188928442382729945368269537864948751057408261802291075300116038951260"), N("30261696390936932713129363795231251062098833305005790409336628675219524370788840310645007221060951421593630579776507"), N("29097236789128124973000437876673217817361454433450348879074073032015121404496587945035262360933360307826408611909808")>>,
  <<"P521", N("5005721001204325061528165745845850490597271017272245286576580088875331659702349783709985545711281071929553457578627565438161369043284293570177037870119365452"), N("4341909418071867647433412807679987115729462932321256491589285836417358253885756053879230235659561868074981942390789910771413307690631417345302348881337320873"), N("283301342780950459944482043164655673319607095458222516133025592491397513927912975153416751884330527246450217256346801951533662502755369707446033380254256623")>>,
  <<"SECP256K1", N("66272991158880381322663706672249945598506293979039649152539511421452090146088"), N("56984542512141815642593446949042640039706958109204371405895635065883981226711"), N("61349503964881784732054188610299724433267586739261616021991042803948664966684")>> >>
KeyPair(t) == LET c == Named(t[1]) IN Mul(c, t[2], Gen(c)) = Aff(t[3], t[4])

Hashed(c, q0, q1, R) == Mul(c, c.h, Add(c, q0, q1)) = R
P256Vector == LET c == Named("P256") f(u) == Sswu(c, N(0 - 10), u) IN
  Hashed(c, f(N("78397231975818298121002851560982570386422970797899025056634496834376049971209")), f(N("63350503467990645741152390718511296452551165224812381424345334365447080831578")), Aff(N("19939110987797896384999358838712942378328709725372625404958758733340714980324"), N("62635533156651938055399572357915645529892752307205894735512613587016694531093")))
SecpVector == LET c == Named("SECP256K1") i == NamedIso("secp256k1") f(u) == IsoPush(i.dom.p, i, Sswu(i.dom, FRed(c.p, N(0 - 11)), u)) IN
  Hashed(c, f(N("48425033926223359121679389614872723077618800904285921194876400224709273202611")), f(N("12167848335783414593676283150685032967386306507588197298765617775094854098454")), Aff(N("87654846584422849836571930156466438379984710599888121545025567473301233275718"), N("45673711333516174500892987253036094404176536844955599116957274814081860440167")))
\* the suite clears the cofactor by multiplying with 1 - z, z = -0xd201000000010000
BlsVector == LET c == Named("BLS12381G1") i == NamedIso("bls12381g1") f(u) == IsoPush(i.dom.p, i, Sswu(i.dom, N(11), u)) IN
  Mul(c, N("15132376222941642753"), Add(c, f(N("1790030616568561980207134218344899338736900885118493183248255875682123737756800213955590674957414534085508415116879")), f(N("247470258331762152370823329280394074170045058453263356372873997375166908584899100434893060702108665825589810322121")))) = Aff(N("794311575721400831362957049303781044852006323422624111893352859557450008308620925451441746926395141598720928151969"), N("1343412193624222137939591894701031123123641958980729764240763391191550653712890272928110356903136085217047453540965"))
C25519Vector == LET c == Named("CURVE25519") f(u) == Ell2(c, N(2), u) IN
  Hashed(c, f(N("169456198099833221064084444905468731279105130379095918422278533570636307050")), f(N("8721031121874151690030808017548426494027279283631764909251781665258751534618")), Aff(N("20755980968848905962648296223990034442845239978893603531157795489810611935424"), N("26852118219728031323091995148190119438110435709034478870970585906135281625208")))

Ed25519Key == LET c == Named("EDWARDS25519") IN Encode(c, Mul(c, N("36144925721603087658594284515452164870581325872720374094707712194495455132720"), Gen(c)), TRUE) = <<215, 90, 152, 1, 130, 177, 10, 183, 213, 75, 254, 211, 201, 100, 7, 58, 14, 225, 114, 243, 218, 166, 35, 37, 175, 2, 26, 104, 247, 7, 81, 26>>
Ed448Key == LET c == Named("EDWARDS448") IN Encode(c, Mul(c, N("521658399617511624509929819094270498323007786671637499019582168374758478770958028340603419308639592898868374490003595203618871291427304"), Gen(c)), TRUE) = <<95, 215, 68, 155, 89, 180, 97, 253, 44, 231, 135, 236, 97, 106, 212, 106, 29, 161, 52, 36, 133, 167, 14, 31, 138, 14, 167, 93, 128, 233, 103, 120, 237, 241, 36, 118, 155, 70, 199, 6, 27, 214, 120, 61, 241, 229, 15, 108, 209, 250, 26, 190, 175, 232, 37, 97, 128>>
X25519Key == LET c == Named("CURVE25519") IN Mul(c, N("48024180843069071654179562451231697551677289992710353646312352414121801353072"), Gen(c)).x = N("42068487821091844196064480253332250671475945379589676466529286495602511948280")
X448Key == LET c == Named("CURVE448") IN Mul(c, N("668486185714762112935415271961648902204918399029151093937652627427598491321539207125986169266322753443841671476782430707663525913399192"), Gen(c)).x = N("454626513640993559941021010596084472118247741351450230031994781022687603710815389554484004271748473285849670601343776869048126696523931")

\* group data: a prime order that kills the generator, and an order within
\* Hasse's bound, which with r > 4 sqrt(p) is the only multiple of r there
GroupData(c) ==
  /\ IsPrime(c.p) /\ IsPrime(c.r) /\ Nonsingular(c)
  /\ OnCurve(c, Gen(c)) /\ Gen(c) # Id(c) /\ Mul(c, c.r, Gen(c)) = Id(c)
  \* BLS12-381 G1 states the effective cofactor 1 - z of its suite instead
  /\ LET h == IF c.b = N(4) THEN N("76329603384216526031706109802092473003") ELSE c.h
         t == Minus(Times(c.r, h), Plus(c.p, One)) IN Leq(Times(t, t), Times(N(4), c.p))
  /\ (c.kind = "e" => FIsSquare(c.p, c.a) /\ ~FIsSquare(c.p, c.d))

\* the curve each isogeny and rational map starts and ends at; generators correspond
Correspond ==
  /\ RatPush("25519", Gen(RatDom("25519"))) = Gen(RatCod("25519"))
  /\ RatPull("25519", Gen(RatCod("25519"))) = Gen(RatDom("25519"))
  /\ RatPush("448", Gen(RatDom("448"))) = Gen(RatCod("448"))
  /\ FSqr(RatCod("25519").p, K25519) = FNeg(RatCod("25519").p, N(486664))
  /\ \A name \in {"secp256k1", "bls12381g1"} : LET i == NamedIso(name) IN
       OnCurve(i.cod, IsoPush(i.dom.p, i, Gen(i.dom))) /\ SswuOk(i.dom, FRed(i.dom.p, IF name = "secp256k1" THEN N(0 - 11) ELSE N(11)))

Names == <<"keys", "p256", "secp256k1", "bls12381g1", "curve25519", "ed25519", "ed448", "x25519", "x448", "correspond">> \o CurveNames
Holds(i) ==
  CASE i = 1 -> \A j \in 1 .. Len(Keys) : KeyPair(Keys[j])
    [] i = 2 -> P256Vector [] i = 3 -> SecpVector [] i = 4 -> BlsVector [] i = 5 -> C25519Vector
    [] i = 6 -> Ed25519Key [] i = 7 -> Ed448Key [] i = 8 -> X25519Key [] i = 9 -> X448Key [] i = 10 -> Correspond
    [] OTHER -> GroupData(Named(CurveNames[i - 10]))
Init == n \in 1 .. Len(Names)
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
Anchored == Holds(n)
=============================================================================
