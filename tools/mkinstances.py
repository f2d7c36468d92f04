#!/usr/bin/env python3
"""Writes spec/Instances.tla, the table of standard constants, from sources independent of the code:
openssl's explicit parameters, the defining formulas of RFC 7748 / RFC 8032 / the BLS12-381 parameter,
and (for the two isogenous curves and the isogenies of RFC 9380, appendix E) tools/rfc9380_iso.json,
which is validated by MC_Anchors (RFC 9380 test vectors) and by the group-homomorphism checks."""
import json, re, subprocess
def ossl(n):
    t = subprocess.run(["openssl","ecparam","-name",n,"-param_enc","explicit","-text","-noout"],capture_output=True,text=True).stdout
    def f(lbl):
        m = re.search(lbl+r"\s*:?\s*\n((?:    [0-9a-f:]+\n)+)", t)
        if m: return int(re.sub(r"[^0-9a-f]","",m.group(1)),16)
        return int(re.search(lbl+r":\s*(\d+)",t).group(1))
    g = f(r"Generator \(uncompressed\)"); p=f("Prime"); n=(p.bit_length()+7)//8
    gx=(g>>(8*n))&((1<<(8*n))-1); gy=g&((1<<(8*n))-1)
    return dict(kind="w",p=p,a=f("A"),b=f("B"),r=f("Order"),h=f("Cofactor"),gx=gx,gy=gy)
def sqrt(a,p):
    for y in (pow(a,(p+1)//4,p), pow(a,(p+3)//8,p), pow(a,(p+3)//8,p)*pow(2,(p-1)//4,p)%p):
        if y*y%p==a%p: return y
    raise ValueError
C={}
C["P256"]=ossl("prime256v1"); C["P384"]=ossl("secp384r1"); C["P521"]=ossl("secp521r1"); C["SECP256K1"]=ossl("secp256k1")
p=2**255-19; r=2**252+27742317777372353535851937790883648493
v=14781619447589544791020593568409986887264606134616475288964881837755586237401   # RFC 7748: sign variant, replaced below
gv=sqrt((9**3+486662*81+9)%p,p)
# RFC 7748 errata: V(P) is the root that corresponds to the edwards25519 generator (x even)
d=(-121665*pow(121666,-1,p))%p; gy=4*pow(5,-1,p)%p
gx=sqrt((gy*gy-1)*pow(d*gy*gy+1,-1,p)%p,p); gx=gx if gx%2==0 else p-gx
k=sqrt(-486664%p,p); k=k if k%2==0 else p-k          # RFC 7748: sqrt(-486664), the non-negative root
cand=k*9*pow(gx,-1,p)%p
C["CURVE25519"]=dict(kind="m",p=p,a=486662,b=1,s=1,r=r,h=8,gx=9,gy=cand)
C["EDWARDS25519"]=dict(kind="e",p=p,a=p-1,d=d,r=r,h=8,gx=gx,gy=gy)
p=2**448-2**224-1; r=2**446-13818066809895115352007386748515426880336692474882178609894547503885
d=(-39081)%p
# RFC 7748: base points of curve448 / edwards448 (Goldilocks)
m5=355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362
C["CURVE448"]=dict(kind="m",p=p,a=156326,b=1,s=3,r=r,h=4,gx=5,gy=m5)
gx=224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
gy=298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
C["EDWARDS448"]=dict(kind="e",p=p,a=1,d=d,r=r,h=4,gx=gx,gy=gy)
x=-0xd201000000010000
r=x**4-x**2+1; p=(x-1)**2*r//3+x
C["BLS12381G1"]=dict(kind="w",p=p,a=0,b=4,r=r,h=1-x,gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
  gy=0x8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1)
iso=json.load(open("/verif/tools/rfc9380_iso.json"))
for n in ("SECP256K1_3ISO","BLS12381G1_11ISO"): C[n]={k:(v if k=="kind" else int(v)) for k,v in iso[n].items()}
C["BLS12381G1_11ISO"]["h"]=(x-1)**2//3
out=["""------------------------------ MODULE Instances -----------------------------
(***************************************************************************)
(* Published constants of the named curves and maps.  Generated by         *)
(* tools/mkinstances.py from openssl, RFC 7748, RFC 8032, RFC 9380.        *)
(***************************************************************************)
EXTENDS Morphisms

CurveNames == <<%s>>
""" % ", ".join('"%s"'%n for n in C)]
out.append("Named(name) ==\n  CASE " + "\n    [] ".join(
 'name = "%s" ->\n         [kind |-> "%s",\n          %s]'%(n,c["kind"],",\n          ".join('%s |-> N("%d")'%(k,(c[k]%c["p"]) if k in "abds" and k in c else c.get(k,0)) for k in ("p","a","b","d","s","r","h","gx","gy")))
 for n,c in C.items()))
out.append('''
\\* the constant of the 25519 birational map
K25519 == N("%d")

\\* rational maps: name -> [dom, cod]
RatDom(name) == Named(IF name = "25519" THEN "EDWARDS25519" ELSE "EDWARDS448")
RatCod(name) == Named(IF name = "25519" THEN "CURVE25519" ELSE "CURVE448")
RatPush(name, P) == IF name = "25519" THEN Push25519(RatDom(name).p, K25519, P) ELSE Push448(RatDom(name).p, P)
RatPull(name, P) == IF name = "25519" THEN Pull25519(RatDom(name).p, K25519, P) ELSE Pull448(RatDom(name).p, P)
''' % k)
for nm,dom,cod in (("secp256k1","SECP256K1_3ISO","SECP256K1"),("bls12381g1","BLS12381G1_11ISO","BLS12381G1")):
    t=iso[nm]
    out.append("Iso_%s ==\n  [dom |-> Named(\"%s\"), cod |-> Named(\"%s\"),\n   %s]\n"%(nm,dom,cod,",\n   ".join(
      "%s |-> <<%s>>"%(f,",\n     ".join('N("%s")'%c for c in t[f])) for f in ("xn","xd","yn","yd"))))
out.append('NamedIso(name) == IF name = "secp256k1" THEN Iso_secp256k1 ELSE Iso_bls12381g1')
out.append("="*77)
open("/verif/spec/Instances.tla","w").write("\n".join(out)+"\n")
if __name__=="__main__":
    src=open("/repo/src/instances/weier.rs").read()+open("/repo/src/instances/mont.rs").read()+open("/repo/src/instances/edw.rs").read()
    names={"P256":"P256","P384":"P384","P521":"P521","SECP256K1":"secp256k1","SECP256K1_3ISO":"secp256k1_3iso","BLS12381G1":"bls12381_g1","BLS12381G1_11ISO":"bls12381_g1_11iso","CURVE25519":"curve25519","CURVE448":"curve448","EDWARDS25519":"edwards25519","EDWARDS448":"edwards448"}
    for n,c in C.items():
        m=re.search(r'name: "%s",(.*?)\};'%names[n],src,re.S).group(1)
        for k,v in re.findall(r'(\w+):\s*"([^"]*)"',m):
            v=int(v,0) if v.startswith("0x") else int(v)
            if k in ("a","b","d","s"): v%=c["p"]
            if v!=c[k]: print("differs from the code:",n,k,v,c[k])
