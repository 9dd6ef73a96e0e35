#!/usr/bin/env python3
"""writes avx2.rs.in: contracts and proof hints of `impl Vector for __m256` (ground facts per lane/byte)"""
o=[]
p=o.append
p('''//@subst transmute :: < __m256 , [ F ; 8 ] > => ps_to_arr
//@subst transmute :: < [ F ; 8 ] , __m256 > => arr_to_ps''')
# lemmas
p("// [props C01 C02 C03 C04 C18]")
def conj(xs): return ", ".join(xs)
p("proof fn lemma_lanes8<V:VecSpec>(r: V, t: Seq<real>) requires t.len()==8, "+conj(f"r.lane({i})==t[{i}]" for i in range(8))+" ensures forall|i:int| 0<=i<8 ==> #[trigger] r.lane(i)==t[i]\n{ assert forall|i:int| 0<=i<8 implies #[trigger] r.lane(i)==t[i] by { "+" else ".join(f"if i=={i} {{}}" for i in range(8))+" } }")
for n in (8,16,32,48,64):
    p(f"proof fn lemma_bs{n}<T:Bytes>(v: T, t: Seq<u8>) requires T::sz()=={n}, t.len()=={n}, "+conj(f"nb(v.byte({i}))==t[{i}]" for i in range(n))+f" ensures bseq(v)==t\n{{ assert forall|k:int| 0<=k<{n} implies #[trigger] bseq(v)[k]==t[k] by {{ "+" else ".join(f"if k=={i} {{}}" for i in range(n))+" } assert(bseq(v) =~= t); }")
def bl(name, args, n, tgt, f):
    p(f"proof fn lemma_{name}({args}) ensures {tgt}.len()=={n}, "+conj(f"{tgt}[{k}]=={f(k)}" for k in range(n))+"\n{ reveal(dk); reveal(mk); }")
M="__m256"
p("//@if S=1")
bl("b1",f"v:{M}",8,"bytes1(8,v)",lambda k:f"enc(v.lane({k}),0)")
bl("b2",f"a:{M},b:{M}",16,"bytes2(8,a,b)",lambda k:f"enc({'ab'[k//8]}.lane({k%8}),0)")
for c in (3,4):
    bl(f"b{c}i",f"v:[[{M};{c}];2]",16*c,f"bytes{c}i(8,v)",lambda k:f"enc(v@[{k//c//8}]@[{k%c}].lane({k//c%8}),0)")
p("//@else")
bl("b1",f"v:{M}",16,"bytes1(8,v)",lambda k:f"enc(v.lane({k//2}),{k%2})")
bl("b2",f"a:{M},b:{M}",32,"bytes2(8,a,b)",lambda k:f"enc({'ab'[k//16]}.lane({k%16//2}),{k%2})")
p("//@endif")
p('''impl Vector for __m256 {
  const LEN: usize = 8;
  type Mask = __m256;
  spec fn mlane(m: __m256, i:int)->bool { mlane256(m,i) }
  proof fn len_ok() {}
// [props C03 C04 C06 C14]''')
def fn(name, params, pre="", post="", attr=""):
    p(f"//@fn vector/avx2.rs # impl Vector for __m256 # fn {name}")
    p(f"//@ params {params}")
    if attr: p("//@ attr "+attr)
    if pre: p("//@ pre\n"+pre)
    if post: p("//@ post\n"+post)
    p("//@end")
for n,pr in [("splat","v"),("vadd","self other"),("vsub","self other"),("vmul","self other"),("vdiv","self other"),("vmax","self other"),("lt","self other"),("le","self other"),("select","a b mask"),("vsqrt","self")]:
    fn(n,pr)
for n in ("vpow","vln"):
    p(f"//@fn vector/avx2.rs # impl Vector for __m256 # fn {n}\n//@ external\n//@end")
def lanes(r, ts): return f"    proof {{ lemma_lanes8({r}, seq![{conj(ts)}]); }}\n"
z=lambda k: f"{['self','other'][k%2]}.lane({k//2})"
fn("zip","self other",post=lanes("__r.0",[z(k) for k in range(8)])+lanes("__r.1",[z(k+8) for k in range(8)]))
u=lambda k: f"self.lane({k})" if k<8 else f"other.lane({k-8})"
fn("unzip","self other",post=lanes("__r.0",[u(2*k) for k in range(8)])+lanes("__r.1",[u(2*k+1) for k in range(8)]))
p("// [props C01 C02 C03 C04 C18]")
p("//@if S=1")
fn("load_u8","ptr","    broadcast use lemma_byte128;",lanes("__r",[f"val(ptr@,{k})" for k in range(8)]))
p("//@else")
fn("load_u16","ptr","    broadcast use lemma_byte128;",lanes("__r",[f"val(ptr@,{2*k})" for k in range(8)]))
p("//@endif")
def st(name, params, call, tgt, tys):
    pre="    broadcast use packing;\n    proof {\n"+f"      lemma_{call};\n"
    body=[]
    for cond,ty,n in tys:
        sub=n//2 if ty.startswith("[[u8") or ty.startswith("[__") else 0
        h=" && ".join((f"nb(v@[{k//sub}].byte({k%sub}))" if sub else f"nb(v.byte({k}))")+f"=={tgt}[{k}]" for k in range(n))
        el=ty[1:].rsplit(";",1)[0]
        hint=(f"assert(<{el} as Bytes>::sz()=={sub}); "+"".join(f"assert(v.byte({k})==v@[{k//sub}].byte({k%sub})); " for k in range(n))) if sub else ""
        s=f"      assert forall|v: {ty}| {h} implies #[trigger] bseq(v) == {tgt} by {{ {hint}lemma_bs{n}(v, {tgt}); }}\n"
        body.append((cond,s))
    pre+="".join((f"//@if S={c}\n{s}//@endif\n" if c else s) for c,s in body)+"    }"
    fn(name,params,pre,"","#[verifier::rlimit(60)]")
st("write_%PT%","self ptr","b1(self)","bytes1(8,self)",[(1,"[u8;8]",8),(2,"[u16;8]",16)])
st("write_%PT%_2x","v0 v1 ptr","b2(v0,v1)","bytes2(8,v0,v1)",[(1,"[u8;16]",16),(2,"[u16;16]",32)])
p("//@if S=1")
for c in (3,4):
    fn(f"load_u8_{c}x_interleaved_2x","ptr","","".join(lanes(f"__r@[{h}]@[{i}]",[f"val(ptr@,{(h*8+k)*c+i})" for k in range(8)]) for h in range(2) for i in range(c)))
st("write_interleaved_3x_2x_u8","this ptr","b3i(this)","bytes3i(8,this)",[(None,"[[u8;24];2]",48)])
st("write_interleaved_4x_2x_u8","this ptr","b4i(this)","bytes4i(8,this)",[(None,"[__m256i;2]",64)])
p("//@endif\n}")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../avx2.rs.in"),"w").write("\n".join(o)+"\n")
