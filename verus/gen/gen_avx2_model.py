#!/usr/bin/env python3
"""writes avx2_model.rs.in: trusted contracts of the AVX2 intrinsics, one ground clause per lane/byte"""
import os
o=[]
p=o.append
p('''// [props C03 C04 C06 C14]
// ---- trusted model of the AVX2 intrinsics used: Intel's pseudo code, written out per lane and byte (gen/gen_avx2_model.py) ----
#[derive(Clone, Copy)] struct __m256 { x: [u8; 32] }
#[derive(Clone, Copy)] struct __m256i { x: [u8; 32] }
#[derive(Clone, Copy)] struct __m128i { x: [u8; 16] }
uninterp spec fn b256(v: __m256i, k:int)->Byt;
uninterp spec fn b128(v: __m128i, k:int)->Byt;
impl __m256i { spec fn b(self, k:int)->Byt { b256(self,k) } }
impl __m128i { spec fn b(self, k:int)->Byt { b128(self,k) } }
impl VecSpec for __m256 { uninterp spec fn lane(self, i:int)->real; }
uninterp spec fn mlane256(m: __m256, i:int)->bool;
impl Bytes for __m256i { spec fn sz()->int {32} spec fn byte(self, k:int)->Byt { self.b(k) } }
impl Bytes for __m128i { spec fn sz()->int {16} spec fn byte(self, k:int)->Byt { self.b(k) } }
broadcast proof fn lemma_byte128(v: __m128i, k: int) ensures #[trigger] b128(v,k)==v.byte(k) {}
broadcast proof fn lemma_byte256(v: __m256i, k: int) ensures #[trigger] b256(v,k)==v.byte(k) {}
/// signed value of dword i
uninterp spec fn dw(v: __m256i, i:int)->int;
#[verifier::opaque] spec fn sgn16(u: int)->int { if u >= 32768 { u-65536 } else { u } }
#[verifier::opaque] spec fn word(a: Byt, b: Byt)->int { if a is Lo && b == Byt::Hi(a->Lo_0) && 0 <= a->Lo_0 <= 65535 { a->Lo_0 } else { nb(a) + 256*nb(b) } }
/// signed value of word i
spec fn sw(v: __m256i, i:int)->int { sgn16(word(v.b(2*i), v.b(2*i+1))) }
#[verifier::opaque] spec fn cvt(x: real)->int { let n = rne(x); if -2147483648 <= n <= 2147483647 { n } else { -2147483648 } }
spec fn psv(a: Byt, b: Byt, c: Byt, d: Byt)->real { if a is FB && a->FB_1==0 && b==Byt::FB(a->FB_0,1) && c==Byt::FB(a->FB_0,2) && d==Byt::FB(a->FB_0,3) { a->FB_0 } else { arbitrary() } }
spec fn lo0(i: i32)->int { (i%4) as int } spec fn lo1(i: i32)->int { ((i/4)%4) as int } spec fn lo2(i: i32)->int { ((i/16)%4) as int } spec fn lo3(i: i32)->int { ((i/64)%4) as int }
#[verifier::opaque] spec fn mn(a: real, b: real)->real { if a < b { a } else { b } }
#[verifier::opaque] spec fn su16(x: int)->int { sat(x,0,65535) }
/// two's complement of the saturated value
#[verifier::opaque] spec fn ss16(x: int)->int { let s = sat(x,-32768,32767); if s<0 { s+65536 } else { s } }
#[verifier::opaque] spec fn ss8(x: int)->int { let s = sat(x,-128,127); if s<0 { s+256 } else { s } }
#[verifier::opaque] spec fn cvtt(x: real)->int { let n = if x>=0real { x.floor() } else { -((-x).floor()) }; if -2147483648 <= n <= 2147483647 { n } else { -2147483648 } }
#[verifier::opaque] spec fn su8(x: int)->int { sat(x,0,255) }
broadcast proof fn lemma_lim16(v: real) ensures #[trigger] su16(cvt(mn(65535real,v))) == enc_int(v,65535), 0<=enc_int(v,65535)<=65535
{ reveal(cvt); reveal(mn); reveal(su16); lemma_rne_bound(v,65535); lemma_rne_bound(65535real,65535); }
broadcast proof fn lemma_lim8(v: real) ensures #[trigger] su16(cvt(mn(255real,v))) == enc_int(v,255), 0<=enc_int(v,255)<=255
{ reveal(cvt); reveal(mn); reveal(su16); lemma_rne_bound(v,255); lemma_rne_bound(255real,255); }
broadcast proof fn lemma_lim168(v: real) ensures #[trigger] mn(65535real,mn(255real,v)) == mn(255real,v) { reveal(mn); }
broadcast proof fn lemma_su8(x: int) ensures 0<=x<=255 ==> #[trigger] su8(sgn16(x)) == x { reveal(su8); reveal(sgn16); }
broadcast proof fn lemma_word(x: int) ensures 0<=x<=65535 ==> #[trigger] word(Byt::Lo(x),Byt::Hi(x)) == x { reveal(word); }
broadcast group packing { lemma_i32_carrier, lemma_lim16, lemma_lim8, lemma_lim168, lemma_su8, lemma_word }
const _CMP_LT_OS: i32 = 1;
const _CMP_LE_OS: i32 = 2;
const _CMP_GE_OS: i32 = 13;
const _CMP_GT_OS: i32 = 14;
const _CMP_LT_OQ: i32 = 17;
const _CMP_LE_OQ: i32 = 18;
const _CMP_GE_OQ: i32 = 29;
const _CMP_GT_OQ: i32 = 30;''')
def f(sig, ens, req=None):
    p(f"#[verifier::external_body] fn {sig}"+(f" requires {req}" if req else "")+" ensures "+", ".join(ens)+" { unimplemented!() }")
def L(e): return [f"r.lane({i}) == {e(i)}" for i in range(8)]
def B(e,n=32): return [f"r.b({k}) == {e(k)}" for k in range(n)]
def sel(cond, xs):
    """value number cond of xs"""
    s=""
    for i,x in enumerate(xs[:-1]): s+=f"if {cond}=={i} {{ {x} }} else "
    return "("+s+f"{{ {xs[-1]} }})"
f("_mm256_set1_ps(x: F)->(r: __m256)", L(lambda i:"x@"))
f("_mm256_setzero_ps()->(r: __m256)", L(lambda i:"0real"))
A="(a: __m256, b: __m256)->(r: __m256)"
for n,e in [("add","a.lane({0})+b.lane({0})"),("sub","rsub(a.lane({0}),b.lane({0}))"),("mul","rmul(a.lane({0}),b.lane({0}))"),("div","a.lane({0})/b.lane({0})"),
            ("max","if a.lane({0}) > b.lane({0}) {{ a.lane({0}) }} else {{ b.lane({0}) }}"),("min","mn(a.lane({0}),b.lane({0}))")]:
    f(f"_mm256_{n}_ps{A}", L(lambda i:e.format(i)))
f("_mm256_sqrt_ps(a: __m256)->(r: __m256)", L(lambda i:f"rsqrt(a.lane({i}))"))
for n,ofs in (("lo",0),("hi",2)):
    f(f"_mm256_unpack{n}_ps{A}", L(lambda i:f"{'ab'[i%2]}.lane({4*(i//4)+ofs+i%4//2})"))
f("_mm256_permute2f128_ps(a: __m256, b: __m256, imm: i32)->(r: __m256)",
  L(lambda i: (lambda s: f"(if ({s}/8)%2==1 {{ 0real }} else {{ {sel(s+'%4',[f'a.lane({i%4})',f'a.lane({4+i%4})',f'b.lane({i%4})',f'b.lane({4+i%4})'])} }})")("(imm%16)" if i<4 else "((imm/16)%16)")), "0<=imm<256")
f("_mm256_shuffle_ps(a: __m256, b: __m256, imm: i32)->(r: __m256)",
  L(lambda i: sel(f"lo{i%4}(imm)",[f"{'aabb'[i%4]}.lane({4*(i//4)+j})" for j in range(4)])), "0<=imm<256")
f("_mm256_cmp_ps(a: __m256, b: __m256, imm: i32)->(r: __m256)",
  [f"mlane256(r,{i}) == (if imm%16==1 {{ a.lane({i}) < b.lane({i}) }} else if imm%16==2 {{ a.lane({i}) <= b.lane({i}) }} else if imm%16==13 {{ a.lane({i}) >= b.lane({i}) }} else {{ a.lane({i}) > b.lane({i}) }})" for i in range(8)],
  "imm%16==1 || imm%16==2 || imm%16==13 || imm%16==14")
f("_mm256_blendv_ps(a: __m256, b: __m256, m: __m256)->(r: __m256)", L(lambda i:f"if mlane256(m,{i}) {{ b.lane({i}) }} else {{ a.lane({i}) }}"))
f("_mm256_permutevar8x32_ps(a: __m256, idx: __m256i)->(r: __m256)", L(lambda i: sel(f"dw(idx,{i})%8",[f"a.lane({j})" for j in range(8)])))
f("_mm256_castps_si256(a: __m256)->(r: __m256i)", B(lambda k:f"Byt::FB(a.lane({k//4}), {k%4})"))
f("_mm256_castsi256_ps(a: __m256i)->(r: __m256)", L(lambda i:f"psv(a.b({4*i}),a.b({4*i+1}),a.b({4*i+2}),a.b({4*i+3}))"))
f("_mm256_permute4x64_epi64(a: __m256i, imm: i32)->(r: __m256i)", B(lambda k: sel(f"lo{k//8}(imm)",[f"a.b({8*j+k%8})" for j in range(4)])), "0<=imm<256")
f("_mm_set1_epi64x(x: i64)->(r: __m128i)", [f"nb(r.b({k})) == nb(x.byte({k%8}))" for k in range(16)])
f("_mm_set_epi64x(h: i64, l: i64)->(r: __m128i)", [f"nb(r.b({k})) == nb({'lh'[k//8]}.byte({k%8}))" for k in range(16)])
D=lambda e:[f"dw(r,{i}) == {e(i)}" for i in range(8)]
f("_mm256_cvtepu8_epi32(a: __m128i)->(r: __m256i)", D(lambda i:f"nb(a.b({i})) as int"))
f("_mm256_cvtepu16_epi32(a: __m128i)->(r: __m256i)", D(lambda i:f"nb(a.b({2*i}))+256*nb(a.b({2*i+1}))"))
f("_mm256_cvtepi32_ps(a: __m256i)->(r: __m256)", L(lambda i:f"dw(a,{i}) as real"))
f("_mm256_cvtps_epi32(a: __m256)->(r: __m256i)", D(lambda i:f"cvt(a.lane({i}))"))
f("_mm256_setr_epi32("+",".join(f"e{i}: i32" for i in range(8))+")->(r: __m256i)", D(lambda i:f"e{i}"))
f("_mm256_set_epi32("+",".join(f"e{7-i}: i32" for i in range(8))+")->(r: __m256i)", D(lambda i:f"e{i}"))
f("_mm256_setr_epi8("+",".join(f"e{i}: i8" for i in range(32))+")->(r: __m256i)", B(lambda k:f"Byt::B((e{k}+256)%256)"))
f("_mm256_packus_epi32(a: __m256i, b: __m256i)->(r: __m256i)", B(lambda k:f"Byt::{['Lo','Hi'][k%2]}(su16(dw({'ab'[k%16//8]},{4*(k//16)+k%8//2})))"))
f("_mm256_cvttps_epi32(a: __m256)->(r: __m256i)", D(lambda i:f"cvtt(a.lane({i}))"))
f("_mm256_packs_epi32(a: __m256i, b: __m256i)->(r: __m256i)", B(lambda k:f"Byt::{['Lo','Hi'][k%2]}(ss16(dw({'ab'[k%16//8]},{4*(k//16)+k%8//2})))"))
f("_mm256_packs_epi16(a: __m256i, b: __m256i)->(r: __m256i)", B(lambda k:f"Byt::B(ss8(sw({'ab'[k%16//8]},{8*(k//16)+k%8})))"))
f("_mm256_permute2x128_si256(a: __m256i, b: __m256i, imm: i32)->(r: __m256i) requires 0<=imm<256", B(lambda k:(lambda c,q: f"(if ({c}/8)%2==1 {{ Byt::B(0) }} else if {c}%4==0 {{ a.b({q}) }} else if {c}%4==1 {{ a.b({16+q}) }} else if {c}%4==2 {{ b.b({q}) }} else {{ b.b({16+q}) }})")(["(imm%16)","((imm/16)%16)"][k//16],k%16)))
f("_mm256_setzero_si256()->(r: __m256i)", B(lambda k:"Byt::B(0)"))
f("_mm256_floor_ps(a: __m256)->(r: __m256)", L(lambda i:f"a.lane({i}).floor() as real"))
f("_mm256_ceil_ps(a: __m256)->(r: __m256)", L(lambda i:f"-((-a.lane({i})).floor() as real)"))
f("_mm256_packus_epi16(a: __m256i, b: __m256i)->(r: __m256i)", B(lambda k:f"Byt::B(su8(sw({'ab'[k%16//8]},{8*(k//16)+k%8})))"))
for n,w,ofs in (("lo",1,0),("hi",1,8),("lo",2,0),("hi",2,4),("lo",4,0),("hi",4,2)):
    f(f"_mm256_unpack{n}_epi{8*w}(a: __m256i, b: __m256i)->(r: __m256i)", B(lambda k:f"{'ab'[(k%16//w)%2]}.b({w*((16//w)*(k//16)+ofs+(k%16)//(2*w))+k%w})"))
f("_mm256_permutevar8x32_epi32(a: __m256i, idx: __m256i)->(r: __m256i)", B(lambda k: sel(f"dw(idx,{k//4})%8",[f"a.b({4*j+k%4})" for j in range(8)])))
f("_mm256_shuffle_epi8(a: __m256i, idx: __m256i)->(r: __m256i)", B(lambda k: f"(if nb(idx.b({k})) >= 128 {{ Byt::B(0) }} else {{ {sel(f'(nb(idx.b({k})) as int)%16',[f'a.b({16*(k//16)+j})' for j in range(16)])} }})"))
f("_mm256_castsi256_si128(a: __m256i)->(r: __m128i)", B(lambda k:f"a.b({k})",16))
f("_mm256_extract_epi32(a: __m256i, n: i32)->(r: i32)", [f"nb(r.byte({k})) == nb({sel('n',[f'a.b({4*j+k})' for j in range(8)])})" for k in range(4)], "0<=n<8")
f("_mm256_extract_epi64(a: __m256i, n: i32)->(r: i64)", [f"nb(r.byte({k})) == nb({sel('n',[f'a.b({8*j+k})' for j in range(4)])})" for k in range(8)], "0<=n<4")
f("ps_to_arr(a: __m256)->(r: [F; 8])", [f"r@[{i}]@ == a.lane({i})" for i in range(8)])
f("arr_to_ps(a: [F; 8])->(r: __m256)", L(lambda i:f"a@[{i}]@"))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../avx2_model.rs.in"),"w").write("\n".join(o)+"\n")
