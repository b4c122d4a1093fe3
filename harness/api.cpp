// C wrappers around the public API of bls12-381: the same wrappers are executed symbolically (LLVM IR)
// and natively (replay).  Pointers refer to objects of the C++ types; everything is passed by pointer.
#include <bls12-381/bls12-381.hpp>
#include "sha256.hpp"
#include <new>
#include <string>
using namespace bls12_381;
using namespace std;
typedef uint64_t u64; typedef uint8_t u8;
#define X extern "C" __attribute__((noinline, used))

// ---- field-like types
#define FIELD_COMMON(T) \
 X void h_##T##_add(T* o, const T* a, const T* b){ *o = a->add(*b); } \
 X void h_##T##_addAssign(T* a, const T* b){ a->addAssign(*b); } \
 X void h_##T##_dbl(T* o, const T* a){ *o = a->dbl(); } \
 X void h_##T##_doubleAssign(T* a){ a->doubleAssign(); } \
 X void h_##T##_subtract(T* o, const T* a, const T* b){ *o = a->subtract(*b); } \
 X void h_##T##_subtractAssign(T* a, const T* b){ a->subtractAssign(*b); } \
 X void h_##T##_negate(T* o, const T* a){ *o = a->negate(); } \
 X u64 h_##T##_isZero(const T* a){ return a->isZero(); } \
 X u64 h_##T##_equal(const T* a, const T* b){ return a->equal(*b); } \
 X void h_##T##_zero(T* o){ *o = T::zero(); } \
 X void h_##T##_one(T* o){ *o = T::one(); } \
 X void h_##T##_ctor(T* o){ *o = T(); } \
 X void h_##T##_copy(T* o, const T* a){ T t(*a); *o = t; }
#define FIELD(T) FIELD_COMMON(T) \
 X void h_##T##_multiply(T* o, const T* a, const T* b){ *o = a->multiply(*b); } \
 X void h_##T##_multiplyAssign(T* a, const T* b){ a->multiplyAssign(*b); } \
 X void h_##T##_square(T* o, const T* a){ *o = a->square(); } \
 X void h_##T##_squareAssign(T* a){ a->squareAssign(); } \
 X void h_##T##_inverse(T* o, const T* a){ *o = a->inverse(); } \
 X u64 h_##T##_isOne(const T* a){ return a->isOne(); } \
 X void h_##T##_exp1(T* o, const T* a, const array<u64,1>* s){ *o = a->exp(*s); } \
 X void h_##T##_exp2(T* o, const T* a, const array<u64,2>* s){ *o = a->exp(*s); } \
 X void h_##T##_exp4(T* o, const T* a, const array<u64,4>* s){ *o = a->exp(*s); } \
 X void h_##T##_exp6(T* o, const T* a, const array<u64,6>* s){ *o = a->exp(*s); }
FIELD(fp) FIELD(fp2) FIELD(fp6) FIELD(fp12)
FIELD_COMMON(g1) FIELD_COMMON(g2)

#define BYTES(T,N) \
 X u64 h_##T##_fromBytesBE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromBytesBE(span<const u8,N>(in,N), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o = *r; return 1; } \
 X u64 h_##T##_fromBytesLE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromBytesLE(span<const u8,N>(in,N), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o = *r; return 1; } \
 X u64 h_##T##_fromBytesBE_d(T* o, const u8* in){ auto r = T::fromBytesBE(span<const u8,N>(in,N)); if(!r) return 0; *o = *r; return 1; } \
 X u64 h_##T##_fromBytesLE_d(T* o, const u8* in){ auto r = T::fromBytesLE(span<const u8,N>(in,N)); if(!r) return 0; *o = *r; return 1; } \
 X void h_##T##_toBytesBE(u8* o, const T* a, u64 fm){ a->toBytesBE(span<u8,N>(o,N), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toBytesLE(u8* o, const T* a, u64 fm){ a->toBytesLE(span<u8,N>(o,N), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toBytesBE_a(u8* o, const T* a, u64 fm){ auto r = a->toBytesBE(fm ? from_mont::yes : from_mont::no); memcpy(o, r.data(), N); } \
 X void h_##T##_toBytesLE_a(u8* o, const T* a, u64 fm){ auto r = a->toBytesLE(fm ? from_mont::yes : from_mont::no); memcpy(o, r.data(), N); }
BYTES(fp,48) BYTES(fp2,96) BYTES(fp6,288) BYTES(fp12,576)

// ---- fp
X u64 h_fp_isValid(const fp* a){ return a->isValid(); }
X u64 h_fp_isOdd(const fp* a){ return a->isOdd(); }
X u64 h_fp_isEven(const fp* a){ return a->isEven(); }
X u64 h_fp_sign(const fp* a){ return a->sign(); }
X u64 h_fp2_sign(const fp2* a){ return a->sign(); }
X u64 h_fp_cmp(const fp* a, const fp* b){ auto r = a->cmp(*b); return r < 0 ? (u64)-1 : r > 0 ? 1 : 0; }
X void h_fp_div2(fp* a, u64 e){ a->div2(e); }
X u64 h_fp_mul2(fp* a){ return a->mul2(); }
X void h_fp_toMont(fp* o, const fp* a){ *o = a->toMont(); }
X void h_fp_fromMont(fp* o, const fp* a){ *o = a->fromMont(); }
X void h_fp_phi(fp* o, const fp* a){ *o = a->phi(); }
X u64 h_fp_sqrt(fp* o, const fp* a){ return a->sqrt(*o); }
X u64 h_fp2_sqrt(fp2* o, const fp2* a){ return a->sqrt(*o); }
X u64 h_fp_isQNR(const fp* a){ return a->isQuadraticNonResidue(); }
X u64 h_fp2_isQNR(const fp2* a){ return a->isQuadraticNonResidue(); }
X u64 h_fp_isLex(const fp* a){ return a->isLexicographicallyLargest(); }
X u64 h_fp2_isLex(const fp2* a){ return a->isLexicographicallyLargest(); }
X void h_fp_modPrime6(fp* o, const array<u64,6>* k){ *o = fp::modPrime(*k); }
X void h_fp_modPrime8(fp* o, const array<u64,8>* k){ *o = fp::modPrime(*k); }
// ---- fp2 / fp6 / fp12 extras
X void h_fp2_conjugate(fp2* o, const fp2* a){ *o = a->conjugate(); }
X void h_fp2_mulByNonResidue(fp2* o, const fp2* a){ *o = a->mulByNonResidue(); }
X void h_fp2_mulByB(fp2* o, const fp2* a){ *o = a->mulByB(); }
X void h_fp2_mulByFq(fp2* o, const fp2* a, const fp* e){ *o = a->mulByFq(*e); }
X void h_fp6_mulBy01(fp6* o, const fp6* a, const fp2* e0, const fp2* e1){ *o = a->mulBy01(*e0,*e1); }
X void h_fp6_mulBy01Assign(fp6* a, const fp2* e0, const fp2* e1){ a->mulBy01Assign(*e0,*e1); }
X void h_fp6_mulBy1(fp6* o, const fp6* a, const fp2* e1){ *o = a->mulBy1(*e1); }
X void h_fp6_mulByNonResidue(fp6* o, const fp6* a){ *o = a->mulByNonResidue(); }
X void h_fp6_mulByBaseField(fp6* o, const fp6* a, const fp2* e){ *o = a->mulByBaseField(*e); }
X void h_fp12_conjugate(fp12* o, const fp12* a){ *o = a->conjugate(); }
X void h_fp12_mulBy014Assign(fp12* a, const fp2* e0, const fp2* e1, const fp2* e4){ a->mulBy014Assign(*e0,*e1,*e4); }
X void h_fp12_fp4Square(fp2* o, const fp2* e0, const fp2* e1){ auto t = fp12::fp4Square(*e0,*e1); o[0]=get<0>(t); o[1]=get<1>(t); }
X void h_fp12_cyclotomicSquare(fp12* o, const fp12* a){ *o = a->cyclotomicSquare(); }
X void h_fp12_cyclotomicSquareAssign(fp12* a){ a->cyclotomicSquareAssign(); }
X void h_fp12_cyclotomicExp1(fp12* o, const fp12* a, const array<u64,1>* s){ *o = a->cyclotomicExp(*s); }
X void h_fp12_cyclotomicExp2(fp12* o, const fp12* a, const array<u64,2>* s){ *o = a->cyclotomicExp(*s); }
X void h_fp12_cyclotomicExp4(fp12* o, const fp12* a, const array<u64,4>* s){ *o = a->cyclotomicExp(*s); }
X void h_fp12_cyclotomicExp6(fp12* o, const fp12* a, const array<u64,6>* s){ *o = a->cyclotomicExp(*s); }
X u64 h_fp12_isGtValid(const fp12* a){ return a->isGtValid(); }
#define FROB(T) X void h_##T##_frobeniusMap(T* o, const T* a, u64 n){ *o = a->frobeniusMap(n); } X void h_##T##_frobeniusMapAssign(T* a, u64 n){ a->frobeniusMapAssign(n); }
FROB(fp2) FROB(fp6) FROB(fp12)

// ---- groups
static u64 cb_calls;
X u64 h_cb_calls(){ return cb_calls; }
#define GROUP(T,F,NJ,NA,NC) \
 X u64 h_##T##_isOnCurve(const T* a){ return a->isOnCurve(); } \
 X u64 h_##T##_isAffine(const T* a){ return a->isAffine(); } \
 X void h_##T##_affine(T* o, const T* a){ *o = a->affine(); } \
 X u64 h_##T##_inCorrectSubgroup(const T* a){ return a->inCorrectSubgroup(); } \
 X void h_##T##_scale1(T* o, const T* a, const array<u64,1>* s){ *o = a->scale(*s); } \
 X void h_##T##_scale2(T* o, const T* a, const array<u64,2>* s){ *o = a->scale(*s); } \
 X void h_##T##_scale4(T* o, const T* a, const array<u64,4>* s){ *o = a->scale(*s); } \
 X void h_##T##_scale6(T* o, const T* a, const array<u64,6>* s){ *o = a->scale(*s); } \
 X void h_##T##_clearCofactor(T* o, const T* a){ *o = a->clearCofactor(); } \
 X void h_##T##_mapToCurve(T* o, const F* e){ *o = T::mapToCurve(*e); } \
 X void h_##T##_weightedSum(T* o, const T* p, u64 np, const array<u64,4>* s, u64 ns){ *o = T::weightedSum(span<const T>(p,np), span<const array<u64,4>>(s,ns)); } \
 X void h_##T##_weightedSum_y(T* o, const T* p, u64 np, const array<u64,4>* s, u64 ns){ *o = T::weightedSum(span<const T>(p,np), span<const array<u64,4>>(s,ns), [](){ cb_calls++; }); } \
 X u64 h_##T##_fromJacobianBytesBE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromJacobianBytesBE(span<const u8,NJ>(in,NJ), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o=*r; return 1; } \
 X u64 h_##T##_fromJacobianBytesLE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromJacobianBytesLE(span<const u8,NJ>(in,NJ), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o=*r; return 1; } \
 X u64 h_##T##_fromAffineBytesBE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromAffineBytesBE(span<const u8,NA>(in,NA), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o=*r; return 1; } \
 X u64 h_##T##_fromAffineBytesLE(T* o, const u8* in, u64 cv, u64 tm){ auto r = T::fromAffineBytesLE(span<const u8,NA>(in,NA), conv_opt{.check_valid = cv!=0, .to_mont = tm!=0}); if(!r) return 0; *o=*r; return 1; } \
 X u64 h_##T##_fromJacobianBytesBE_d(T* o, const u8* in){ auto r = T::fromJacobianBytesBE(span<const u8,NJ>(in,NJ)); if(!r) return 0; *o=*r; return 1; } \
 X void h_##T##_toJacobianBytesBE_d(u8* o, const T* a){ a->toJacobianBytesBE(span<u8,NJ>(o,NJ)); } \
 X u64 h_##T##_fromJacobianBytesLE_d(T* o, const u8* in){ auto r = T::fromJacobianBytesLE(span<const u8,NJ>(in,NJ)); if(!r) return 0; *o=*r; return 1; } \
 X void h_##T##_toJacobianBytesLE_d(u8* o, const T* a){ a->toJacobianBytesLE(span<u8,NJ>(o,NJ)); } \
 X u64 h_##T##_fromAffineBytesBE_d(T* o, const u8* in){ auto r = T::fromAffineBytesBE(span<const u8,NA>(in,NA)); if(!r) return 0; *o=*r; return 1; } \
 X void h_##T##_toAffineBytesBE_d(u8* o, const T* a){ a->toAffineBytesBE(span<u8,NA>(o,NA)); } \
 X u64 h_##T##_fromAffineBytesLE_d(T* o, const u8* in){ auto r = T::fromAffineBytesLE(span<const u8,NA>(in,NA)); if(!r) return 0; *o=*r; return 1; } \
 X void h_##T##_toAffineBytesLE_d(u8* o, const T* a){ a->toAffineBytesLE(span<u8,NA>(o,NA)); } \
 X u64 h_##T##_fromCompressedBytesBE(T* o, const u8* in){ auto r = T::fromCompressedBytesBE(span<const u8,NC>(in,NC)); if(!r) return 0; *o=*r; return 1; } \
 X void h_##T##_toJacobianBytesBE(u8* o, const T* a, u64 fm){ a->toJacobianBytesBE(span<u8,NJ>(o,NJ), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toJacobianBytesLE(u8* o, const T* a, u64 fm){ a->toJacobianBytesLE(span<u8,NJ>(o,NJ), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toAffineBytesBE(u8* o, const T* a, u64 fm){ a->toAffineBytesBE(span<u8,NA>(o,NA), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toAffineBytesLE(u8* o, const T* a, u64 fm){ a->toAffineBytesLE(span<u8,NA>(o,NA), fm ? from_mont::yes : from_mont::no); } \
 X void h_##T##_toCompressedBytesBE(u8* o, const T* a){ a->toCompressedBytesBE(span<u8,NC>(o,NC)); } \
 X void h_##T##_toJacobianBytesBE_a(u8* o, const T* a, u64 fm){ auto r = a->toJacobianBytesBE(fm ? from_mont::yes : from_mont::no); memcpy(o,r.data(),NJ); } \
 X void h_##T##_toJacobianBytesLE_a(u8* o, const T* a, u64 fm){ auto r = a->toJacobianBytesLE(fm ? from_mont::yes : from_mont::no); memcpy(o,r.data(),NJ); } \
 X void h_##T##_toAffineBytesBE_a(u8* o, const T* a, u64 fm){ auto r = a->toAffineBytesBE(fm ? from_mont::yes : from_mont::no); memcpy(o,r.data(),NA); } \
 X void h_##T##_toAffineBytesLE_a(u8* o, const T* a, u64 fm){ auto r = a->toAffineBytesLE(fm ? from_mont::yes : from_mont::no); memcpy(o,r.data(),NA); } \
 X void h_##T##_toCompressedBytesBE_a(u8* o, const T* a){ auto r = a->toCompressedBytesBE(); memcpy(o,r.data(),NC); }
GROUP(g1,fp,144,96,48) GROUP(g2,fp2,288,192,96)
X void h_g1_glv(g1* o, const g1* a){ *o = a->glvEndomorphism(); }
X void h_g1_swu(fp* o, const fp* e){ auto t = g1::swuMapG1(*e); o[0]=get<0>(t); o[1]=get<1>(t); }
X void h_g1_isogeny(fp* xy){ g1::isogenyMapG1(xy[0], xy[1]); }
X void h_g2_psi(g2* o, const g2* a){ *o = a->psi(); }
X void h_g2_frobeniusMap(g2* o, const g2* a, int64_t n){ *o = a->frobeniusMap(n); }
X void h_g2_swu(fp2* o, const fp2* e){ auto t = g2::swuMapG2(*e); o[0]=get<0>(t); o[1]=get<1>(t); }
X void h_g2_isogenyMap(g2* o, const g2* a){ *o = a->isogenyMap(); }

// ---- pairing
X void h_pairing_doubling_step(fp2* c, g2* r){ array<fp2,3> k; pairing::doubling_step(k, *r); c[0]=k[0]; c[1]=k[1]; c[2]=k[2]; }
X void h_pairing_addition_step(fp2* c, g2* r, const g2* t){ array<fp2,3> k; pairing::addition_step(k, *r, *t); c[0]=k[0]; c[1]=k[1]; c[2]=k[2]; }
X void h_pairing_precompute(fp2* c, const g2* t){ array<array<fp2,3>,68> k; pairing::pre_compute(k, *t); for(int i=0;i<68;i++) for(int j=0;j<3;j++) c[3*i+j]=k[i][j]; }
X void h_pairing_final_exp(fp12* f){ pairing::final_exponentiation(*f); }
X void h_pairing_miller(fp12* o, const tuple<g1,g2>* p, u64 n){ *o = pairing::miller_loop(span<const tuple<g1,g2>>(p,n), function<void()>()); }
X void h_pairing_miller_y(fp12* o, const tuple<g1,g2>* p, u64 n){ *o = pairing::miller_loop(span<const tuple<g1,g2>>(p,n), [](){ cb_calls++; }); }
X void h_pairing_calculate(fp12* o, const tuple<g1,g2>* p, u64 n){ *o = pairing::calculate(span<const tuple<g1,g2>>(p,n)); }
X void h_pairing_calculate_y(fp12* o, const tuple<g1,g2>* p, u64 n){ *o = pairing::calculate(span<const tuple<g1,g2>>(p,n), [](){ cb_calls++; }); }
X u64 h_pairing_add_pair(tuple<g1,g2>* o, const g1* a, const g2* b){ vector<tuple<g1,g2>> v; pairing::add_pair(v,*a,*b); for(size_t i=0;i<v.size();i++) o[i]=v[i]; return v.size(); }
// pairs built with add_pair, then calculate
X void h_pairing_product(fp12* o, const g1* a, const g2* b, u64 n){ vector<tuple<g1,g2>> v; for(u64 i=0;i<n;i++) pairing::add_pair(v,a[i],b[i]); *o = pairing::calculate(v); }
X u64 h_sizeof_pair(){ return sizeof(tuple<g1,g2>); }
X void h_make_pair(tuple<g1,g2>* o, const g1* a, const g2* b){ *o = make_tuple(*a,*b); }

// ---- scalar helpers
X void h_addc_445(array<u64,4>* c, const array<u64,4>* a, const array<u64,4>* b){ *c = scalar::add<4,4,4>(*a,*b); }
X void h_add_544(array<u64,5>* c, const array<u64,4>* a, const array<u64,4>* b){ *c = scalar::add<5,4,4>(*a,*b); }
X void h_add_644(array<u64,6>* c, const array<u64,4>* a, const array<u64,4>* b){ *c = scalar::add<6,4,4>(*a,*b); }
X void h_add_642(array<u64,6>* c, const array<u64,4>* a, const array<u64,2>* b){ *c = scalar::add<6,4,2>(*a,*b); }
X void h_add_624(array<u64,6>* c, const array<u64,2>* a, const array<u64,4>* b){ *c = scalar::add<6,2,4>(*a,*b); }
X void h_add_666(array<u64,6>* c, const array<u64,6>* a, const array<u64,6>* b){ *c = scalar::add<6,6,6>(*a,*b); }
X void h_add_442(array<u64,4>* c, const array<u64,4>* a, const array<u64,2>* b){ *c = scalar::add<4,4,2>(*a,*b); }
X void h_add_211(array<u64,2>* c, const array<u64,1>* a, const array<u64,1>* b){ *c = scalar::add<2,1,1>(*a,*b); }
X void h_mul_211(array<u64,2>* c, const array<u64,1>* a, const array<u64,1>* b){ *c = scalar::multiply<2,1,1>(*a,*b); }
X void h_mul_422(array<u64,4>* c, const array<u64,2>* a, const array<u64,2>* b){ *c = scalar::multiply<4,2,2>(*a,*b); }
X void h_mul_844(array<u64,8>* c, const array<u64,4>* a, const array<u64,4>* b){ *c = scalar::multiply<8,4,4>(*a,*b); }
X void h_mul_541(array<u64,5>* c, const array<u64,4>* a, const array<u64,1>* b){ *c = scalar::multiply<5,4,1>(*a,*b); }
X void h_mul_514(array<u64,5>* c, const array<u64,1>* a, const array<u64,4>* b){ *c = scalar::multiply<5,1,4>(*a,*b); }
X void h_mul_642(array<u64,6>* c, const array<u64,4>* a, const array<u64,2>* b){ *c = scalar::multiply<6,4,2>(*a,*b); }
#define SC(N) \
 X u64 h_cmp_##N(const array<u64,N>* a, const array<u64,N>* b){ auto r = scalar::cmp<N>(*a,*b); return r < 0 ? (u64)-1 : r > 0 ? 1 : 0; } \
 X u64 h_equal_##N(const array<u64,N>* a, const array<u64,N>* b){ return scalar::equal<N>(*a,*b); } \
 X u64 h_bitLength_##N(const array<u64,N>* a){ return scalar::bitLength<N>(*a); } \
 X void h_rsh_##N(array<u64,N>* o, const array<u64,N>* a, u64 b){ scalar::rsh<N>(*o,*a,b); } \
 X void h_sToBytesBE_##N(u8* o, const array<u64,N>* a){ scalar::toBytesBE<N>(*a, span<u8,N*8>(o,N*8)); } \
 X void h_sToBytesLE_##N(u8* o, const array<u64,N>* a){ scalar::toBytesLE<N>(*a, span<u8,N*8>(o,N*8)); } \
 X void h_sFromBytesBE_##N(array<u64,N>* o, const u8* a){ *o = scalar::fromBytesBE<N>(span<const u8,N*8>(a,N*8)); } \
 X void h_sFromBytesLE_##N(array<u64,N>* o, const u8* a){ *o = scalar::fromBytesLE<N>(span<const u8,N*8>(a,N*8)); }
SC(1) SC(4) SC(6)
X void h_divn_44(array<u64,4>* q, array<u64,4>* r, const array<u64,4>* a, const array<u64,4>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_64(array<u64,6>* q, array<u64,4>* r, const array<u64,6>* a, const array<u64,4>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_86(array<u64,8>* q, array<u64,6>* r, const array<u64,8>* a, const array<u64,6>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_66(array<u64,6>* q, array<u64,6>* r, const array<u64,6>* a, const array<u64,6>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_21(array<u64,2>* q, array<u64,1>* r, const array<u64,2>* a, const array<u64,1>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_32(array<u64,3>* q, array<u64,2>* r, const array<u64,3>* a, const array<u64,2>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_22(array<u64,2>* q, array<u64,2>* r, const array<u64,2>* a, const array<u64,2>* b){ bn_divn_safe(*q,*r,*a,*b); }
X void h_divn_42(array<u64,4>* q, array<u64,2>* r, const array<u64,4>* a, const array<u64,2>* b){ bn_divn_safe(*q,*r,*a,*b); }

// ---- hex
X u64 h_hexToBytes(u8* o, const char* s, u64 n){ auto v = hexToBytes(string_view(s,n)); for(size_t i=0;i<v.size();i++) o[i]=v[i]; return v.size(); }
X u64 h_bytesToHex(char* o, const u8* in, u64 n){ auto s = bytesToHex(span<const u8>(in,n)); for(size_t i=0;i<s.size();i++) o[i]=s[i]; return s.size(); }
#define HEXN(N) \
 X u64 h_bytesToHex_##N(char* o, const u8* in){ auto s = bytesToHex<N>(span<const u8,N>(in,N)); for(size_t i=0;i<s.size();i++) o[i]=s[i]; return s.size(); } \
 X void h_hexToBytes_##N(u8* o, const char* s, u64 n){ string t(s,n); hexToBytes<N>(t, span<u8,N>(o,N)); } \
 X void h_hexToBytes_a_##N(u8* o, const char* s, u64 n){ string t(s,n); auto r = hexToBytes<N>(t); memcpy(o,r.data(),N); }
HEXN(1) HEXN(4) HEXN(8)

// ---- hashing
X void h_sha256(u8* o, const u8* in, u64 n){ ::bls12_381::sha256 s; s.update(in,n); s.digest(o); }
X void h_sha256_arr(u8* o, const u8* in, u64 n){ ::bls12_381::sha256 s; s.update(in,n); auto d = s.digest(); memcpy(o,d.data(),32); }
X void h_sha256_2(u8* o, const u8* in, u64 n, u64 k){ ::bls12_381::sha256 s; s.update(in,k); s.update(in+k,n-k); s.digest(o); }
X void h_sha256_3(u8* o, const u8* in, u64 n, u64 k, u64 l){ ::bls12_381::sha256 s; s.update(in,k); s.update(in+k,l-k); s.update(in+l,n-l); s.digest(o); }
X void h_sha256_str(u8* o, const u8* in, u64 n){ ::bls12_381::sha256 s; s.update(string((const char*)in,n)); s.digest(o); }
X void h_sha256_init(::bls12_381::sha256* s){ new(s) ::bls12_381::sha256(); }
X void h_sha256_update(::bls12_381::sha256* s, const u8* in, u64 n){ s->update(in,n); }
X void h_sha256_digest(::bls12_381::sha256* s, u8* o){ s->digest(o); }
X void h_sha256_zeros(u8* o, u64 n){ ::bls12_381::sha256 s; static const u8 z[4096] = {}; while(n){ u64 c = n < 4096 ? n : 4096; s.update(z,c); n -= c; } s.digest(o); }
X u64 h_sha256_size(){ return sizeof(::bls12_381::sha256); }
X u64 h_sha256_toString(char* o, const array<u8,32>* d){ auto s = ::bls12_381::sha256::toString(*d); for(size_t i=0;i<s.size();i++) o[i]=s[i]; return s.size(); }
X int h_hmac(u8* mac, const u8* in, u64 n, const u8* key, u64 k){ return hkdf256_hmac(mac,in,n,key,k); }
X int h_hkdf_extract(u8* o, const u8* salt, u64 sl, const u8* ikm, u64 il){ return hkdf256_extract(o,salt,sl,ikm,il); }
X int h_hkdf_expand(u8* o, u64 L, const u8* prk, const u8* info, u64 il){ return hkdf256_expand(o,L,prk,info,il); }
X int h_hkdf(u8* o, u64 L, const u8* key, u64 kl, const u8* salt, u64 sl, const u8* info, u64 il){ return hkdf256_extract_expand(o,L,key,kl,salt,sl,info,il); }
X int h_xmd(u8* o, int n, const u8* in, int il, const u8* dst, int dl){ return xmd_sh256(o,n,in,il,dst,dl); }
X void h_ikm_to_lamport(u8* o, const u8* ikm, u64 il, const u8* salt, u64 sl){ ikm_to_lamport_sk(o,ikm,il,salt,sl); }
X void h_parent_to_lamport_pk(u8* o, const array<u64,4>* sk, uint32_t i){ parent_sk_to_lamport_pk(o,*sk,i); }

// ---- keys and signatures
X void h_derive_child_sk(array<u64,4>* o, const array<u64,4>* sk, uint32_t i){ *o = derive_child_sk(*sk,i); }
X void h_derive_child_sk_unh(array<u64,4>* o, const array<u64,4>* sk, uint32_t i){ *o = derive_child_sk_unhardened(*sk,i); }
X void h_derive_child_g1(g1* o, const g1* pk, uint32_t i){ *o = derive_child_g1_unhardened(*pk,i); }
X void h_derive_child_g2(g2* o, const g2* pk, uint32_t i){ *o = derive_child_g2_unhardened(*pk,i); }
X void h_secret_key(array<u64,4>* o, const u8* seed, u64 n){ *o = secret_key(span<const u8>(seed,n)); }
X void h_public_key(g1* o, const array<u64,4>* sk){ *o = public_key(*sk); }
X void h_fromMessage(g2* o, const u8* m, u64 n, const char* dst, u64 dl){ *o = fromMessage(span<const u8>(m,n), string(dst,dl)); }
X void h_sign(g2* o, const array<u64,4>* sk, const u8* m, u64 n){ *o = sign(*sk, span<const u8>(m,n)); }
X u64 h_verify(const g1* pk, const u8* m, u64 n, const g2* s){ return verify(*pk, span<const u8>(m,n), *s); }
X void h_aggregate_secret_keys(array<u64,4>* o, const array<u64,4>* s, u64 n){ *o = aggregate_secret_keys(span<const array<u64,4>>(s,n)); }
X void h_aggregate_public_keys(g1* o, const g1* p, u64 n){ *o = aggregate_public_keys(span<const g1>(p,n)); }
X void h_aggregate_signatures(g2* o, const g2* p, u64 n){ *o = aggregate_signatures(span<const g2>(p,n)); }
struct item1 { u64 tag; g1 pk; }; struct item2 { u64 tag; g2 sg; };
X void h_aggregate_public_keys_f(g1* o, const item1* p, u64 n){ *o = aggregate_public_keys(span<const item1>(p,n), [](const item1& i){ return i.pk; }); }
X void h_aggregate_public_keys_fp(g1* o, const item1* p, u64 n, u64 mask){ *o = aggregate_public_keys(span<const item1>(p,n), [](const item1& i){ return i.pk; }, [mask](const item1&, size_t k){ return (mask >> k & 1) != 0; }); }
X void h_aggregate_signatures_f(g2* o, const item2* p, u64 n){ *o = aggregate_signatures(span<const item2>(p,n), [](const item2& i){ return i.sg; }); }
X void h_aggregate_signatures_fp(g2* o, const item2* p, u64 n, u64 mask){ *o = aggregate_signatures(span<const item2>(p,n), [](const item2& i){ return i.sg; }, [mask](const item2&, size_t k){ return (mask >> k & 1) != 0; }); }
// messages: concatenated with lengths
X u64 h_aggregate_verify(const g1* pk, u64 npk, const u8* const* m, const u64* ml, u64 nm, const g2* s, u64 dup){ vector<vector<u8>> v; for(u64 i=0;i<nm;i++) v.push_back(vector<u8>(m[i], m[i]+ml[i])); return aggregate_verify(span<const g1>(pk,npk), span<const vector<u8>>(v), *s, dup!=0); }
X void h_sk_from_bytes(array<u64,4>* o, const array<u8,32>* in, u64 mod){ *o = sk_from_bytes(*in, mod!=0); }
X void h_sk_to_bytes(array<u8,32>* o, const array<u64,4>* sk){ *o = sk_to_bytes(*sk); }
X void h_pop_prove(g2* o, const array<u64,4>* sk){ *o = pop_prove(*sk); }
X u64 h_pop_verify(const g1* pk, const g2* p){ return pop_verify(*pk,*p); }
X u64 h_pop_fast_aggregate_verify(const g1* pk, u64 n, const u8* m, u64 ml, const g2* s){ return pop_fast_aggregate_verify(span<const g1>(pk,n), span<const u8>(m,ml), *s); }

// ---- constants
X void h_const(u64 which, void* o){
  switch(which){
   case 0: memcpy(o,&fp::MODULUS,48); break; case 1: memcpy(o,&fp::R1,48); break; case 2: memcpy(o,&fp::R2,48); break; case 3: memcpy(o,&fp::B,48); break;
   case 4: memcpy(o,&fp::Q,32); break; case 5: memcpy(o,&g1::BASE,144); break; case 6: memcpy(o,&g2::BASE,288); break; case 7: memcpy(o,&fp2::B,96); break; case 8: memcpy(o,&fp::twoInv,48); break;
  }
}
// ---- limb primitives
X void h_raw_add(fp* z, const fp* x, const fp* y){ _add(z,x,y); }
X void h_raw_double(fp* z, const fp* x){ _double(z,x); }
X void h_raw_subtract(fp* z, const fp* x, const fp* y){ _subtract(z,x,y); }
X void h_raw_negate(fp* z, const fp* x){ _negate(z,x); }
X void h_raw_square(fp* z, const fp* x){ _square(z,x); }
X void h_raw_multiply(fp* z, const fp* x, const fp* y){ _multiply(z,x,y); }
X void h_raw_ladd(fp* z, const fp* x, const fp* y){ _ladd(z,x,y); }
X void h_raw_ldouble(fp* z, const fp* x){ _ldouble(z,x); }
X void h_raw_lsubtract(fp* z, const fp* x, const fp* y){ _lsubtract(z,x,y); }
