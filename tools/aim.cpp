// How the table in sim/aimed.hpp was found. Not part of any check.
//   g++ -O3 -march=native -std=c++17 -I/repo/include -I/repo/third_party -Isim tools/aim.cpp <library> -o aim
//   ./aim k5|n5|h5|k4|n4|h4 <part> <seconds>
#include <bits/stdc++.h>
#include "core.hpp"
extern "C" {
#include <sha512.h>
#include <sha3.h>
void modular_reduction_ed25519(uint8_t*);
}
#include <faz_eddsa_avx2.h>
using namespace std;
#undef sph_sha512
extern "C" void sph_sha384(void*,const void*,size_t); extern "C" void sph_sha512_init(void*); extern "C" void sph_sha512_close(void*,void*);
static void H512(const uint8_t*a,size_t n,uint8_t*o){ sph_sha512_context c; sph_sha512_init(&c); sph_sha384(&c,a,n); sph_sha512_close(&c,o);}  
typedef unsigned __int128 u128;
static const uint64_t L4[7]={0x2378c292ab5844f3ull,0x216cc2728dc58f55ull,0xc44edb49aed63690ull,0xffffffff7cca23e9ull,~0ull,~0ull,0x3fffffffffffffffull};
static void red448(const uint8_t*h,int n,uint64_t out[7]){
  uint64_t c[4]; { u128 b=0; uint64_t t[7]; uint64_t two[7]={0,0,0,0,0,0,0x4000000000000000ull}; for(int i=0;i<7;i++){ u128 d=(u128)two[i]-L4[i]-(uint64_t)b; t[i]=(uint64_t)d; b=(d>>64)?1:0;} memcpy(c,t,32);} 
  uint64_t x[16]={0}; memcpy(x,h,n);
  for(int it=0;it<5;it++){
    uint64_t hi[9]={0}; for(int i=0;i<9;i++){ hi[i]=x[6+i]>>62; if(i+7<16) hi[i]|=x[7+i]<<2; }
    x[6]&=0x3fffffffffffffffull; for(int i=7;i<16;i++) x[i]=0;
    for(int i=0;i<9;i++){ u128 s=0; for(int j=0;j<4;j++){ if(i+j>=16)break; s+=(u128)hi[i]*c[j]+x[i+j]; x[i+j]=(uint64_t)s; s>>=64;} for(int j=i+4;j<16&&s;j++){ s+=x[j]; x[j]=(uint64_t)s; s>>=64;} }
  }
  for(;;){ bool ge=true; for(int i=6;i>=0;i--) if(x[i]!=L4[i]){ ge=x[i]>L4[i]; break;} if(!ge)break; u128 b=0; for(int i=0;i<7;i++){ u128 d=(u128)x[i]-L4[i]-(uint64_t)b; x[i]=(uint64_t)d; b=(d>>64)?1:0;} }
  memcpy(out,x,56);
}
struct Best { vector<pair<int,u64>> v; };
static const int NC=14, KEEP=6;
static Best best[NC];
static const char*cn[NC]={"zeros","ones","lead0","trail0","digit0","digit8","zgroups","run_neg","run_pos","popmin","popmax","eqbytes","al0","al1"};
static void put(int c,int s,u64 seed){ auto&v=best[c].v; if((int)v.size()>=KEEP&&s<=v.back().first) return; v.push_back({s,seed}); sort(v.rbegin(),v.rend()); if((int)v.size()>KEEP) v.pop_back(); }
static void score(const uint64_t*w,int words,int bits,u64 seed,bool is4,int lowfree){
  uint8_t b[64]; memcpy(b,w,words*8);
  int z=0,o=0,bz=0,bo=0; int pc=0;
  int lead=0; { int i=bits-1; while(i>=0&&!(w[i/64]>>(i%64)&1)) {lead++; i--;} }
  int trail=0; { int i=0; while(i<bits&&!(w[i/64]>>(i%64)&1)) {trail++; i++;} }
  for(int i=0;i<words;i++) pc+=__builtin_popcountll(w[i]);
  int z8=0,o8=0; for(int i=0;i<words*8;i++){ z8+=b[i]==0; o8+=b[i]==255; }
  if(z8>=2||o8>=2) for(int i=lowfree;i<bits-lead;i++){ if(w[i/64]>>(i%64)&1){o++;z=0;bo=max(bo,o);} else {z++;o=0;bz=max(bz,z);} }
  put(0,bz,seed); put(1,bo,seed); put(2,lead,seed); put(3,trail,seed);
  int carry=0,r0=0,m0=0,r8=0,m8=0,rn=0,mn=0,rp=0,mp=0; uint8_t dg[112];
  for(int i=0;i<bits/4;i++){ int v=((b[i/2]>>(4*(i&1)))&15)+carry; carry=v>=8; int d=carry?16-v:v; dg[i]=d; if(d==0){r0++;m0=max(m0,r0);}else r0=0; if(d==8){r8++;m8=max(m8,r8);}else r8=0; if(carry){rn++;mn=max(mn,rn);rp=0;}else{rp++;mp=max(mp,rp);rn=0;} }
  put(4,m0,seed); put(5,m8,seed); put(7,mn,seed); put(8,mp,seed); put(9,-pc,seed); put(10,pc,seed);
  int g=0,run=0,mr=0; if(is4){ for(int i=0;i<28;i++){ bool zz=(4*i+3<bits/4)&&!dg[4*i]&&!dg[4*i+1]&&!dg[4*i+2]&&!dg[4*i+3]; g+=zz; run=zz?run+1:0; mr=max(mr,run);} }
  else for(int i=0;i<16;i++){ bool zz=!dg[2*i]&&!dg[2*i+1]&&!dg[2*i+32]&&!(2*i+33<63&&dg[2*i+33]); g+=zz; run=zz?run+1:0; mr=max(mr,run);} 
  put(6,g*2+mr,seed);
  int e=1,me=1; for(int i=1;i<bits/8;i++){ if(b[i]==b[i-1]&&b[i]&&b[i]!=255){e++;me=max(me,e);} else e=1; } put(11,me,seed);
  int a0=0,a1=0; for(int i=0;i*32<bits-32;i++){ uint32_t h=(uint32_t)(w[i/2]>>(32*(i&1))); if(!h) h=1; uint32_t k=~h; if(!k) k=1; a0=max(a0,max(__builtin_ctz(h),__builtin_clz(h))); a1=max(a1,max(__builtin_ctz(k),__builtin_clz(k))); if(i==0&&lowfree){a0=0;} }
  put(12,a0,seed); put(13,a1,seed);
}
int main(int c,char**a){
  string kind=a[1]; int part=atoi(a[2]); double secs=atof(a[3]); (void)c;
  alignas(32) static uint8_t buf[512],h[128]; 
  Bytes sk5=rnd_bytes(1,32), sk4=rnd_bytes(1,57), pre5,pre4;
  static uint8_t pk5[32],pk4[57];
  faz::eddsa::Ed25519.Pure.keygen(pk5,sk5.data()); faz::eddsa::Ed448.PureContext.keygen(pk4,sk4.data());
  { H512(sk5.data(),32,h); pre5=Bytes(h+32,h+64); SHAKE256(sk4.data(),57*8,h,114); pre4=Bytes(h+57,h+114); }
  static uint8_t s5[64],s4[114]; faz::eddsa::Ed25519.Pure.sign(s5,buf,0,pk5,sk5.data()); faz::eddsa::Ed448.PureContext.sign(s4,buf,0,buf,0,pk4,sk4.data());
  if (kind=="selftest"){ for(u64 s=0;s<3;s++){ Bytes x=rnd_bytes(s,114); uint64_t o[7]; red448(x.data(),114,o); printf("%s %s\n",hex(x).c_str(),hex(Bytes((uint8_t*)o,(uint8_t*)o+56)).c_str()); } return 0; }
  auto t0=chrono::steady_clock::now(); u64 n=0;
  for(u64 s=((u64)part<<33)+1;;s++){
    if((++n&4095)==0&&chrono::duration<double>(chrono::steady_clock::now()-t0).count()>secs) break;
    uint64_t w[8]={0};
    if(kind=="k5"){ Bytes k=rnd_bytes(s,32); H512(k.data(),32,h); h[0]&=248;h[31]&=127;h[31]|=64; uint64_t x[12]={0}; memcpy(x,h,32); modular_reduction_ed25519((uint8_t*)x); score(x,4,252,s,false,0); }
    else if(kind=="n5"){ Bytes m=rnd_bytes(s,16); memcpy(buf,pre5.data(),32); memcpy(buf+32,m.data(),16); H512(buf,48,h); uint64_t x[12]={0}; memcpy(x,h,64); modular_reduction_ed25519((uint8_t*)x); score(x,4,252,s,false,0); }
    else if(kind=="h5"){ Bytes m=rnd_bytes(s,16); memcpy(buf,s5,32); memcpy(buf+32,pk5,32); memcpy(buf+64,m.data(),16); H512(buf,80,h); uint64_t x[12]={0}; memcpy(x,h,64); modular_reduction_ed25519((uint8_t*)x); score(x,4,252,s,false,0); }
    else if(kind=="k4"){ Bytes k=rnd_bytes(s,57); SHAKE256(k.data(),57*8,h,64); h[0]&=252;h[55]|=128; memcpy(w,h,56); score(w,7,448,s,true,2); }
    else if(kind=="n4"){ Bytes m=rnd_bytes(s,16); memcpy(buf,"SigEd448\0\0",10); memcpy(buf+10,pre4.data(),57); memcpy(buf+67,m.data(),16); SHAKE256(buf,83*8,h,114); red448(h,114,w); score(w,7,446,s,true,0); }
    else if(kind=="h4"){ Bytes m=rnd_bytes(s,16); memcpy(buf,"SigEd448\0\0",10); memcpy(buf+10,s4,57); memcpy(buf+67,pk4,57); memcpy(buf+124,m.data(),16); SHAKE256(buf,140*8,h,114); red448(h,114,w); score(w,7,446,s,true,0); }
  }
  for(int i=0;i<NC;i++) for(auto&p:best[i].v) printf("%s %s %d %llx\n",kind.c_str(),cn[i],p.first,(unsigned long long)p.second);
  fprintf(stderr,"%s %llu\n",kind.c_str(),(unsigned long long)n);
}
