// 8-thread SHA-NI double-SHA256 header miner. stdin: lines  name prevhex(64)|CHAIN merklehex(64) time bits_hex lo_hex(64) hi_hex(64)  (hash as BE integer, lo<=h<hi)
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <immintrin.h>
static const uint32_t K[64] __attribute__((aligned(16)))={0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static const uint32_t IV[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
// w: 16 message words in native order
static inline __attribute__((always_inline)) void comp(uint32_t st[8], const uint32_t w[16]){
  __m128i S0,S1,T,M[4];
  T=_mm_shuffle_epi32(_mm_loadu_si128((__m128i*)st),0xB1);
  S1=_mm_shuffle_epi32(_mm_loadu_si128((__m128i*)(st+4)),0x1B);
  S0=_mm_alignr_epi8(T,S1,8); S1=_mm_blend_epi16(S1,T,0xF0);
  __m128i a=S0,c=S1;
  for(int i=0;i<4;i++)M[i]=_mm_loadu_si128((__m128i*)(w+4*i));
#pragma GCC unroll 16
  for(int r=0;r<16;r++){
    __m128i m=_mm_add_epi32(M[r&3],_mm_load_si128((__m128i*)(K+4*r)));
    S1=_mm_sha256rnds2_epu32(S1,S0,m);
    S0=_mm_sha256rnds2_epu32(S0,S1,_mm_shuffle_epi32(m,0x0E));
    if(r<12){
      __m128i x=_mm_sha256msg1_epu32(M[r&3],M[(r+1)&3]);
      x=_mm_add_epi32(x,_mm_alignr_epi8(M[(r+3)&3],M[(r+2)&3],4));
      M[r&3]=_mm_sha256msg2_epu32(x,M[(r+3)&3]);
    }
  }
  S0=_mm_add_epi32(S0,a);S1=_mm_add_epi32(S1,c);
  T=_mm_shuffle_epi32(S0,0x1B);S1=_mm_shuffle_epi32(S1,0xB1);
  S0=_mm_blend_epi16(T,S1,0xF0);S1=_mm_alignr_epi8(S1,T,8);
  _mm_storeu_si128((__m128i*)st,S0);_mm_storeu_si128((__m128i*)(st+4),S1);
}
static volatile int found; static uint8_t hdr[80],LO[32],HI[32]; static uint8_t outh[80],outhash[32]; static uint32_t mid[8]; static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
static uint32_t be(const uint8_t*p){return p[0]<<24|p[1]<<16|p[2]<<8|p[3];}
static void*work(void*arg){
  uint64_t t=(uint64_t)arg; uint32_t w[16]={0},w2[16]={0},st[8];
  for(int i=0;i<4;i++)w[i]=be(hdr+64+4*i); w[4]=0x80000000;w[15]=640; w2[8]=0x80000000;w2[15]=256;
  for(uint64_t n=t<<29;n<((t+1)<<29)&&!found;n++){
    uint32_t nn=(uint32_t)n; w[3]=__builtin_bswap32(nn); memcpy(st,mid,32); comp(st,w); memcpy(w2,st,32); memcpy(st,IV,32); comp(st,w2);
    if(st[7]==0){ // top 32 bits zero
      uint8_t h[32]; for(int i=0;i<8;i++){h[31-4*i]=st[i]>>24;h[30-4*i]=st[i]>>16;h[29-4*i]=st[i]>>8;h[28-4*i]=st[i];}
      if(memcmp(h,LO,32)>=0&&memcmp(h,HI,32)<0){pthread_mutex_lock(&mu); if(!found){found=1;memcpy(outh,hdr,80);memcpy(outh+76,&nn,4);memcpy(outhash,h,32);}pthread_mutex_unlock(&mu);}
    }
  } return 0;}
static void unhex(const char*s,uint8_t*o,int n){for(int i=0;i<n;i++){unsigned x;sscanf(s+2*i,"%2x",&x);o[i]=x;}}
int main(){char name[64],prev[128],mer[128],lo[128],hi[128];uint32_t tm,bits; uint8_t last[32]={0};
 while(scanf("%63s %127s %127s %u %x %127s %127s",name,prev,mer,&tm,&bits,lo,hi)==7){
  memset(hdr,0,80); hdr[0]=1; uint8_t p[32]; if(!strcmp(prev,"CHAIN"))memcpy(p,last,32); else unhex(prev,p,32);
  for(int i=0;i<32;i++)hdr[4+i]=p[31-i]; unhex(mer,hdr+36,32); memcpy(hdr+68,&tm,4); memcpy(hdr+72,&bits,4); unhex(lo,LO,32);unhex(hi,HI,32);
  found=0; for(uint32_t ex=0;!found;ex++){ memcpy(hdr+36,&ex,4); uint32_t w[16];for(int i=0;i<16;i++)w[i]=be(hdr+4*i); memcpy(mid,IV,32);comp(mid,w);
   pthread_t th[8];for(uint64_t i=0;i<8;i++)pthread_create(&th[i],0,work,(void*)i);for(int i=0;i<8;i++)pthread_join(th[i],0);}
  memcpy(last,outhash,32); printf("%s ",name);for(int i=0;i<80;i++)printf("%02x",outh[i]);printf(" ");for(int i=0;i<32;i++)printf("%02x",outhash[i]);printf("\n");fflush(stdout);
 }}
