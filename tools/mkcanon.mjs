const reps=[0x334,0x16ff0,0x93c,0x3099,0x94d,0x5b0,0x5b1,0x5b2,0x5b3,0x5b4,0x5b5,0x5b6,0x5b7,0x5b8,0x5b9,0x5bb,0x5bc,0x5bd,0x5bf,0x5c1,0x5c2,0xfb1e,0x64b,0x64c,0x64d,0x64e,0x64f,0x650,0x651,0x652,0x670,0x711,0xc55,0xc56,0xe38,0xe48,0xeb8,0xec8,0xf71,0xf72,0xf74,0x321,0x1dce,0x31b,0x302a,0x316,0x59a,0x302e,0x1d16d,0x5ae,0x300,0x315,0x35c,0x35d,0x345];
const S=String.fromCodePoint;
const swaps=(a,b)=>{const s='a'+S(a)+S(b);return s.normalize('NFD')!==s && [...s.normalize('NFD')].length===3 && s.normalize('NFD')==='a'+S(b)+S(a);};
let dec=[],ccc=new Map();
for(let c=0;c<=0x10ffff;c++){ if(c>=0xd800&&c<=0xdfff)continue;
  const d=S(c).normalize('NFD');
  if(d!==S(c)){ if(c>=0xac00&&c<=0xd7a3)continue; dec.push([c,[...d].map(x=>x.codePointAt(0))]); continue;}
  if(c<0x300)continue;
  let lower=0,moves=false;
  for(const r of reps){ if(r===c)continue; if(swaps(c,r)){lower++;moves=true;} else if(swaps(r,c)) moves=true; }
  if(moves) ccc.set(c,lower);
}
const out=[];
for(const [c,d] of dec) out.push('D '+c.toString(16)+' '+d.map(x=>x.toString(16)).join(' '));
// ranges of equal rank
let keys=[...ccc.keys()].sort((a,b)=>a-b);
for(let i=0;i<keys.length;){let j=i;while(j+1<keys.length&&keys[j+1]===keys[j]+1&&ccc.get(keys[j+1])===ccc.get(keys[i]))j++;out.push('M '+keys[i].toString(16)+' '+keys[j].toString(16)+' '+ccc.get(keys[i]));i=j+1;}
// composition pairs
const comp=[];
for(const [c,d] of dec){ if(S(c).normalize('NFC')===S(c)) out.push('C '+c.toString(16)); }
console.log(out.join('\n'));
console.error(dec.length,ccc.size,new Set(ccc.values()).size);
