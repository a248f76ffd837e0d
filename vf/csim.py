"""Compiled simulation of an extracted transition system (used to find violations, to sample
reachable states for invariant mining, and to discard false invariant candidates).  Never used to
conclude that an obligation holds."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

import numpy as np

from . import term as T


def nw(w):
    return (w + 63) // 64


def ctype(w):
    return f"unsigned _BitInt({w})"


class Gen:
    def __init__(self, varexpr):
        self.varexpr = varexpr

    def emit(self, roots):
        """returns (lines, {id: expr})"""
        lines, e = [], {}
        for t in T.topo(roots):
            op, w = t.op, t.w
            ty = ctype(w)
            a = [e[x.id] for x in t.args]
            aw = [x.w for x in t.args]
            if op == "const":
                e[t.id] = self.const(t.p, w)
                continue
            if op == "var":
                e[t.id] = self.varexpr[t.p]
                continue
            if op == "not":
                r = f"({ty})~{a[0]}"
            elif op in ("and", "or", "xor"):
                r = f"{a[0]} {dict(zip(('and', 'or', 'xor'), '&|^'))[op]} {a[1]}"
            elif op in ("add", "sub", "mul"):
                r = f"({ty})({a[0]} {dict(add='+', sub='-', mul='*')[op]} {a[1]})"
            elif op == "udiv":
                r = f"{a[1]} ? ({ty})({a[0]} / {a[1]}) : ({ty})0"
            elif op == "urem":
                r = f"{a[1]} ? ({ty})({a[0]} % {a[1]}) : ({ty})0"
            elif op == "eq":
                r = f"({ty})({a[0]} == {a[1]})"
            elif op == "ult":
                r = f"({ty})({a[0]} < {a[1]})"
            elif op == "ite":
                r = f"{a[0]} ? {a[1]} : {a[2]}"
            elif op == "concat":
                ps, pos = [], 0
                for x, xw in zip(a, aw):
                    ps.append(f"(({ty}){x} << {pos})" if pos else f"({ty}){x}")
                    pos += xw
                r = " | ".join(ps)
            elif op == "extract":
                r = f"({ty})({a[0]} >> {t.p})" if t.p else f"({ty}){a[0]}"
            elif op == "sext":
                if aw[0] == 1:
                    r = f"{a[0]} ? ({ty})~({ty})0 : ({ty})0"
                else:
                    r = f"({ty})(signed _BitInt({w}))(signed _BitInt({aw[0]})){a[0]}"
            elif op in ("shl", "lshr"):
                o = "<<" if op == "shl" else ">>"
                amt = f"(unsigned)({a[1]})" if aw[1] <= 32 else f"(unsigned long)({a[1]})"
                guard = f"{amt} < {w}" if (1 << aw[1]) > w else "1"
                if aw[1] > 64:
                    guard = f"{a[1]} < ({ctype(aw[1])}){w}"
                r = f"({guard}) ? ({ty})({a[0]} {o} {amt}) : ({ty})0"
            elif op == "ashr":
                amt = f"(unsigned long)({a[1]})"
                if w == 1:
                    r = f"{a[0]}"
                else:
                    g = f"({a[1]} < ({ctype(max(aw[1], w.bit_length()))}){w})"
                    if aw[1] < w.bit_length():
                        g = "1"
                    r = f"({ty})((signed _BitInt({w})){a[0]} >> ({g} ? {amt} : {w - 1}ul))"
            else:
                raise NotImplementedError(op)
            n = f"t{t.id}"
            lines.append(f"{ty} {n} = {r};")
            e[t.id] = n
        return lines, e

    def const(self, v, w):
        if w <= 64:
            return f"(({ctype(w)}){v}ull)"
        parts, pos = [], 0
        while v:
            parts.append(f"((({ctype(w)}){v & (2**64-1)}ull) << {pos})")
            v >>= 64
            pos += 64
        return "(" + (" | ".join(parts) or f"({ctype(w)})0") + ")"


RUNTIME = r"""
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef uint64_t u64;
static u64 rs[2];
static inline u64 rnd(void){ u64 a=rs[0],b=rs[1]; rs[0]=b; a^=a<<23; a^=a>>17; a^=b^(b>>26); rs[1]=a; return a+b; }
static void seed(u64 s){ rs[0]=s*0x9E3779B97F4A7C15ull+1; rs[1]=s^0xD1B54A32D192ED03ull; for(int i=0;i<8;i++) rnd(); }
"""

MAIN = r"""
static u64 in_[NIN+1]; static int keep_[NI+1], one_[NI+1], kind_[NI+1]; static u64 hold_[NI+1];
extern const int in_w[]; extern const int in_off[];
static void rand_one(int i){
  int w=in_w[i];
  if(npool[i]>0 && (rnd()%100)<pool_pct[i]){ u64 v=pools[pool_off[i]+rnd()%npool[i]]; in_[in_off[i]]=v; for(int k=1;k<(w+63)/64;k++) in_[in_off[i]+k]=0; return; }
  if(w==1){ in_[in_off[i]] = (rnd()&255) < one_[i]; return; }
  int n=(w+63)/64; u64 kind=rnd()%16; if(kind<kind_[i]) kind=15;
  for(int k=0;k<n;k++){
    u64 v;
    switch(kind){
      case 0: v=0; break; case 1: v=~0ull; break; case 2: v=rnd()%4; if(k) v=0; break;
      case 3: { int b=rnd()%w; v= (b/64==k)? 1ull<<(b%64):0; break; }
      case 4: v=in_[in_off[i]+k]+(k==0); break;
      case 5: v=in_[in_off[i]+k]-(k==0); break;
      default: v=rnd();
    }
    if(k==n-1 && (w&63)) v &= (1ull<<(w&63))-1;
    in_[in_off[i]+k]=v;
  }
}
static void profile(void){
  static const unsigned char K[]={0,0,64,128,200,240,250,254}; static const unsigned char O[]={4,20,64,128,128,192,236,252};
  int g=rnd()%4;
  for(int i=0;i<NI;i++){
    keep_[i]= fixk[i]>=0 ? fixk[i] : (g==0?0:K[rnd()&7]); one_[i]= fixo[i]>=0 ? fixo[i] : (g==1?128:O[rnd()&7]);
    kind_[i]= (rnd()&1)?0:16; }
}
static int gen_inputs(const S*s, I*in){
  u64 prev[NIN+1]; memcpy(prev,in_,sizeof in_);
  for(int tries=0;tries<200;tries++){
    for(int i=0;i<NI;i++){ 
      int k=keep_[i]; if(tries>8) k = (rnd()&1)?128:k;
      if(k>=512 && tries<=8){ if(hold_[i]){ if(tries==0) hold_[i]--; memcpy(in_+in_off[i],prev+in_off[i],8*((in_w[i]+63)/64)); } else { rand_one(i); hold_[i]=rnd()&((1ull<<(rnd()%(k-511)))-1); } }
      else if(k>255 ? (rnd()&((1u<<(k-256))-1))!=0 : (int)(rnd()&255)<k) memcpy(in_+in_off[i],prev+in_off[i],8*((in_w[i]+63)/64)); else rand_one(i); }
    load_in(in,in_);
    if(eval_req(s,in)) return 1;
  }
  memcpy(in_,prev,sizeof in_);
  return 0;
}
/* result: res[0]=violation?1:0 res[1]=ensure index res[2]=length res[3]=rows res[4]=cycles res[5]=dead res[6]=episodes */
#define HN (1u<<18)
static u64 *ht;
void run(u64 sd, u64 ncycles, u64 maxlen, u64*trace, u64*rows, u64 rowcap, u64*start, int nstart, int use_start, u64*cover, u64*res){
  seed(sd); if(!ht) ht=calloc(HN,8); else memset(ht,0,HN*8);
  u64 cyc=0,nr=0,seen=0,npr=0,prot=rowcap/3; memset(res,0,8*8);
  static uint16_t (*vc)[256]; if(rows&&rowcap){ if(!vc) vc=calloc(NROW+1,sizeof *vc); else memset(vc,0,(NROW+1)*sizeof *vc); }
  unsigned char ens[NE+1];
  while(cyc<ncycles){
    S s; I in; memset(in_,0,sizeof in_);
    if(use_start) load_state(&s,start+(rnd()%nstart)*NROW); else init_state(&s);
    profile(); res[6]++;
    u64 L = (rnd()%4==0)? maxlen : 1 + rnd()%maxlen; u64 reprof = (rnd()%2)? 1+rnd()%(maxlen) : 30+rnd()%300;
    for(u64 t=0;t<L && cyc<ncycles;t++){
      if(rows && rowcap){
        u64 row[NROW+1]; store_row(&s,row);
        u64 h=1469598103934665603ull; for(int k=0;k<NROW;k++){ h^=row[k]; h*=0x9E3779B97F4A7C15ull; h^=h>>29; }
        h|=1; u64 slot=h&(HN-1); 
        if(ht[slot]!=h){ ht[slot]=h;
          /* rows with a rare value of a narrow register are kept; the others are sampled */
          int rare=0; for(int k=0;k<NROW;k++) if(row_w[k]<=8 && vc[k][row[k]&255]<48){ vc[k][row[k]&255]++; rare=1; }
          if(rare && npr<prot){ if(nr>npr && nr<rowcap) memcpy(rows+nr*NROW,rows+npr*NROW,NROW*8); if(nr<rowcap) nr++; memcpy(rows+(npr++)*NROW,row,NROW*8); }
          else { seen++; if(nr<rowcap) memcpy(rows+(nr++)*NROW,row,NROW*8);
            else { u64 q=rnd()%seen; if(q<rowcap-npr) memcpy(rows+(npr+q)*NROW,row,NROW*8); } } }
      }
      if(t && t%reprof==0) profile();
      if(!gen_inputs(&s,&in)){ res[5]++; break; }
      if(trace) memcpy(trace+t*NIN,in_,NIN*8);
      S n; int bad=eval_step(&s,&in,&n,ens,cover); cyc++;
      if(bad){ for(int e=0;e<NE;e++) if(!ens[e]){ res[0]=1;res[1]=e;res[2]=t+1;res[3]=nr;res[4]=cyc;return; } }
      s=n;
    }
  }
  res[3]=nr;res[4]=cyc;
}
/* one-step successors of a state under random admissible inputs */
u64 succ(u64 sd, u64*state, u64 tries, u64*rows){
  seed(sd); S s,n; I in; unsigned char ens[NE+1]; load_state(&s,state); u64 nr=0; memset(in_,0,sizeof in_);
  for(u64 t=0;t<tries;t++){ profile(); if(!gen_inputs(&s,&in)) continue; eval_step(&s,&in,&n,ens,0); store_row(&n,rows+(nr++)*NROW);} 
  return nr;
}
/* random admissible walks from a state; stops where an ensures clause fails */
u64 walk(u64 sd, u64*state, u64 walks, u64 len, u64*rows){
  seed(sd); S s,n; I in; unsigned char ens[NE+1]; u64 nr=0;
  for(u64 w=0;w<walks;w++){ load_state(&s,state); memset(in_,0,sizeof in_); profile();
    for(u64 t=0;t<len;t++){ if(!gen_inputs(&s,&in)) break; if(eval_step(&s,&in,&n,ens,0)) break; store_row(&n,rows+(nr++)*NROW); s=n; } }
  return nr;
}
/* which candidate relations hold on all rows */
typedef long long i64;
void chk(u64 nc, const i64*m1,const u64*v1,const i64*m2,const u64*v2,const i64*ty,const i64*ca,const i64*ba,const i64*cb,const i64*bb,const u64*k,const u64*mask,
         u64 nrows,const u64*rows,unsigned char*ok){
  for(u64 i=0;i<nc;i++) ok[i]=1;
  for(u64 r=0;r<nrows;r++){ const u64*x=rows+r*NROW;
    for(u64 i=0;i<nc;i++){ if(!ok[i]) continue;
      if(m1[i]>=0 && x[m1[i]]!=v1[i]) continue;
      if(m2[i]>=0 && x[m2[i]]!=v2[i]) continue;
      u64 a=x[ca[i]], b=cb[i]>=0?x[cb[i]]:0; int v;
      switch(ty[i]){ case 0: v=(((a>>ba[i])^(b>>bb[i]))&1)==k[i]; break; case 1: v=a<=k[i]; break; case 2: v=a>=k[i]; break;
        case 3: v=((a-b)&mask[i])==k[i]; break; case 4: v=((a+b)&mask[i])==k[i]; break; default: v=a<=b; }
      ok[i]=v; } }
}
/* one random admissible run of given length, inputs recorded */
u64 rtrace(u64 sd, u64 len, u64*trace){ seed(sd); S s,n; I in; unsigned char ens[NE+1]; init_state(&s); memset(in_,0,sizeof in_); profile();
  for(u64 t=0;t<len;t++){ if(rnd()%200==0) profile(); if(!gen_inputs(&s,&in)) return t; memcpy(trace+t*NIN,in_,NIN*8); eval_step(&s,&in,&n,ens,0); s=n; }
  return len; }
/* replay a trace of raw inputs from reset; returns bitmask info: first failing ensure or -1; also the first requires failure */
void replay(u64*trace, u64 len, u64*rows, u64*res){
  S s; I in; unsigned char ens[NE+1]; init_state(&s); res[0]=0;
  for(u64 t=0;t<len;t++){ if(rows) store_row(&s,rows+t*NROW); load_in(&in,trace+t*NIN); 
    if(!eval_req(&s,&in)){res[0]=2;res[2]=t;return;}
    S n; int bad=eval_step(&s,&in,&n,ens,0);
    if(bad && !res[0]){ for(int e=0;e<NE;e++) if(!ens[e]){res[0]=1;res[1]=e;res[2]=t+1;break;} if(!rows) return; }
    s=n; }
  if(rows) store_row(&s,rows+len*NROW);
}
"""


class CSim:
    def __init__(self, ts, requires, ensures, aux, covers=(), bias=None, keepdir=None):
        """ts: object with regs (name->w), inputs (name->w), init, next; requires/ensures: lists of
        1-bit terms; aux: list of (name, term) over registers only"""
        self.ts = ts
        self.nens = len(ensures)
        bias = bias or {}
        regs = list(ts.reg_w.items())
        ins = list(ts.in_w.items())
        rid = {n: f"r{i}" for i, (n, _) in enumerate(regs)}
        iid = {n: f"i{i}" for i, (n, _) in enumerate(ins)}
        ve = {n: f"s->{r}" for n, r in rid.items()}
        ve.update({n: f"in->{r}" for n, r in iid.items()})
        c = [RUNTIME]
        c.append("typedef struct {" + " ".join(f"{ctype(w)} {rid[n]};" for n, w in regs) + " char pad_;} S;")
        c.append("typedef struct {" + " ".join(f"{ctype(w)} {iid[n]};" for n, w in ins) + " char pad_;} I;")
        g = Gen(ve)
        req = T.conj(requires)
        lines, e = g.emit([req])
        c.append("static int eval_req(const S*s,const I*in){" + "\n".join(lines) + f"return (int){e[req.id]};}}")
        roots = [ts.next[n] for n, _ in regs] + list(ensures) + list(covers)
        lines, e = g.emit(roots)
        body = ["static int eval_step(const S*s,const I*in,S*n,unsigned char*ens,u64*cover){int bad=0;"] + lines
        for n, _ in regs:
            body.append(f"n->{rid[n]} = {e[ts.next[n].id]};")
        for i, t in enumerate(ensures):
            body.append(f"ens[{i}] = (unsigned char){e[t.id]}; bad |= !ens[{i}];")
        if covers:
            body.append("if(cover){")
            for i, t in enumerate(covers):
                body.append(f"cover[{i}] += (u64){e[t.id]};")
            body.append("}")
        body.append("return bad;}")
        c.append("\n".join(body))
        c.append("static void init_state(S*s){memset(s,0,sizeof*s);" + "".join(
            f"s->{rid[n]} = {g.const(ts.init[n], w)};" for n, w in regs) + "}")
        # rows: registers then aux
        self.cols = [(n, w) for n, w in regs] + [(n, t.w) for n, t in aux]
        self.coloff = {}
        off = 0
        for n, w in self.cols:
            self.coloff[n] = off
            off += nw(w)
        self.nrow = max(off, 1)
        st, ld = [], []
        for n, w in regs:
            o = self.coloff[n]
            for k in range(nw(w)):
                st.append(f"row[{o + k}] = (u64)(s->{rid[n]}{'' if k == 0 else f' >> {64 * k}'});")
            ld.append(f"s->{rid[n]} = " + " | ".join(
                f"(({ctype(w)})row[{o + k}]{'' if k == 0 else f' << {64 * k}'})" for k in range(nw(w))) + ";")
        lines, e = g.emit([t for _, t in aux])
        st += lines
        for n, t in aux:
            o = self.coloff[n]
            for k in range(nw(t.w)):
                st.append(f"row[{o + k}] = (u64)({e[t.id]}{'' if k == 0 else f' >> {64 * k}'});")
        c.append("static void store_row(const S*s,u64*row){" + "\n".join(st) + "}")
        c.append("static void load_state(S*s,const u64*row){memset(s,0,sizeof*s);" + "\n".join(ld) + "}")
        self.inoff = {}
        off = 0
        li = []
        pools, npool, pool_off, pct, fixk, fixo = [], [], [], [], [], []
        for n, w in ins:
            self.inoff[n] = off
            li.append(f"in->{iid[n]} = " + " | ".join(
                f"(({ctype(w)})v[{off + k}]{'' if k == 0 else f' << {64 * k}'})" for k in range(nw(w))) + ";")
            off += nw(w)
            b = bias.get(n, {})
            pl = b.get("pool", [])
            npool.append(len(pl))
            pool_off.append(len(pools))
            pools += [p & ((1 << min(w, 64)) - 1) for p in pl]
            pct.append(b.get("pool_pct", 100 if pl else 0))
            fixk.append(b.get("keep", -1))
            fixo.append(b.get("one", -1))
        self.nin = off
        c.append("static void load_in(I*in,const u64*v){memset(in,0,sizeof*in);" + "\n".join(li) + "}")
        arr = lambda ty, nm, xs: f"static const {ty} {nm}[] = {{{','.join(map(str, xs)) + ',' if xs else ''}0}};"
        c.append(f"#define NIN {off}\n#define NI {len(ins)}\n#define NE {len(ensures)}\n#define NROW {self.nrow}")
        rw = [w for _, w in self.cols for _ in range(nw(w))]
        c.append(f"static const int row_w[]={{{','.join(map(str, rw + [99]))}}};")
        c.append(f"const int in_w[]={{{','.join([str(w) for _, w in ins] + ['0'])}}}; const int in_off[]={{{','.join([str(self.inoff[n]) for n, _ in ins] + ['0'])}}};")
        c.append("static const u64 pools[]={" + "".join(f"{p}ull," for p in pools) + "0};")
        c.append(arr("int", "npool", npool) + arr("int", "pool_off", pool_off) + arr("unsigned", "pool_pct", pct)
                 + arr("int", "fixk", fixk) + arr("int", "fixo", fixo))
        c.append(MAIN)
        src = "\n".join(c)
        d = tempfile.mkdtemp(prefix="vfsim")
        try:
            cf, so = os.path.join(d, "s.c"), os.path.join(d, "s.so")
            open(cf, "w").write(src)
            opt = "-O1" if len(src) < 400000 else "-O0"
            r = subprocess.run(["clang", "-std=gnu2x", opt, "-w", "-fbracket-depth=100000", "-shared", "-fPIC", "-o", so, cf],
                               capture_output=True, text=True)
            if r.returncode:
                open("/tmp/vfsim_fail.c", "w").write(src)
                raise RuntimeError("csim compile: " + r.stderr[:2000])
            self.lib = ctypes.CDLL(so)
        finally:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        self.lib.succ.restype = ctypes.c_uint64
        self.lib.walk.restype = ctypes.c_uint64
        self.lib.rtrace.restype = ctypes.c_uint64
        self.ins, self.regs = ins, regs

    @staticmethod
    def _p(a):
        return a.ctypes.data_as(ctypes.c_void_p) if a is not None else None

    def run(self, seed, ncycles, maxlen, rowcap=0, starts=None, ncover=0, want_trace=True):
        tr = np.zeros((maxlen + 1) * max(self.nin, 1), dtype=np.uint64) if want_trace else None
        rows = np.zeros((max(rowcap, 1), self.nrow), dtype=np.uint64)
        res = np.zeros(8, dtype=np.uint64)
        cov = np.zeros(max(ncover, 1), dtype=np.uint64)
        st = None
        if starts is not None:
            st = np.ascontiguousarray(starts, dtype=np.uint64)
        U = ctypes.c_uint64
        self.lib.run(U(seed), U(ncycles), U(maxlen), self._p(tr), self._p(rows), U(rowcap), self._p(st),
                     ctypes.c_int(0 if st is None else len(st)), ctypes.c_int(st is not None),
                     self._p(cov) if ncover else None, self._p(res))
        out = {"viol": bool(res[0]), "ens": int(res[1]), "len": int(res[2]), "rows": rows[:int(res[3])],
               "cycles": int(res[4]), "dead": int(res[5]), "episodes": int(res[6]), "cover": cov[:ncover]}
        if out["viol"] and st is None and want_trace:
            out["trace"] = self.decode(tr, out["len"])
        return out

    def decode(self, tr, n):
        if not n:
            return []
        tr = tr[:n * max(self.nin, 1)].reshape(n, -1)
        out = []
        for t in range(n):
            d = {}
            for name, w in self.ins:
                o = self.inoff[name]
                v = 0
                for k in range(nw(w)):
                    v |= int(tr[t][o + k]) << (64 * k)
                d[name] = v & ((1 << w) - 1)
            out.append(d)
        return out

    def encode_state(self, env):
        row = np.zeros(self.nrow, dtype=np.uint64)
        for n, w in self.regs:
            o = self.coloff[n]
            v = env[n]
            for k in range(nw(w)):
                row[o + k] = (v >> (64 * k)) & (2**64 - 1)
        return row

    def succ(self, seed, env, tries):
        row = self.encode_state(env)
        rows = np.zeros((tries, self.nrow), dtype=np.uint64)
        n = self.lib.succ(ctypes.c_uint64(seed), self._p(row), ctypes.c_uint64(tries), self._p(rows))
        return rows[:n]

    def walk(self, seed, row, walks, length):
        rows = np.zeros((walks * length, self.nrow), dtype=np.uint64)
        row = np.ascontiguousarray(row)
        U = ctypes.c_uint64
        n = self.lib.walk(U(seed), self._p(row), U(walks), U(length), self._p(rows))
        return rows[:n]

    def holds(self, a, rows):
        """a: candidate arrays; -> bool array"""
        n = len(a["ty"])
        ok = np.ones(max(n, 1), dtype=np.uint8)
        keep = [np.ascontiguousarray(a[f]) for f in ("m1", "v1", "m2", "v2", "ty", "ca", "ba", "cb", "bb", "k", "mask")]
        rows = np.ascontiguousarray(rows, dtype=np.uint64)
        self.lib.chk(ctypes.c_uint64(n), *[self._p(x) for x in keep], ctypes.c_uint64(len(rows)), self._p(rows), self._p(ok))
        return ok[:n].astype(bool)

    def random_trace(self, seed, n):
        tr = np.zeros((n + 1) * max(self.nin, 1), dtype=np.uint64)
        k = self.lib.rtrace(ctypes.c_uint64(seed), ctypes.c_uint64(n), self._p(tr))
        return self.decode(tr, int(k))

    def replay(self, trace, rows=False):
        n = len(trace)
        tr = np.zeros((max(n, 1), max(self.nin, 1)), dtype=np.uint64)
        for t, d in enumerate(trace):
            for name, w in self.ins:
                o = self.inoff[name]
                for k in range(nw(w)):
                    tr[t][o + k] = (d[name] >> (64 * k)) & (2**64 - 1)
        res = np.zeros(8, dtype=np.uint64)
        rw = np.zeros((n + 1, self.nrow), dtype=np.uint64) if rows else None
        self.lib.replay(self._p(np.ascontiguousarray(tr)), ctypes.c_uint64(n), self._p(rw), self._p(res))
        return {"kind": int(res[0]), "ens": int(res[1]), "at": int(res[2]), "rows": rw}
