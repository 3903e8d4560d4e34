#!/usr/bin/env python3
"""Builds pbt/ref/ucd17.txt, the pinned copy of Unicode 17.0.0's segmentation
properties that the oracle uses, from a directory of UCD files.
Run once, by hand; the checks never run it:  mkucd.py UCDDIR > ucd17.txt
Each line: FIRST LAST GCB EP INCB (hex range; '-' = none)."""
import sys
B=sys.argv[1]+'/'
def rd(f):
    for l in open(B+f,encoding='utf8'):
        l=l.split('#')[0].strip()
        if ';' not in l: continue
        p=[x.strip() for x in l.split(';')]
        a,_,b=p[0].partition('..'); b=b or a
        for c in range(int(a,16),int(b,16)+1): yield c,p[1:]
g={};e=set();i={}
for c,p in rd('auxiliary/GraphemeBreakProperty.txt'):
    assert c not in g; g[c]=p[0]
for c,p in rd('emoji/emoji-data.txt'):
    if p[0]=='Extended_Pictographic': assert c not in e; e.add(c)
for c,p in rd('DerivedCoreProperties.txt'):
    if p[0]=='InCB': assert c not in i; i[c]=p[1]
def key(c): return (g.get(c,'-'),'EP' if c in e else '-',i.get(c,'-'))
print('# Unicode 17.0.0 Grapheme_Cluster_Break, Extended_Pictographic, Indic_Conjunct_Break')
print('# Data derived from the Unicode Character Database, (c) Unicode, Inc., Unicode License V3')
st=0
for c in range(1,0x110001):
    if c==0x110000 or key(c)!=key(st):
        if key(st)!=('-','-','-'): print('%04X %04X %s %s %s'%((st,c-1)+key(st)))
        st=c
