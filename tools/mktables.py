#!/usr/bin/env python3
"""One-off: snapshot redsea's static code tables into sim/ref_tables.hpp.
The snapshot is committed; checks never run this (C93 explains why the tables themselves are not judged)."""
import re,sys
R='/repo/src/'
t=open(R+'tables.cc',encoding='utf8').read(); g=open(R+'groups.cc',encoding='utf8').read()
e=open(R+'tmc/events_data.cc',encoding='utf8').read(); s=open(R+'text/rdsstring.cc',encoding='utf8').read()
STR=r'"(?:[^"\\]|\\.)*"'
def body(src,name,openc='{'):
    i=src.index(name)+len(name); i=src.index(openc,i)
    depth=0; j=i; instr=False
    while True:
        c=src[j]
        if instr:
            if c=='\\': j+=1
            elif c=='"': instr=False
        elif c=='"': instr=True
        elif c=='{' or c=='(' : depth+=1
        elif c=='}' or c==')' :
            depth-=1
            if depth==0: return src[i:j+1]
        elif c=='/' and src[j+1]=='/':
            j=src.index('\n',j)
        j+=1
def strs(b): return re.findall(STR,b)
def num(x): return x.replace("'","")
o=['// Generated once by tools/mktables.py: code tables the reference model uses.','#pragma once','#include <array>','#include <cstdint>','#include <map>','#include <string>','#include <vector>','namespace ref {']
def arr(n,b): o.append('static const std::vector<std::string> %s{%s};'%(n,',\n'.join(strs(b))))
def carr(n,b): o.append('static const char* const %s[]{%s};'%(n,',\n'.join(strs(b))))
def mp(n,b):
    o.append('static const std::map<uint32_t,std::string> %s{%s};'%(n,',\n'.join('{%s,%s}'%(num(k),v) for k,v in re.findall(r"\{\s*(0x[0-9A-Fa-f]+|[\d']+)\s*,\s*("+STR+r")\s*\}",b))))
arr('kPty',body(t,'pty_names')); arr('kPtyRbds',body(t,'pty_names_rbds')); arr('kLang',body(t,'> languages'))
arr('kRtPlus',body(t,'content_type_names')); arr('kDi',body(t,'di_codes')); mp('kApps',body(t,'oda_apps'))
cb=body(t,'country_codes')
o.append('static const std::map<uint32_t,std::vector<std::string>> kCountry{%s};'%',\n'.join('{%s,{%s}}'%(k,','.join(strs(v))) for k,v in re.findall(r'\{(0x[0-9A-F]{2}),\s*\{([^}]*)\}',cb)))
mp('kDab',body(g,'dab_channels','(')); carr('kG0',body(s,'codetable_G0','(')); mp('kCall3',body(t,'three_letter_codes')); mp('kCallLinked',body(t,'linked_station_codes'))
carr('kEvents',body(e,'tmc_data_events')); carr('kSuppl',body(e,'tmc_data_suppl'))
o.append('}  // namespace ref')
open('/verif/sim/ref_tables.hpp','w',encoding='utf8').write('\n'.join(o)+'\n')
