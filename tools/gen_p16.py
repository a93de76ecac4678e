"""Writes harness/pgsql/P16_alias.go: one call per exported converter of /repo/pgsql (run by hand when converters are added)."""
import re,glob
S,V=[],[]
for f in sorted(glob.glob('/repo/pgsql/*.go')):
    if f.endswith('_test.go'): continue
    for l in open(f):
        m=re.match(r'func ([A-Z]\w*To\w*)\(val \*(.*)\) sql\.Scanner',l)
        if m: S.append(m.groups())
        m=re.match(r'func ([A-Z]\w*From\w*)\(val (.*)\) driver\.Valuer',l)
        if m: V.append(m.groups())
T={ # pg type -> texts; # is a digit, @ a letter, % a bit
'Any':['@#'],'BPCharArray':['{@,b}','{"\\\\",@}'],'BPChar':['@'],'BitArray':['{%,%}'],'BoolArray':['{t,f}'],'BoxArray':['{(#,2),(1,#);(4,3),(2,1)}'],'Box':['(#,2),(1,#)'],
'ByteaArray':['{"\\\\x0#","\\\\xa#"}','{"\\\\x"}'],'CIDRArray':['{10.#.0.0/16,1.2.3.0/24}'],'CIDR':['10.#.0.0/16'],'CharArray':['{@,b}','{"\\\\",@}'],'Char':['@'],
'DateArray':['{2001-02-03,1999-12-31}'],'DateRangeArray':['{"[2001-02-03,2002-03-04)"}'],'DateRange':['[2001-02-03,2002-03-04)'],'Date':['2001-02-03'],
'Float4Array':['{#,2}'],'Float8Array':['{#,2}'],'HStoreArray':['{"\\"@\\"=>\\"#\\"","\\"b\\"=>NULL"}'],'HStore':['"@"=>"#", "bb"=>NULL'],
'InetArray':['{10.#.0.1,1.2.3.4/24}'],'Inet':['10.#.0.1','10.#.0.1/8'],'Int2Array':['{1#,2}'],'Int2VectorArray':['{"# 2",3}'],'Int2Vector':['# 2'],'Int4Array':['{#,2}'],
'Int4RangeArray':['{"[#,12)",empty}'],'Int4Range':['[#,12)'],'Int8Array':['{#,2}'],'Int8RangeArray':['{"[#,12)"}'],'Int8Range':['[#,12)'],
'JSONArray':['{"{\\"@\\":#}",#}'],'LineArray':['{"{#,2,3}"}'],'Line':['{#,2,3}'],'LsegArray':['{"[(#,2),(3,4)]"}'],'Lseg':['[(#,2),(3,4)]'],
'MACAddr8Array':['{01:02:03:04:05:06:07:0#}'],'MACAddr8':['01:02:03:04:05:06:07:0#'],'MACAddrArray':['{01:02:03:04:05:0#}'],'MACAddr':['01:02:03:04:05:0#'],
'MoneyArray':['{$#.50,"$1,23#.00"}'],'Money':['$#.50'],'NumRangeArray':['{"[#,12)"}'],'NumRange':['[#,12)'],'NumericArray':['{#,2}'],
'PathArray':['{"[(#,2),(3,4)]"}'],'Path':['[(#,2),(3,4)]'],'PointArray':['{"(#,2)"}'],'Point':['(#,2)'],'PolygonArray':['{"((#,2),(3,4))"}'],'Polygon':['((#,2),(3,4))'],
'TSQueryArray':["{'@',\"'b' & '@'\"}"],'TSVectorArray':["{'@',\"'b' '@'\"}"],'TSVector':["'@' 'bc'"],
'TextArray':['{@,"b,\\\\@",""}'],'VarCharArray':['{@,"b,\\\\@"}'],'XMLArray':['{<@/>,"<b c=\\"@\\"/>"}'],
'TimeArray':['{01:02:03}'],'Time':['01:02:03'],'TimestampArray':['{"2001-02-03 04:05:06"}'],'TimestamptzArray':['{"2001-02-03 04:05:06+00"}'],'TimetzArray':['{01:02:03+00:00}'],'Timetz':['01:02:03+00:00'],
'TsRangeArray':['{"[\\"2001-02-03 04:05:06\\",\\"2002-02-03 04:05:06\\")"}'],'TsRange':['["2001-02-03 04:05:06","2002-02-03 04:05:06")'],
'TstzRangeArray':['{"[\\"2001-02-03 04:05:06+00\\",\\"2002-02-03 04:05:06+00\\")"}'],'TstzRange':['["2001-02-03 04:05:06+00","2002-02-03 04:05:06+00")'],
'UUIDArray':['{#0000000-0000-0000-0000-0000000000a#}'],'UUID':['#0000000-0000-0000-0000-0000000000a#'],'VarBitArray':['{%1,1%0}'],'VarBit':['1%0'],
}
def split(t):
    if t=='interface{}': return 'vpScanAny',None
    if t=='net.IPNet': return 'vpScanNet',None
    if t=='[]net.IPNet': return 'vpScanNets',None
    if t in('net.IP','net.HardwareAddr'): return 'vpScanS',None
    if t in('[]net.IP','[]net.HardwareAddr'): return 'vpScanSS',None
    if t.startswith('map['): return 'vpScanM',None
    if t.startswith('[]map['): return 'vpScanSM',None
    if t=='[]byte': return 'vpScanS',None
    if t.startswith('[][][]'): return 'vpScanSSS',None
    if t.startswith('[][]'): return 'vpScanSS',None
    if t.startswith('[]'): return 'vpScanS',None
    return 'vpScanC',None
calls=[]
for n,t in S:
    pg=n.split('To')[0]
    if n.startswith('To'): continue
    key=pg
    if key not in T: raise SystemExit('no text for '+n)
    calls.append('%s(%s, %s, %s)'%(split(t)[0],'"%s"'%n,n,', '.join('`%s`'%x for x in T[key])))
vals=[]
for n,t in V:
    if not (t.startswith('[]') or t.startswith('map[')or t in('net.IP','net.HardwareAddr')): continue
    f={'vpScanS':'vpFromS','vpScanSS':'vpFromSS','vpScanSSS':'vpFromSSS','vpScanM':'vpFromM','vpScanSM':'vpFromSM','vpScanNets':'vpFromNets'}[split(t)[0]]
    vals.append('%s("%s", %s)'%(f,n,n))
out='package pgsql\n\n// Generated by tools/gen_p16.py.\n\n'
def emit(kind,cs,N):
    out=''
    for k in range(0,len(cs),N):
        ch=cs[k:k+N]
        out+='func VP_P16_%s%d() {\n\tvpReach("run")\n\tswitch vpChoose(%d) {\n'%(kind,k//N+1,len(ch))
        for i,c in enumerate(ch):
            out+='\t%s:\n\t\t%s\n'%('case %d'%i if i<len(ch)-1 else 'default',c)
        out+='\t}\n}\n\n'
    return out
out+=emit('Scan',calls,40)+emit('Value',vals,60)
open('/verif/harness/pgsql/P16_alias.go','w').write(out)
print(len(calls),len(vals))
