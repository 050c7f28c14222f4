#!/usr/bin/env python3
"""Generates shim/include/open62541/types_generated.h and shim/src/types_table.c
(the type table of the open62541 stand-in) from the list below."""
import os
here=os.path.dirname(os.path.abspath(__file__))
B="Boolean SByte Byte Int16 UInt16 Int32 UInt32 Int64 UInt64 Float Double String DateTime Guid ByteString XmlElement NodeId ExpandedNodeId StatusCode QualifiedName LocalizedText ExtensionObject DataValue Variant DiagnosticInfo".split()
PF={"Boolean","SByte","Byte","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float","Double","DateTime","Guid","StatusCode"}
encid={"Boolean":0}
alias=[("UtcTime","DateTime",294),("Duration","Double",290),("LocaleId","String",295),("IntegerId","UInt32",288),("Counter","UInt32",289),("NumericRange_","String",291)]
alias=[a for a in alias if a[0]!="NumericRange_"]
enums=[("NodeClass",257,[("UNSPECIFIED",0),("OBJECT",1),("VARIABLE",2),("METHOD",4),("OBJECTTYPE",8),("VARIABLETYPE",16),("REFERENCETYPE",32),("DATATYPE",64),("VIEW",128)]),
("BrowseDirection",510,[("FORWARD",0),("INVERSE",1),("BOTH",2),("INVALID",3)]),
("BrowseResultMask",517,[("NONE",0),("REFERENCETYPEID",1),("ISFORWARD",2),("NODECLASS",4),("BROWSENAME",8),("DISPLAYNAME",16),("TYPEDEFINITION",32),("ALL",63),("REFERENCETYPEINFO",3),("TARGETINFO",60)]),
("ServerState",852,[("RUNNING",0),("FAILED",1),("NOCONFIGURATION",2),("SUSPENDED",3),("SHUTDOWN",4),("TEST",5),("COMMUNICATIONFAULT",6),("UNKNOWN",7)])]
ATT=[("SpecifiedAttributes","UInt32"),("DisplayName","LocalizedText"),("Description","LocalizedText"),("WriteMask","UInt32"),("UserWriteMask","UInt32")]
S=[
("Argument",296,298,[("Name","String"),("DataType","NodeId"),("ValueRank","Int32"),("ArrayDimensions","UInt32*"),("Description","LocalizedText")]),
("EnumValueType",7594,8251,[("Value","Int64"),("DisplayName","LocalizedText"),("Description","LocalizedText")]),
("Range",884,886,[("Low","Double"),("High","Double")]),
("EUInformation",887,889,[("NamespaceUri","String"),("UnitId","Int32"),("DisplayName","LocalizedText"),("Description","LocalizedText")]),
("TimeZoneDataType",8912,8917,[("Offset","Int16"),("DaylightSavingInOffset","Boolean")]),
("XVType",12080,12090,[("X","Double"),("Value","Float")]),
("OptionSet",12755,12765,[("Value","ByteString"),("ValidBits","ByteString")]),
("NodeAttributes",349,351,ATT),
("ObjectAttributes",352,354,ATT+[("EventNotifier","Byte")]),
("VariableAttributes",355,357,ATT+[("Value","Variant"),("DataType","NodeId"),("ValueRank","Int32"),("ArrayDimensions","UInt32*"),("AccessLevel","Byte"),("UserAccessLevel","Byte"),("MinimumSamplingInterval","Double"),("Historizing","Boolean")]),
("MethodAttributes",358,360,ATT+[("Executable","Boolean"),("UserExecutable","Boolean")]),
("ObjectTypeAttributes",361,363,ATT+[("IsAbstract","Boolean")]),
("VariableTypeAttributes",364,366,ATT+[("Value","Variant"),("DataType","NodeId"),("ValueRank","Int32"),("ArrayDimensions","UInt32*"),("IsAbstract","Boolean")]),
("ReferenceTypeAttributes",367,369,ATT+[("IsAbstract","Boolean"),("Symmetric","Boolean"),("InverseName","LocalizedText")]),
("DataTypeAttributes",370,372,ATT+[("IsAbstract","Boolean")]),
("ViewAttributes",373,375,ATT+[("ContainsNoLoops","Boolean"),("EventNotifier","Byte")]),
("ViewDescription",511,513,[("ViewId","NodeId"),("Timestamp","DateTime"),("ViewVersion","UInt32")]),
("BrowseDescription",514,516,[("NodeId","NodeId"),("BrowseDirection","BrowseDirection"),("ReferenceTypeId","NodeId"),("IncludeSubtypes","Boolean"),("NodeClassMask","UInt32"),("ResultMask","UInt32")]),
("ReferenceDescription",518,520,[("ReferenceTypeId","NodeId"),("IsForward","Boolean"),("NodeId","ExpandedNodeId"),("BrowseName","QualifiedName"),("DisplayName","LocalizedText"),("NodeClass","NodeClass"),("TypeDefinition","ExpandedNodeId")]),
("BrowseResult",522,524,[("StatusCode","StatusCode"),("ContinuationPoint","ByteString"),("References","ReferenceDescription*")]),
("RelativePathElement",537,539,[("ReferenceTypeId","NodeId"),("IsInverse","Boolean"),("IncludeSubtypes","Boolean"),("TargetName","QualifiedName")]),
]
def lc(s):
    # open62541 lower-cases the first letter (and leading acronyms are kept: EUInformation not a member)
    return s[0].lower()+s[1:]
order=[(b,'b') for b in B]+[(a[0],'a') for a in alias]+[(e[0],'e') for e in enums]+[(s[0],'s') for s in S]
h=["/* generated by shim/gen_types.py */","#ifndef UA_TYPES_GENERATED_H_","#define UA_TYPES_GENERATED_H_","#include <open62541/types.h>","#ifdef __cplusplus","extern \"C\" {","#endif",
"#define UA_TYPES_COUNT %d"%len(order),"extern UA_DataType UA_TYPES[UA_TYPES_COUNT];"]
for i,(n,k) in enumerate(order): h.append("#define UA_TYPES_%s %d"%(n.upper(),i))
for a,b,_ in alias: h.append("typedef UA_%s UA_%s;"%(b,a))
for n,_,v in enums:
    h.append("typedef enum { %s, __UA_%s_FORCE32BIT = 0x7fffffff } UA_%s;"%(", ".join("UA_%s_%s = %d"%(n.upper(),a,c) for a,c in v),n.upper(),n))
for n,_,_,ms in S:
    f=[]
    for m,t in ms:
        if t.endswith('*'): f.append("size_t %sSize; UA_%s *%s;"%(lc(m),t[:-1],lc(m)))
        else: f.append("UA_%s %s;"%(t,lc(m)))
    h.append("typedef struct { %s } UA_%s;"%(" ".join(f),n))
for n,k in order:
    t="UA_"+n; T="UA_TYPES[UA_TYPES_%s]"%n.upper()
    h.append(f"""static inline void {t}_init({t} *p) {{ memset(p, 0, sizeof({t})); }}
static inline {t} *{t}_new(void) {{ return ({t} *)UA_new(&{T}); }}
static inline UA_StatusCode {t}_copy(const {t} *src, {t} *dst) {{ return UA_copy(src, dst, &{T}); }}
static inline void {t}_clear({t} *p) {{ UA_clear(p, &{T}); }}
static inline void {t}_delete({t} *p) {{ UA_delete(p, &{T}); }}""")
    if n not in("NodeId","String"): h.append(f"static inline UA_Boolean {t}_equal(const {t} *a, const {t} *b) {{ return UA_order(a, b, &{T}) == UA_ORDER_EQ; }}")
h.append("UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b);")
h.append("static inline UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }")
for n in "Object Variable Method ObjectType VariableType ReferenceType DataType View".split():
    h.append("extern const UA_%sAttributes UA_%sAttributes_default;"%(n,n))
h+=["#ifdef __cplusplus","}","#endif","#endif"]
open(here+"/include/open62541/types_generated.h","w").write("\n".join(h)+"\n")
c=["/* generated by shim/gen_types.py */","#include <open62541/types.h>"]
def isPF(t):
    if t.endswith('*'): return False
    if t in PF: return True
    if any(e[0]==t for e in enums): return True
    for a,b,_ in alias:
        if a==t: return b in PF
    for n,_,_,ms in S:
        if n==t: return all(isPF(x) for _,x in ms)
    return False
for n,_,_,ms in S:
    rows=[];prev=None
    for m,t in ms:
        f=lc(m); arr=t.endswith('*'); base=t.rstrip('*')
        off="offsetof(UA_%s, %s)"%(n,f+("Size" if arr else ""))
        if prev is None: pad="0"
        else: pad="(UA_Byte)(%s - %s)"%(off,prev)
        rows.append('    {"%s", &UA_TYPES[UA_TYPES_%s], %s, %d, 0}'%(m,base.upper(),pad,1 if arr else 0))
        prev="offsetof(UA_%s, %s) - sizeof(%s)"%(n,f,"void *" if arr else "UA_"+base)
        prev="(offsetof(UA_%s, %s) + sizeof(%s))"%(n,f,"void *" if arr else "UA_"+base)
    c.append("static UA_DataTypeMember %s_members[%d] = {\n%s};"%(n,len(ms),",\n".join(rows)))
c.append("UA_DataType UA_TYPES[UA_TYPES_COUNT] = {")
kinds={b:i for i,b in enumerate(B)}
for i,(n,k) in enumerate(order):
    if k=='b': idn=i+1 if i<22 else {"DataValue":23,"Variant":24,"DiagnosticInfo":25}[n]; mem="NULL"; ms=0; kind=i; enc=0
    if k=='b' and n=="ExtensionObject": idn=22
    if k=='a': a=[x for x in alias if x[0]==n][0]; idn=a[2]; kind=kinds[a[1]]; mem="NULL"; ms=0; enc=0
    if k=='e': idn=[e for e in enums if e[0]==n][0][1]; kind=26; mem="NULL"; ms=0; enc=0
    if k=='s':
        s=[x for x in S if x[0]==n][0]; idn=s[1]; enc=s[2]; kind=27; mem=n+"_members"; ms=len(s[3])
    ov=1 if n in("Boolean","SByte","Byte","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float","Double","DateTime","StatusCode") or k=='e' or (k=='a' and n!="LocaleId") else 0
    c.append('    {"%s", {0, UA_NODEIDTYPE_NUMERIC, {%d}}, {0, UA_NODEIDTYPE_NUMERIC, {%d}}, sizeof(UA_%s), %d, %d, %d, %d, %s},'%(n,idn,enc,n,kind,1 if isPF(n) else 0,ov,ms,mem))
c.append("};")
open(here+"/src/types_table.c","w").write("\n".join(c)+"\n")
