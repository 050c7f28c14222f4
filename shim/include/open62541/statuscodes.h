#ifndef UA_STATUSCODES_H_
#define UA_STATUSCODES_H_
#define UA_STATUSCODE_INFOTYPE_DATAVALUE 0x00000400
#define UA_STATUSCODE_INFOBITS_OVERFLOW 0x00000080
#define UA_STATUSCODE_GOOD 0x00000000
#define UA_STATUSCODE_UNCERTAIN 0x40000000
#define UA_STATUSCODE_BAD 0x80000000
#define UA_STATUSCODE_BADUNEXPECTEDERROR 0x80010000
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000
#define UA_STATUSCODE_BADRESOURCEUNAVAILABLE 0x80040000
#define UA_STATUSCODE_BADENCODINGERROR 0x80060000
#define UA_STATUSCODE_BADDECODINGERROR 0x80070000
#define UA_STATUSCODE_BADNODEIDINVALID 0x80330000
#define UA_STATUSCODE_BADNODEIDUNKNOWN 0x80340000
#define UA_STATUSCODE_BADATTRIBUTEIDINVALID 0x80350000
#define UA_STATUSCODE_BADNOTFOUND 0x803e0000
#define UA_STATUSCODE_BADNOTIMPLEMENTED 0x80400000
#define UA_STATUSCODE_BADREFERENCETYPEIDINVALID 0x804c0000
#define UA_STATUSCODE_BADBROWSEDIRECTIONINVALID 0x804d0000
#define UA_STATUSCODE_BADPARENTNODEIDINVALID 0x805b0000
#define UA_STATUSCODE_BADREFERENCENOTALLOWED 0x805c0000
#define UA_STATUSCODE_BADNODEIDREJECTED 0x805d0000
#define UA_STATUSCODE_BADNODEIDEXISTS 0x805e0000
#define UA_STATUSCODE_BADNODECLASSINVALID 0x805f0000
#define UA_STATUSCODE_BADBROWSENAMEINVALID 0x80600000
#define UA_STATUSCODE_BADBROWSENAMEDUPLICATED 0x80610000
#define UA_STATUSCODE_BADNODEATTRIBUTESINVALID 0x80620000
#define UA_STATUSCODE_BADTYPEDEFINITIONINVALID 0x80630000
#define UA_STATUSCODE_BADSOURCENODEIDINVALID 0x80640000
#define UA_STATUSCODE_BADTARGETNODEIDINVALID 0x80650000
#define UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED 0x80660000
#define UA_STATUSCODE_BADTYPEMISMATCH 0x80740000
#define UA_STATUSCODE_BADINVALIDARGUMENT 0x80ab0000
#define UA_STATUSCODE_BADINVALIDSTATE 0x80af0000
#endif
