#pragma once
// Declarations only: enough of gurux for the analyser's front end.
#include <map>
#include <string>
#include <vector>
enum DLMS_SECURITY { DLMS_SECURITY_NONE = 0 };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE, DLMS_AUTHENTICATION_LOW, DLMS_AUTHENTICATION_HIGH, DLMS_AUTHENTICATION_HIGH_MD5, DLMS_AUTHENTICATION_HIGH_SHA1, DLMS_AUTHENTICATION_HIGH_GMAC, DLMS_AUTHENTICATION_HIGH_SHA256, DLMS_AUTHENTICATION_HIGH_ECDSA };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC, DLMS_INTERFACE_TYPE_WRAPPER };
enum DLMS_OBJECT_TYPE { DLMS_OBJECT_TYPE_NONE = 0, DLMS_OBJECT_TYPE_REGISTER = 3, DLMS_OBJECT_TYPE_PROFILE_GENERIC = 7, DLMS_OBJECT_TYPE_SAP_ASSIGNMENT = 17 };
enum DLMS_ERROR_CODE { DLMS_ERROR_CODE_FALSE = -1, DLMS_ERROR_CODE_OK = 0, DLMS_ERROR_CODE_APPLICATION_CONTEXT_NAME_NOT_SUPPORTED = 1000 };
class CGXByteBuffer
{
public:
    CGXByteBuffer();
    CGXByteBuffer(const CGXByteBuffer&);
    ~CGXByteBuffer();
    unsigned char* GetData();
    unsigned long GetSize();
    void Set(const void*, unsigned long);
};
class CGXDLMSVariant
{
public:
    bool IsNumber();
    double ToDouble();
};
class CGXReplyData
{
public:
    CGXReplyData();
    ~CGXReplyData();
    bool IsMoreData();
    int GetMoreData();
    CGXByteBuffer& GetData();
    CGXDLMSVariant& GetValue();
};
class CGXDLMSObject
{
public:
    virtual ~CGXDLMSObject();
    DLMS_OBJECT_TYPE GetObjectType();
    int GetLogicalName(std::string&);
    virtual void GetValues(std::vector<std::string>&);
    virtual void GetAttributeIndexToRead(bool, std::vector<int>&);
};
class CGXDLMSCustomObject: public CGXDLMSObject
{};
class CGXDLMSRegister: public CGXDLMSObject
{
public:
    int GetUnit();
    CGXDLMSVariant GetValue();
};
class CGXDLMSSapAssignment: public CGXDLMSObject
{
public:
    std::map<int, std::string> GetSapAssignmentList();
};
class CGXDLMSObjectCollection: public std::vector<CGXDLMSObject*>
{
public:
    CGXDLMSObject* FindByLN(DLMS_OBJECT_TYPE, std::string&);
};
class CGXDLMSObjectFactory
{
public:
    static CGXDLMSObject* CreateObject(DLMS_OBJECT_TYPE);
    static CGXDLMSObject* CreateObject(DLMS_OBJECT_TYPE, std::string);
};
class CGXDLMSConverter
{
public:
    static const char* GetErrorMessage(int);
    static const char* ToString(DLMS_OBJECT_TYPE);
    void GetDescription(std::string&, DLMS_OBJECT_TYPE, std::vector<std::string>&);
};
class CGXStandardObisCode
{
public:
    CGXStandardObisCode(std::vector<std::string>, std::string&, std::string&, std::string&);
    const std::string& GetDescription();
};
class CGXStandardObisCodeCollection: public std::vector<CGXStandardObisCode*>
{
public:
    int Find(std::string, DLMS_OBJECT_TYPE, std::vector<CGXStandardObisCode*>&);
};
class GXHelpers
{
public:
    static std::vector<std::string> Split(const std::string&, const char*, bool);
};
class CGXCiphering
{
public:
    DLMS_SECURITY GetSecurity();
};
class CGXDLMSSecureClient
{
public:
    CGXDLMSSecureClient(bool, int, int, DLMS_AUTHENTICATION, const char*, DLMS_INTERFACE_TYPE);
    int Read(CGXDLMSObject*, int, std::vector<CGXByteBuffer>&);
    int UpdateValue(CGXDLMSObject&, int, CGXDLMSVariant&);
    CGXDLMSObjectCollection& GetObjects();
    DLMS_INTERFACE_TYPE GetInterfaceType();
    DLMS_AUTHENTICATION GetAuthentication();
    CGXCiphering* GetCiphering();
    int ReleaseRequest(std::vector<CGXByteBuffer>&);
    int DisconnectRequest(std::vector<CGXByteBuffer>&, bool);
    int SNRMRequest(std::vector<CGXByteBuffer>&);
    int ParseUAResponse(CGXByteBuffer&);
    int AARQRequest(std::vector<CGXByteBuffer>&);
    int ParseAAREResponse(CGXByteBuffer&);
    int GetApplicationAssociationRequest(std::vector<CGXByteBuffer>&);
    int ParseApplicationAssociationResponse(CGXByteBuffer&);
    int ReceiverReady(int, CGXByteBuffer&);
    int GetData(CGXByteBuffer&, CGXReplyData&);
    int GetObjectsRequest(std::vector<CGXByteBuffer>&);
    int ParseObjects(CGXByteBuffer&, bool);
};
