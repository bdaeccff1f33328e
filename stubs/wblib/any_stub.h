#pragma once
#include <map>
#include <unordered_map>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <future>
#include <mutex>
#include <optional>
#include <chrono>
namespace WBMQTT
{
    template<class T> class TFuture
    {
    public:
        T GetValue() const;
        void Wait() const;
        bool IsReady() const;
        template<class F> auto Then(F&& f) const;
        void Sync();
    };
    template<> class TFuture<void>
    {
    public:
        void GetValue() const;
        void Wait() const;
        void Sync();
        bool IsReady() const;
    };
    class TAny
    {
    public:
        template<class T> const T& As() const;
        template<class T> bool Is() const;
        TAny();
        template<class T> TAny(const T&);
    };
    class TControl;
    class TDevice;
    class TLocalDevice;
    class TDriverTx;
    class TDeviceDriver;
    class TDriverBackend;
    class TMqttClient;
    class TMqttRpcServer;
    using PControl = std::shared_ptr<TControl>;
    using PDevice = std::shared_ptr<TDevice>;
    using PLocalDevice = std::shared_ptr<TLocalDevice>;
    using PDriverTx = std::unique_ptr<TDriverTx>;
    using PDeviceDriver = std::shared_ptr<TDeviceDriver>;
    using PDriverBackend = std::shared_ptr<TDriverBackend>;
    using PMqttClient = std::shared_ptr<TMqttClient>;
    using PMqttRpcServer = std::shared_ptr<TMqttRpcServer>;

    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval;
        void Set(int maxUnchangedIntervalS);
    };

    using TTitleTranslations = std::unordered_map<std::string, std::string>;
    struct TControlArgs
    {
        TControlArgs& SetId(const std::string&);
        TControlArgs& SetType(const std::string&);
        TControlArgs& SetUnits(const std::string&);
        TControlArgs& SetReadonly(bool);
        TControlArgs& SetDurable(bool = true);
        TControlArgs& SetEnumValueTitles(const std::string&, const TTitleTranslations&);
        TControlArgs& SetHidden(bool);
        TControlArgs& SetMax(double);
        TControlArgs& SetMin(double);
        TControlArgs& SetPrecision(double);
        TControlArgs& SetOrder(int);
        TControlArgs& SetError(const std::string&);
        TControlArgs& SetRawValue(const std::string&);
        TControlArgs& SetValue(const std::string&);
        TControlArgs& SetTitle(const std::string&, const std::string& lang = "en");
        TControlArgs& SetTitleTranslations(const TTitleTranslations&);
        TControlArgs& SetTitle(const TTitleTranslations&);
        TControlArgs& SetEnumTitles(const std::string&, const TTitleTranslations&);
        TControlArgs& SetEnumTitles(const std::map<std::string, TTitleTranslations>&);
        TControlArgs& SetDoLoadPrevious(bool);
        TControlArgs& SetUserData(const TAny&);
        template<class T> TControlArgs& SetUserData(const T&);
    };
    struct TLocalDeviceArgs
    {
        TLocalDeviceArgs& SetId(const std::string&);
        TLocalDeviceArgs& SetTitle(const std::string&);
        TLocalDeviceArgs& SetIsVirtual(bool);
        TLocalDeviceArgs& SetDoLoadPrevious(bool);
        TLocalDeviceArgs& SetUserData(const TAny&);
        TLocalDeviceArgs& SetError(const std::string&);
        TLocalDeviceArgs& SetDriver(const std::string&);
    };
    class TControl
    {
    public:
        virtual ~TControl();
        const std::string& GetId() const;
        PDevice GetDevice() const;
        TFuture<void> SetRawValue(const PDriverTx&, const std::string&);
        TFuture<void> UpdateRawValueAndError(const PDriverTx&, const std::string&, const std::string&);
        TFuture<void> UpdateValueAndError(const PDriverTx&, const std::string&, const std::string&);
        TFuture<void> SetError(const PDriverTx&, const std::string&);
        TFuture<void> SetEnumTitles(const PDriverTx&, const std::map<std::string, TTitleTranslations>&);
        const TAny& GetUserData() const;
        void SetUserData(const TAny&);
        template<class T> void SetUserData(const T&);
        std::string GetError() const;
        bool HasError() const;
        std::string GetRawValue() const;
        void SetReadonly(const PDriverTx&, bool);
    };
    class TDevice
    {
    public:
        virtual ~TDevice();
        const std::string& GetId() const;
        PControl GetControl(const std::string&) const;
        template<class T> T GetUserData() const;
        std::vector<PControl> ControlsList() const;
        TFuture<void> SetError(const PDriverTx&, const std::string&);
    };
    class TLocalDevice: public TDevice
    {
    public:
        TFuture<PControl> CreateControl(const PDriverTx&, const TControlArgs&);
        TFuture<PControl> RemoveControl(const PDriverTx&, const std::string&);
        TFuture<PControl> RemoveControl(const PDriverTx&, const PControl&);
        TFuture<void> RemoveUnusedControls(const PDriverTx&);
    };
    class TDriverTx
    {
    public:
        virtual ~TDriverTx();
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs&);
        TFuture<void> RemoveDeviceById(const std::string&);
        TFuture<void> RemoveDevice(const PDevice&);
        PDevice GetDevice(const std::string&);
        void End();
    };
    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
        TAny Value;
    };
    struct TDriverArgs
    {
        TDriverArgs& SetId(const std::string&);
        TDriverArgs& SetBackend(const PDriverBackend&);
        TDriverArgs& SetUseStorage(bool);
        TDriverArgs& SetReownUnknownDevices(bool);
        TDriverArgs& SetStoragePath(const std::string&);
    };
    class TDeviceDriver
    {
    public:
        virtual ~TDeviceDriver();
        PDriverTx BeginTx();
        template<class F> void AccessAsync(F&& f);
        void StartLoop();
        void StopLoop();
        void Close();
        void Clear();
        void WaitForReady();
        template<class E> void On(std::function<void(const E&)> f);
        void RemoveUnusedControls();
    };
    PDriverBackend NewDriverBackend(const PMqttClient&);
    PDeviceDriver NewDriver(const TDriverArgs&);
    PDeviceDriver NewDriver(PDriverBackend, const std::string&, bool);
    struct TMqttMessage
    {
        std::string Topic;
        std::string Payload;
        uint8_t Qos;
        bool Retained;
        TMqttMessage(const std::string& topic, const std::string& payload, uint8_t qos, bool retained);
    };
    class TMqttClient
    {
    public:
        virtual ~TMqttClient();
        TFuture<void> Publish(const TMqttMessage&);
        TFuture<void> PublishSynced(const TMqttMessage&);
        void Subscribe(std::function<void(const TMqttMessage&)>, const std::string&);
        void Start();
        void Stop();
        void WaitForReady();
    };
    struct TMosquittoMqttConfig
    {
        int Port;
        std::string Host, Id, User, Password, Prefix;
    };
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&);
}
