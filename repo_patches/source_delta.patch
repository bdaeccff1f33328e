From ba5ae6c618f878c4be572d288e36f6400ad83506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 01/31] fix: report the responding device's address in Modbus
 RTU transaction result

---
 src/modbus_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..8f3f372 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -227,7 +227,7 @@ Modbus::TReadResult Modbus::TModbusRTUTraits::Transaction(TPort& port,
 
     TReadResult res;
     res.ResponseTime = readRes.ResponseTime;
-    res.SlaveId = slaveId;
+    res.SlaveId = response[0];
     res.Pdu.assign(response.begin() + 1, response.begin() + (readRes.Count - CRC_SIZE));
     return res;
 }
-- 
2.43.0


From 253d7a3405ab279dfcb1f6303e52d5733f09dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 02/31] fix: treat a Modbus exception response with code 0 as
 an error, not as data

---
 src/modbus_base.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 8f3f372..c7e6bf5 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -14,7 +14,7 @@ namespace
     std::string GetModbusExceptionMessage(uint8_t code)
     {
         if (code == 0) {
-            return std::string();
+            return "invalid modbus error code (0)";
         }
         // clang-format off
         const char* errs[] =
@@ -39,11 +39,8 @@ namespace
     }
 
     // throws C++ exception on modbus error code
-    void ThrowIfModbusException(uint8_t code)
+    [[noreturn]] void ThrowModbusException(uint8_t code)
     {
-        if (code == 0) {
-            return;
-        }
         throw Modbus::TModbusExceptionError(code);
     }
 
@@ -421,7 +418,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
     }
 
     if (IsException(pdu[0])) {
-        ThrowIfModbusException(pdu[1]);
+        ThrowModbusException(pdu[1]);
     }
 
     auto function = GetFunction(functionCode);
-- 
2.43.0


From 380257102d67593b994bc434265b068520fbcbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 03/31] fix: decode a byte stuffing sequence at the very end of
 the data

---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From 108ccc9133bb86f1987a609de436fa9777e331e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 04/31] fix: a port error before a fast Energomera read ended
 the service

---
 src/devices/energomera_iec_device.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index f1db199..d3c03cc 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -231,10 +231,10 @@ void TEnergomeraIecWithFastReadDevice::ReadRegisterRange(TPort& port, PRegisterR
         throw std::runtime_error("TEnergomeraRegisterRange expected");
     }
 
-    port.CheckPortOpen();
-    port.SkipNoise();
-
     try {
+        port.CheckPortOpen();
+        port.SkipNoise();
+
         range->UpdateMasks();
         SendFastGroupReadRequest(port, *range, SlaveId);
 
-- 
2.43.0


From 1758050df6fad6a5ea8bb4702d1024cac969079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 05/31] fix: a garbled IVTM reply ended the service

---
 src/devices/ivtm_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index eea57fd..88ba91a 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -67,7 +67,11 @@ bool TIVTMDevice::DecodeASCIIBytes(uint8_t* buf, uint8_t* result, uint8_t len_by
 uint8_t TIVTMDevice::DecodeASCIIByte(uint8_t* buf)
 {
     std::string s(buf, buf + 2);
-    return stoul(s, nullptr, 16);
+    try {
+        return stoul(s, nullptr, 16);
+    } catch (const std::logic_error& e) {
+        throw TSerialDeviceTransientErrorException("invalid hexadecimal digits in response");
+    }
 }
 
 uint16_t TIVTMDevice::DecodeASCIIWord(uint8_t* buf)
-- 
2.43.0


From b69eb2c9a15ccf59966d15e0467b84472c6ebad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 06/31] fix: writing a value of the wrong type to a register
 ended the service

---
 src/register_value.cpp | 8 ++++----
 src/register_value.h   | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/register_value.cpp b/src/register_value.cpp
index 0d6804a..c2de83d 100644
--- a/src/register_value.cpp
+++ b/src/register_value.cpp
@@ -16,8 +16,8 @@ namespace
     }
 }
 
-TRegisterValueException::TRegisterValueException(const char* file, int line, const std::string& message)
-    : WBMQTT::TBaseException(file, line, message)
+TRegisterValueException::TRegisterValueException(const std::string& message)
+    : TSerialDeviceInternalErrorException(message)
 {}
 
 template<> uint64_t TRegisterValue::Get<>() const
@@ -169,14 +169,14 @@ TRegisterValue::ValueType TRegisterValue::GetType() const
 void TRegisterValue::CheckIntegerValue() const
 {
     if (Type != ValueType::Integer) {
-        wb_throw(TRegisterValueException, ("Value is not Integer: " + GetTypeName(Type)));
+        throw TRegisterValueException("Value is not Integer: " + GetTypeName(Type));
     }
 }
 
 void TRegisterValue::CheckStringValue() const
 {
     if (Type != ValueType::String) {
-        wb_throw(TRegisterValueException, ("Value is not String: " + GetTypeName(Type)));
+        throw TRegisterValueException("Value is not String: " + GetTypeName(Type));
     }
 }
 
diff --git a/src/register_value.h b/src/register_value.h
index cb82906..c23198f 100644
--- a/src/register_value.h
+++ b/src/register_value.h
@@ -9,11 +9,13 @@
 #include <wblib/exceptions.h>
 #include <wblib/utils.h>
 
-class TRegisterValueException: public WBMQTT::TBaseException
+#include "serial_exc.h"
+
+class TRegisterValueException: public TSerialDeviceInternalErrorException
 {
 public:
     explicit TRegisterValueException() = delete;
-    TRegisterValueException(const char* file, int line, const std::string& message);
+    TRegisterValueException(const std::string& message);
 };
 
 class TRegisterValue
-- 
2.43.0


From b307b4109729d98512b3c27e2ff525011e4a3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 07/31] fix: a failure to change serial port settings ended the
 service

---
 src/port/serial_port.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/port/serial_port.cpp b/src/port/serial_port.cpp
index 67179ee..f369d9e 100644
--- a/src/port/serial_port.cpp
+++ b/src/port/serial_port.cpp
@@ -196,11 +196,11 @@ void TSerialPort::ApplySerialPortSettings(const TSerialPortConnectionSettings& s
     MakeTermios(settings, dev);
 
     if (tcsetattr(Fd, TCSANOW, &dev) != 0) {
-        throw std::runtime_error("can't set termios attributes" + FormatErrno(errno));
+        throw TSerialDeviceException("can't set termios attributes" + FormatErrno(errno));
     }
 
     if (tcflush(Fd, TCIOFLUSH) != 0) {
-        throw std::runtime_error("can't flush port" + FormatErrno(errno));
+        throw TSerialDeviceException("can't flush port" + FormatErrno(errno));
     }
 
     Settings.Set(settings);
-- 
2.43.0


From 2150f9f06e1ddf1d5d93056c4a5a683bedc5cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 08/31] fix: events requested for a write-only register ended
 the service

---
 src/serial_client_events_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..666a19c 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -352,7 +352,9 @@ void TSerialClientEventsReader::SetDevices(const std::list<PSerialDevice>& devic
 {
     for (const auto& dev: devices) {
         for (const auto& reg: dev->GetRegisters()) {
-            if (reg->GetConfig()->SporadicMode != TRegisterConfig::TSporadicMode::DISABLED) {
+            if (reg->GetConfig()->SporadicMode != TRegisterConfig::TSporadicMode::DISABLED &&
+                reg->GetConfig()->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY)
+            {
                 auto dev = ToModbusDevice(reg->Device().get());
                 if (dev != nullptr) {
                     TEventsReaderRegisterDesc regDesc{
-- 
2.43.0


From a06690a559813bdfe87f6b856b728ad6dc4cebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 09/31] fix: a device version with a huge number ended the
 service

---
 src/common_utils.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/common_utils.cpp b/src/common_utils.cpp
index bffc97d..747d91f 100644
--- a/src/common_utils.cpp
+++ b/src/common_utils.cpp
@@ -1,7 +1,9 @@
 #include "common_utils.h"
 #include <algorithm>
+#include <limits>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace
@@ -9,6 +11,16 @@ namespace
     const std::unordered_map<char, std::string> ConvertToMqttStringMap =
         {{'\'', "|"}, {'"', "|"}, {'/', "|"}, {'+', "_plus_"}, {'$', "_"}, {'#', "_"}};
 
+    // A number that doesn't fit in int is treated as a very big one
+    static int ParseVersionNumber(const std::string& number)
+    {
+        try {
+            return std::stoi(number);
+        } catch (const std::out_of_range&) {
+            return std::numeric_limits<int>::max() - 128;
+        }
+    }
+
     static std::vector<int> ParseVersionString(const std::string& version)
     {
         std::string buffer;
@@ -16,7 +28,7 @@ namespace
         std::vector<int> list;
         while (getline(stream, buffer, '.')) {
             if (std::regex_match(buffer, std::regex("^[0-9]+$"))) {
-                list.push_back(std::stoi(buffer));
+                list.push_back(ParseVersionNumber(buffer));
                 continue;
             }
             if (std::regex_match(buffer, std::regex("^[0-9]+(-rc|\\+wb)[0-9]+$"))) {
@@ -26,8 +38,8 @@ namespace
                     index = buffer.find("+wb");
                     offset = 128;
                 }
-                list.push_back(std::stoi(buffer.substr(0, index)));
-                list.push_back(std::stoi(buffer.substr(index + 3)) + offset);
+                list.push_back(ParseVersionNumber(buffer.substr(0, index)));
+                list.push_back(ParseVersionNumber(buffer.substr(index + 3)) + offset);
                 continue;
             }
             list.push_back(0);
-- 
2.43.0


From 08b26ca53351b40d2090068d8075f54982669e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 10/31] fix: device/Set without items was executed and answered
 twice

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From 4c56bd285acc823bb8c6baec1e889bd641f03ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 11/31] fix: a fw-update request that could not be started was
 answered by an empty callback

---
 src/rpc/rpc_fw_update_handler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_fw_update_handler.cpp b/src/rpc/rpc_fw_update_handler.cpp
index 76faee3..a4b2942 100644
--- a/src/rpc/rpc_fw_update_handler.cpp
+++ b/src/rpc/rpc_fw_update_handler.cpp
@@ -254,8 +254,8 @@ void TRPCFwUpdateHandler::GetFirmwareInfo(const Json::Value& request,
                                                              ReleaseSuite,
                                                              params.PortSettings,
                                                              Downloader,
-                                                             std::move(onResult),
-                                                             std::move(onError));
+                                                             onResult,
+                                                             onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         onError(WBMQTT::E_RPC_SERVER_ERROR, e.what());
@@ -289,8 +289,8 @@ void TRPCFwUpdateHandler::Update(const Json::Value& request,
                                                                 Downloader,
                                                                 State,
                                                                 UpdateLock,
-                                                                std::move(onResult),
-                                                                std::move(onError));
+                                                                onResult,
+                                                                onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
@@ -335,8 +335,8 @@ void TRPCFwUpdateHandler::Restore(const Json::Value& request,
                                                      Downloader,
                                                      State,
                                                      UpdateLock,
-                                                     std::move(onResult),
-                                                     std::move(onError));
+                                                     onResult,
+                                                     onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
-- 
2.43.0


From 1b85b1b72ad649471a2d4f964a9d3f0a533dfbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 12/31] fix: a request with device_id dereferenced a null
 serial driver

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 1025931..a51dc12 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -126,7 +126,7 @@ TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::V
     TSerialClientParams params;
 
     auto deviceId = request["device_id"];
-    if (deviceId.isString()) {
+    if (deviceId.isString() && SerialDriver) {
         auto id = deviceId.asString();
         for (auto driver: SerialDriver->GetPortDrivers()) {
             for (auto device: driver->GetSerialClient()->GetDevices()) {
-- 
2.43.0


From 0f0ac39b691843628ef1473f62e9020651a6e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 13/31] fix: a port's task could be dropped unanswered before
 its executor started it

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index a51dc12..4363491 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -111,7 +111,7 @@ PFeaturePort TSerialClientTaskExecutor::GetPort() const
 bool TSerialClientTaskExecutor::IsIdle() const
 {
     std::unique_lock<std::mutex> lock(Mutex);
-    return Idle;
+    return Idle && Tasks.empty();
 }
 
 //==========================================================
-- 
2.43.0


From f572986c4338b9fdf0bf4147ced3a146a47c3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 14/31] fix: destroying a task executor could miss its wake-up
 and hang

---
 src/rpc/rpc_port_driver_list.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 4363491..2dfd594 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -86,7 +86,10 @@ TSerialClientTaskExecutor::TSerialClientTaskExecutor(PFeaturePort port): Port(po
 
 TSerialClientTaskExecutor::~TSerialClientTaskExecutor()
 {
-    Running = false;
+    {
+        std::unique_lock<std::mutex> lock(Mutex);
+        Running = false;
+    }
     TasksCv.notify_all();
     Thread.join();
 }
-- 
2.43.0


From dd5994666d016b4d962c682bae756a311530cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 15/31] fix: with reconnect disabled a device was set up again
 before every access

---
 src/serial_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..e250011 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -207,6 +207,9 @@ void TSerialDevice::SetTransferResult(bool ok)
 {
     // disable reconnect functionality option
     if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
+        if (ok) {
+            SetConnectionState(TDeviceConnectionState::CONNECTED);
+        }
         return;
     }
 
-- 
2.43.0


From 73e388878763a11f4d3260f4ed6977f1962193cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 16/31] fix: a successful cycle counted as a failed one when
 deciding to reconnect a port

---
 src/port/port.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..6fd5825 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -85,9 +85,7 @@ void TPortOpenCloseLogic::CloseIfNeeded(PPort port, bool allPreviousDataExchange
     if (!allPreviousDataExchangeWasFailed) {
         LastSuccessfulCycle = currentTime;
         RemainingFailCycles = Settings.ConnectionMaxFailCycles;
-    }
-
-    if (RemainingFailCycles > 0) {
+    } else if (RemainingFailCycles > 0) {
         --RemainingFailCycles;
     }
 
-- 
2.43.0


From 9380c05d41f05fc858337e03a7c63ba2b43a95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 17/31] fix: a value that can't be converted marked the
 previous one for writing

---
 src/register_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..6d0fe0b 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -93,9 +93,10 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
+    auto value = ConvertToRawValue(*Reg->GetConfig(), v);
     std::lock_guard<std::mutex> lock(SetValueMutex);
     Dirty = true;
-    ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
+    ValueToSet = value;
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From 873fd7e09db27a8c8a5d02ab6b3767c909668145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 18/31] fix: with max_write_fail_time_s 0 a failed write was
 repeated for a second

---
 src/register_handler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index 6d0fe0b..f56fed0 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -34,9 +34,7 @@ void TRegisterHandler::HandleWriteErrorRetryWrite(const TRegisterValue& tempValu
             WriteFirstTryTime = steady_clock::now();
         }
         WriteFail = true;
-        if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-            Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-        {
+        if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
             Dirty = (tempValue != ValueToSet);
             WriteFail = false;
         }
-- 
2.43.0


From 4374b1e3c1443c048402d53c12ab158412efc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 19/31] fix: a write to a device that can't be set up was
 retried without a time limit

---
 src/write_channel_serial_client_task.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index 3f1d4d7..76f137c 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -48,6 +48,9 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
         Handler->Flush(*port);
     } else {
         Handler->Register()->SetError(TRegister::TError::WriteError);
+        if (!Handler->NeedRetryAfterWriteFail()) {
+            LOG(Warn) << Handler->Register()->ToString() << " register write cancelled: device is not accessible";
+        }
     }
     if (Handler->Register()->GetErrorState().test(TRegister::TError::WriteError)) {
         if (ErrorCallback) {
-- 
2.43.0


From 8da918ca72dcc205394ccac35af3dd39e16fc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 20/31] fix: replies cached by a reading that ended with an
 error were used by the next one

---
 src/serial_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index e250011..b298522 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -177,6 +177,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
                       << reg->Device()->ToString() + "]";
             SetTransferResult(true);
             if (breakOnError) {
+                InvalidateReadCache();
                 throw;
             }
         } catch (const TSerialDevicePermanentRegisterException& e) {
@@ -187,6 +188,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
                       << " is now marked as unsupported";
             SetTransferResult(true);
             if (breakOnError) {
+                InvalidateReadCache();
                 throw;
             }
         } catch (const TSerialDeviceException& e) {
@@ -196,6 +198,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
                         << reg->Device()->ToString() + "]";
             SetTransferResult(false);
             if (breakOnError) {
+                InvalidateReadCache();
                 throw;
             }
         }
-- 
2.43.0


From 682300e953435e2c642c754b605adacd40c346ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 21/31] fix: low priority registers were polled above the rate
 limit when no high priority ones were due

---
 src/poll_plan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poll_plan.h b/src/poll_plan.h
index d4ece20..444e653 100644
--- a/src/poll_plan.h
+++ b/src/poll_plan.h
@@ -268,7 +268,7 @@ public:
                 firstItem = false;
             }
         } else {
-            if (LowPriorityQueue.HasReadyItems(currentTime)) {
+            if (policy == TItemSelectionPolicy::All && LowPriorityQueue.HasReadyItems(currentTime)) {
                 const auto pollLimit = GetLowPriorityPollLimit(currentTime);
                 bool firstItem = true;
                 // Set maximum allowed poll limit to first low priority item,
-- 
2.43.0


From 0a5c6bc24eaa126ca9866a9685abfe2fbc8cce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 22/31] fix: a device that lost its connection just before its
 poll was suspended was polled anyway

---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..69e5c5b 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -340,6 +340,10 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        // Registers of a suspended device are rescheduled on resume
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From 00a2bf2a29a7350faeec9777029cea6fd45bc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:59 +0000
Subject: [PATCH 23/31] fix: do not read beyond the data of a Modbus response
 that is shorter than requested

---
 src/modbus_common.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..221cf81 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,6 +634,16 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // A device can answer with a well-formed response that has less data than requested
+    void CheckReadDataSize(const std::vector<uint8_t>& data, int type, size_t registerCount)
+    {
+        const size_t expectedSize = IsSingleBitType(type) ? (registerCount + 7) / 8 : registerCount * 2;
+        if (data.size() < expectedSize) {
+            throw Modbus::TMalformedResponseError("not enough data in read response: " + std::to_string(data.size()) +
+                                                  ", expected " + std::to_string(expectedSize));
+        }
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
@@ -641,6 +651,7 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
+        CheckReadDataSize(data, range.Type(), range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1073,6 +1084,7 @@ namespace Modbus // modbus protocol common utilities
                                       frameTimeout);
 
         auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        CheckReadDataSize(data, reg.Type, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 3f77c0ac80720d3907efefe46513ab604f40d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 24/31] fix: a value wider than its Modbus register overwrote
 the neighbouring bits of the last word

---
 src/modbus_common.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 221cf81..53605e3 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -466,8 +466,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         // Place data
-        value <<= reg.GetDataOffset();
-        valueToWrite |= value;
+        valueToWrite |= (value & GetLSBMask(reg.GetDataWidth())) << reg.GetDataOffset();
 
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-- 
2.43.0


From 8a1b108414bf566315a403e7b37a0f640a6faa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 25/31] fix: non-ASCII characters of strings written to Modbus
 registers were sign-extended over their neighbours

---
 src/modbus_common.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 53605e3..1b45bc8 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -426,7 +426,11 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            if (reg.Format == RegisterFormat::String8) {
+                words[i] = static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1]);
+            } else {
+                words[i] = static_cast<uint8_t>(str[i]);
+            }
         }
     }
 
-- 
2.43.0


From 34ed0856ee9abae978a95e521c66dfd7b1d45219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 26/31] fix: a request counted as having holes after a register
 beyond a hole was refused for its size or time

---
 src/modbus_common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 1b45bc8..bb7642c 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -135,6 +135,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         size_t extend;
+        auto hasHoles = false;
         if (RegisterList().empty()) {
             extend = widthInWords;
         } else {
@@ -156,10 +157,8 @@ namespace Modbus // modbus protocol common utilities
                 return false;
             }
 
-            auto hasHoles = Start + Count < addr;
-            if (continuousReadEnabled) {
-                HasHolesFlg = HasHolesFlg || hasHoles;
-            } else {
+            hasHoles = Start + Count < addr;
+            if (!continuousReadEnabled) {
                 if (RegisterList().back()->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                     // Read UNKNOWN 2 byte registers one by one to find availability
                     if (!isSingleBit) {
@@ -183,7 +182,6 @@ namespace Modbus // modbus protocol common utilities
                     if (reg->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                         return false;
                     }
-                    HasHolesFlg = HasHolesFlg || hasHoles;
                 }
             }
 
@@ -216,6 +214,7 @@ namespace Modbus // modbus protocol common utilities
 
             RegisterList().push_back(reg);
             Count += extend;
+            HasHolesFlg = HasHolesFlg || hasHoles;
             return true;
         }
         if (newPollTime > pollLimit) {
-- 
2.43.0


From efdfe7e9d3d3d12a247b297733f8ab538bdcee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 27/31] fix: data of partial setup registers was read from
 unshifted addresses

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index bb7642c..f13c737 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -858,7 +858,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From a158108500f6bf06a459af95bafd164218ae0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 28/31] fix: setup registers followed by a partial one were not
 written

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index f13c737..feb5ffc 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -890,7 +890,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 2e944c55367d878faf7b4cd4a93fb15781cc3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:59 +0000
Subject: [PATCH 29/31] fix: write-only holding registers narrower than a word
 could not be written

---
 src/modbus_common.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index feb5ffc..42977f5 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -521,15 +521,15 @@ namespace Modbus // modbus protocol common utilities
         uint16_t cachedValue = 0;
         auto address = 0;
         auto bitWidth = reg.GetDataWidth();
-        auto updateCache = false;
+        // there is no read address and known data for write-only registers
+        auto updateCache = (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY);
 
         // use cache only for "partial" registers
-        if (bitWidth < 16) {
+        if (bitWidth < 16 && updateCache) {
             address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
             if (cache.count(address)) {
                 cachedValue = cache.at(address);
             }
-            updateCache = true;
         }
 
         auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
@@ -540,7 +540,7 @@ namespace Modbus // modbus protocol common utilities
         data.resize(2);
         WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
 
-        if (updateCache) {
+        if (bitWidth < 16 && updateCache) {
             tmpCache[address] = valueToWrite;
         }
     }
-- 
2.43.0


From 01400a7a95ab651e15cea461e9fb289db705c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:59 +0000
Subject: [PATCH 30/31] fix: writing a part of a holding register reverted the
 rest of it after the whole register had been written

---
 src/modbus_common.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 42977f5..5f89d50 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -524,10 +524,10 @@ namespace Modbus // modbus protocol common utilities
         // there is no read address and known data for write-only registers
         auto updateCache = (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY);
 
-        // use cache only for "partial" registers
-        if (bitWidth < 16 && updateCache) {
+        // use cached data only for "partial" registers
+        if (updateCache) {
             address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
-            if (cache.count(address)) {
+            if (bitWidth < 16 && cache.count(address)) {
                 cachedValue = cache.at(address);
             }
         }
@@ -540,7 +540,7 @@ namespace Modbus // modbus protocol common utilities
         data.resize(2);
         WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
 
-        if (bitWidth < 16 && updateCache) {
+        if (updateCache) {
             tmpCache[address] = valueToWrite;
         }
     }
-- 
2.43.0


From 371f3a22e235c46e86f6c2ef85f5c549c99776e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:59 +0000
Subject: [PATCH 31/31] fix: setup failed if it had write-only partial
 registers

---
 src/modbus_common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 5f89d50..fa9c5f6 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -834,7 +834,9 @@ namespace Modbus // modbus protocol common utilities
             TModbusRegisterRange range(std::chrono::microseconds::max());
             while (it != setupItems.end()) {
                 auto item = *it;
-                if (!item->RegisterConfig->IsPartial()) {
+                if (!item->RegisterConfig->IsPartial() ||
+                    item->RegisterConfig->AccessType == TRegisterConfig::EAccessType::WRITE_ONLY)
+                {
                     ++it;
                     continue;
                 }
-- 
2.43.0

