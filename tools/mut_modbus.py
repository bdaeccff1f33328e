F = "src/modbus_base.cpp"
A = ["M01", "M02", "M03", "M04", "M05", "M06", "M07", "C01", "M08"]
OLDWF = """        return function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
               function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS ||
               function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||
               function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER;"""
CRCO = """    uint16_t crc = (response[rc.Count - 2] << 8) + response[rc.Count - 1];
    if (crc != CRC16::CalculateCRC16(response.data(), rc.Count - 2)) {
        throw Modbus::TMalformedResponseError("invalid crc");
    }
"""
SWO = """        std::vector<uint8_t> res(6 + data.size());
        res[0] = function;
        WriteAs2Bytes(res.data() + 1, address);
        WriteAs2Bytes(res.data() + 3, count);
        res[5] = data.size();
        std::copy(data.begin(), data.end(), res.begin() + 6);
        return res;"""
RRO = """        std::vector<uint8_t> res(5);
        res[0] = function;
        WriteAs2Bytes(res.data() + 1, address);
        WriteAs2Bytes(res.data() + 3, count);
        return res;"""
TIDO = """    try {
        return ++TransactionIds.at(portDescription);
    } catch (const std::out_of_range&) {
        TransactionIds.emplace(portDescription, 1);
        return 1;
    }"""
EXO = """    res.Pdu.assign(response.begin() + 1, response.begin() + (readRes.Count - CRC_SIZE));
    return res;"""
MUT = [
    # behaviour kept
    ("ok_switch_wf", A, 0, F, OLDWF, """        switch (function) {
            case Modbus::EFunction::FN_WRITE_MULTIPLE_COILS:
            case Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS:
            case Modbus::EFunction::FN_WRITE_SINGLE_COIL:
            case Modbus::EFunction::FN_WRITE_SINGLE_REGISTER:
                return true;
            default:
                return false;
        }"""),
    ("ok_array_wf", A, 0, F, OLDWF, """        static const Modbus::EFunction fns[] = {Modbus::EFunction::FN_WRITE_MULTIPLE_COILS, Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS,
               Modbus::EFunction::FN_WRITE_SINGLE_COIL, Modbus::EFunction::FN_WRITE_SINGLE_REGISTER};
        for (auto f: fns) {
            if (f == function) return true;
        }
        return false;"""),
    ("ok_anyof_wf", A, 0, F, OLDWF, """        const std::array<Modbus::EFunction, 4> fns = {Modbus::EFunction::FN_WRITE_MULTIPLE_COILS, Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS,
               Modbus::EFunction::FN_WRITE_SINGLE_COIL, Modbus::EFunction::FN_WRITE_SINGLE_REGISTER};
        return std::find(fns.begin(), fns.end(), function) != fns.end();"""),
    ("ok_coilsize", A, 0, F, "return count / 8 + (count % 8 != 0 ? 1 : 0);", "return (count + 7) / 8;"),
    ("ok_coilsize2", A, 0, F, "return count / 8 + (count % 8 != 0 ? 1 : 0);", "return (static_cast<uint32_t>(count) + 7) >> 3;"),
    ("ok_pushback", A, 0, F, RRO, """        std::vector<uint8_t> res;
        res.reserve(5);
        res.push_back(function);
        res.push_back(address >> 8);
        res.push_back(address & 0xFF);
        res.push_back(count >> 8);
        res.push_back(count & 0xFF);
        return res;"""),
    ("ok_initlist", A, 0, F, RRO, """        return {static_cast<uint8_t>(function), static_cast<uint8_t>(address >> 8), static_cast<uint8_t>(address), static_cast<uint8_t>(count >> 8), static_cast<uint8_t>(count)};"""),
    ("ok_insert", A, 0, F, SWO, """        std::vector<uint8_t> res(6);
        res[0] = function;
        WriteAs2Bytes(res.data() + 1, address);
        WriteAs2Bytes(res.data() + 3, count);
        res[5] = static_cast<uint8_t>(data.size());
        res.insert(res.end(), data.begin(), data.end());
        return res;"""),
    ("ok_inserter", A, 0, F, SWO, """        auto res = MakeReadRequestPDU(function, address, count);
        res.push_back(data.size());
        std::copy(data.begin(), data.end(), std::back_inserter(res));
        return res;"""),
    ("ok_loopcopy", A, 0, F, "        std::copy(data.begin(), data.end(), res.begin() + 6);\n        return res;\n    }\n\n    // get actual", """        for (size_t i = 0; i < data.size(); ++i) {
            res[6 + i] = data[i];
        }
        return res;
    }

    // get actual"""),
    ("ok_memcpy", A, 0, F, "        std::copy(data.begin(), data.end(), res.begin() + 6);\n        return res;\n    }\n\n    // get actual", """        __builtin_memcpy(res.data() + 6, data.data(), data.size());
        return res;
    }

    // get actual"""),
    ("ok_crc_helper", A, 0, (F, CRCO, """    if (!HasValidCrc(response, rc.Count)) {
        throw Modbus::TMalformedResponseError("invalid crc");
    }
"""), (F, "    // get actual function code even", """    bool HasValidCrc(const std::vector<uint8_t>& frame, size_t size)
    {
        const uint16_t received = (frame[size - 2] << 8) | frame[size - 1];
        return received == CRC16::CalculateCRC16(frame.data(), size - CRC_SIZE);
    }

    // get actual function code even""")),
    ("ok_crc_inline", A, 0, F, CRCO, """    const auto dataSize = rc.Count - CRC_SIZE;
    const auto crc = CRC16::CalculateCRC16(response.data(), dataSize);
    if (response[dataSize] != (crc >> 8) || response[dataSize + 1] != (crc & 0xFF)) {
        throw Modbus::TMalformedResponseError("invalid crc");
    }
"""),
    ("ok_tid_bracket", A, 0, F, TIDO, "    return ++TransactionIds[portDescription];"),
    ("ok_tid_find", A, 0, F, TIDO, """    auto it = TransactionIds.find(portDescription);
    if (it == TransactionIds.end()) {
        it = TransactionIds.emplace(portDescription, 0).first;
    }
    it->second++;
    return it->second;"""),
    ("ok_tid_lockguard", A, 0, F, "    std::unique_lock lk(TransactionIdMutex);\n    try", "    std::lock_guard<std::mutex> lk(TransactionIdMutex);\n    try"),
    ("ok_pdu_ctor", A, 0, F, EXO, """    res.Pdu = std::vector<uint8_t>(response.begin() + 1, response.begin() + readRes.Count - CRC_SIZE);
    return res;"""),
    ("ok_pdu_resize", A, 0, F, EXO, """    response.resize(readRes.Count - CRC_SIZE);
    response.erase(response.begin());
    res.Pdu = std::move(response);
    return res;"""),
    ("ok_expect_lambda", A, 0, F, """        if (size < 2)
            return false;
        if (IsException(buf[1])) // GetPDU
            return size >= EXCEPTION_RESPONSE_PDU_SIZE + DATA_SIZE;
        return size >= n;""", "        return size >= 2 && size >= (IsException(buf[1]) ? EXCEPTION_RESPONSE_PDU_SIZE + DATA_SIZE : n);"),
    ("ok_isexc", A, 0, F, "return functionCode & EXCEPTION_BIT;", "return (functionCode & EXCEPTION_BIT) != 0;"),
    ("ok_isexc2", A, 0, F, "return functionCode & EXCEPTION_BIT;", "return functionCode >= 0x80;"),
    ("ok_len", A, 0, F, """    uint16_t l = buf[4];
    l <<= 8;
    l += buf[5];
    return l;""", "    return static_cast<uint16_t>((buf[4] << 8) | buf[5]);"),
    ("ok_tidcmp", A, 0, F, "if (((transactionId >> 8) & 0xFF) == response[0] && (transactionId & 0xFF) == response[1]) {", "const uint16_t responseId = (response[0] << 8) | response[1];\n        if (responseId == transactionId) {"),
    ("ok_setmbap", A, 0, F, """    req[0] = ((transactionId >> 8) & 0xFF);
    req[1] = (transactionId & 0xFF);
    req[2] = 0; // MODBUS
    req[3] = 0;
    ++pduSize; // length includes additional byte of unit identifier
    req[4] = ((pduSize >> 8) & 0xFF);
    req[5] = (pduSize & 0xFF);""", """    WriteAs2Bytes(&req[0], transactionId);
    WriteAs2Bytes(&req[2], 0);
    WriteAs2Bytes(&req[4], pduSize + 1);"""),
    ("ok_extract_reorder", A, 0, F, """    if (IsWriteFunction(function)) {
        if (WRITE_RESPONSE_PDU_SIZE != pdu.size()) {
            throw""", """    if (IsWriteFunction(function) && pdu.size() != WRITE_RESPONSE_PDU_SIZE) {
        {
            throw"""),
    ("ok_fc", A, 0, F, "return functionCodeByte & 127;", "return functionCodeByte & ~Modbus::EXCEPTION_BIT;"),
    ("ok_deadline", A, 0, (F, "    while (chrono::duration_cast<chrono::microseconds>(chrono::steady_clock::now() - startTime) < packetTimeout) {", "    auto elapsed = [&startTime] { return chrono::duration_cast<chrono::microseconds>(chrono::steady_clock::now() - startTime); };\n    while (elapsed() < packetTimeout) {")),
    ("ok_continue", A, 0, F, """        if (((transactionId >> 8) & 0xFF) == response[0] && (transactionId & 0xFF) == response[1]) {
            // check unit identifier
            if (matchSlaveId && slaveId != response[6]) {
                throw Modbus::TUnexpectedResponseError("request and response unit identifier mismatch");
            }
            return rc;
        }""", """        if (((transactionId >> 8) & 0xFF) != response[0] || (transactionId & 0xFF) != response[1]) {
            continue;
        }
        if (matchSlaveId && slaveId != response[6]) {
            throw Modbus::TUnexpectedResponseError("request and response unit identifier mismatch");
        }
        return rc;"""),
    ("ok_forlen", A, 0, F, "auto len = GetLengthFromMBAP(response);", "const uint16_t mbapLength = GetLengthFromMBAP(response);\n        size_t len = mbapLength;"),
    # behaviour broken
    ("b_wf_coil", A, [1], F, "function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||\n               function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER;", "function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER;"),
    ("b_sb_wmc", A, 0, F, "               function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||\n               function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS;\n    }\n\n    uint16_t", "               function == Modbus::EFunction::FN_WRITE_SINGLE_COIL;\n    }\n\n    uint16_t"),
    ("b_sb_rd", A, [1], F, "return function == Modbus::EFunction::FN_READ_COILS || function == Modbus::EFunction::FN_READ_DISCRETE ||\n               function == Modbus::EFunction::FN_WRITE_SINGLE_COIL", "return function == Modbus::EFunction::FN_READ_COILS ||\n               function == Modbus::EFunction::FN_WRITE_SINGLE_COIL"),
    ("b_coil8", A, [1], F, "return count / 8 + (count % 8 != 0 ? 1 : 0);", "return count / 8 + 1;"),
    ("b_coil9", A, [1], F, "return count / 8 + (count % 8 != 0 ? 1 : 0);", "return (static_cast<uint8_t>(count) + 7) / 8;"),
    ("b_wsingle", A, [1], F, "if (data.size() != 2) {", "if (data.size() < 2) {"),
    ("b_wm_check", A, [1], F, "data.size() != count * 2))", "data.size() > count * 2))"),
    ("b_fc", A, [1], F, "return functionCodeByte & 127;", "return functionCodeByte & 63;"),
    ("b_expect", A, [1], F, "return size >= EXCEPTION_RESPONSE_PDU_SIZE + DATA_SIZE;", "return size > EXCEPTION_RESPONSE_PDU_SIZE + DATA_SIZE;"),
    ("b_expect2", A, 0, F, "if (size < 2)\n            return false;", "if (size < 1)\n            return false;"),
    ("b_expect3", A, [1], F, "return size >= n;", "return size >= n || size > 255;"),
    ("b_crc_lo", A, [1], F, "uint16_t crc = (response[rc.Count - 2] << 8) + response[rc.Count - 1];\n    if (crc != CRC16::CalculateCRC16(response.data(), rc.Count - 2)) {", "uint8_t crc = response[rc.Count - 1];\n    if (crc != (CRC16::CalculateCRC16(response.data(), rc.Count - 2) & 0xFF)) {"),
    ("b_crc_skip", A, [1], F, "if (crc != CRC16::CalculateCRC16(response.data(), rc.Count - 2)) {", "if (crc != 0 && crc != CRC16::CalculateCRC16(response.data(), rc.Count - 2)) {"),
    ("b_slave0", A, [1], F, "    if (matchSlaveId && slaveId != response[0]) {", "    if (matchSlaveId && slaveId != response[0] && response[0] != 0) {"),
    ("b_force", A, [1], F, "    if (ForceFrameTimeout) {", "    if (!ForceFrameTimeout) {"),
    ("b_force2", A, [1], F, "        } catch (const TResponseTimeoutException& e) {\n            // No extra data\n        }", "        } catch (const TSerialDeviceInternalErrorException& e) {\n            // No extra data\n        }"),
    ("b_tid0", A, [1], F, "TransactionIds.emplace(portDescription, 1);\n        return 1;", "TransactionIds.emplace(portDescription, 2);\n        return 1;"),
    ("b_tidkey", A, [1], F, "auto portDescription = port.GetDescription(false);\n    std::unique_lock lk(TransactionIdMutex);\n    try", "auto portDescription = port.GetDescription(true);\n    std::unique_lock lk(TransactionIdMutex);\n    try"),
    ("b_mbap_len", A, 0, F, "req[4] = ((pduSize >> 8) & 0xFF);", "req[4] = 0;"),
    ("b_mbap_len2", A, [1], F, "    ++pduSize; // length", "    // length"),
    ("b_mbap_pid", A, [1], F, "req[3] = 0;", "req[3] = slaveId;"),
    ("b_len_hi", A, [1], F, "    l <<= 8;\n", "    l <<= 7;\n"),
    ("b_len0", A, [1], F, "        if (len == 0) {", "        if (len == 1) {"),
    ("b_resize", A, [1], F, "if (len + MBAP_SIZE > response.size()) {", "if (len > response.size()) {"),
    ("b_cnt", A, [1], F, "if (rc.Count != len) {", "if (rc.Count > len) {"),
    ("b_cnt2", A, [1], F, "        rc.Count += MBAP_SIZE;\n", ""),
    ("b_hdr", A, [1], F, "if (rc.Count < MBAP_SIZE) {", "if (rc.Count + 1 < MBAP_SIZE) {"),
    ("b_unit", A, [1], F, "if (matchSlaveId && slaveId != response[6]) {", "if (matchSlaveId && slaveId < response[6]) {"),
    ("b_to", A, [1], F, "    throw TResponseTimeoutException();\n}\n\nModbus::TReadResult", "    throw Modbus::TMalformedResponseError(\"no response\");\n}\n\nModbus::TReadResult"),
    ("b_slaveres", A, [1], F, "res.SlaveId = response[6];", "res.SlaveId = slaveId;"),
    ("b_slaveres2", A, [1], F, "res.SlaveId = response[0];", "res.SlaveId = slaveId;"),
    ("b_pdu1", A, [1], F, "response.begin() + (readRes.Count - CRC_SIZE));", "response.begin() + readRes.Count - 1);"),
    ("b_pdu2", A, [1], F, "response.begin() + readRes.Count);", "response.end());"),
    ("b_pdu3", A, [1], F, "response.begin() + (readRes.Count - CRC_SIZE));", "response.end() - CRC_SIZE);"),
    ("b_calc", A, [1], F, "    return 2 + registerCount * 2;", "    return 2 + static_cast<uint8_t>(registerCount * 2);"),
    ("b_calc2", A, [1], F, "    if (IsWriteFunction(function)) {\n        return WRITE_RESPONSE_PDU_SIZE;", "    if (IsWriteFunction(function) && !IsSingleBitFunction(function)) {\n        return WRITE_RESPONSE_PDU_SIZE;"),
    ("b_ex1", A, [1], F, "    if (pdu.size() < 2) {\n        throw Modbus::TMalformedResponseError(\"PDU", "    if (pdu.empty()) {\n        throw Modbus::TMalformedResponseError(\"PDU"),
    ("b_ex2", A, [1], F, "if (requestFunction != functionCode) {", "if (!IsException(pdu[0]) && requestFunction != functionCode) {"),
    ("b_ex3", A, [1], F, "ThrowModbusException(pdu[1]);", "ThrowModbusException(functionCode);"),
    ("b_ex4", A, [1], F, "if (pdu.size() != byteCount + 2) {", "if (pdu.size() < byteCount + 2) {"),
    ("b_ex5", A, [1], F, "if (pdu.size() != byteCount + 2) {", "if (byteCount != 0 && pdu.size() != byteCount + 2) {"),
    ("b_ex6", A, [1], F, "if (WRITE_RESPONSE_PDU_SIZE != pdu.size()) {", "if (WRITE_RESPONSE_PDU_SIZE > pdu.size()) {"),
    ("b_ex7", A, [1], F, "return std::vector<uint8_t>(pdu.begin() + 2, pdu.end());", "return std::vector<uint8_t>(pdu.begin() + 2, pdu.begin() + 2 + (byteCount & 0x7F));"),
    ("b_supp", A, [1], F, "return IsReadFunction(function) || IsWriteFunction(function) || IsReadWriteFunction(function);", "return IsReadFunction(function) || IsWriteFunction(function);"),
    ("b_isexc", A, [1], F, "return functionCode & EXCEPTION_BIT;", "return functionCode > EXCEPTION_BIT + 2;"),
    ("b_rwpdu", A, [1], F, "    if (IsReadWriteFunction(function)) {", "    if (IsReadWriteFunction(function) && !data.empty()) {"),
    ("b_code", A, [1], F, "              \"memory parity error\",                      // 0x08\n              \"\",                                         // 0x09\n", "              \"memory parity error\",                      // 0x08\n"),
    ("b_finalize", A, 0, F, "WriteAs2Bytes(&request[request.size() - 2], CRC16::CalculateCRC16(request.data(), request.size() - 2));", "WriteAs2Bytes(&request[request.size() - 2], CRC16::CalculateCRC16(request.data(), std::min<size_t>(request.size() - 2, 255)));"),
]
