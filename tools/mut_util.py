B, H, C, R = "src/bcd_utils.cpp", "src/bin_utils.h", "src/bin_utils.cpp", "src/crc16.cpp"
PB = """    uint32_t ret = 0U;
    /* note the absense of breaks here.
    the execution will propagate to the very end of
    the switch statement*/
    switch (size) {
        case WordSizes::W32_SZ:
            ret |= (*bytes++ << 24);
        case WordSizes::W24_SZ:
            ret |= (*bytes++ << 16);
        case WordSizes::W16_SZ:
            ret |= (*bytes++ << 8);
        case WordSizes::W8_SZ:
            ret |= (*bytes << 0);
    }
    return ret;"""
P2 = """        auto tmp = static_cast<uint8_t>(packed >> (i * 8));
        result += ((tmp & 0x0f) * exp);
        exp *= 10;
        result += ((tmp >> 4) * exp);
        exp *= 10;"""
IB = """        // form byte from the end of value
        uint8_t byte = value % 10;
        value /= 10;
        byte |= (value % 10) << 4;
        value /= 10;
        result[static_cast<unsigned>(size) - i - 1] = byte;"""
CR = """    while (len--) {
        uint8_t i = crch ^ *buffer++;
        crch = crcl ^ crcHi[i];
        crcl = crcLo[i];
    }
"""
DEC = """            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                std::equal(rule.second.begin(), rule.second.end(), readIt))
            {"""
STUF = """            auto it = rules.find(byte);
            if (it != rules.end()) {
                std::copy(it->second.begin(), it->second.end(), inserter);
            } else {
                *inserter = byte;
            }"""
BE = """        for (size_t i = byteCount - 1; i != 0; --i) {
            *it = (value >> (i * 8)) & 0xFF;
        }
        *it = value & 0xFF;"""
AP = """        for (size_t i = 0; i < byteCount; ++i) {
            *it = value & 0xFF;
            value >>= 8; // NOLINT(clang-diagnostic-shift-count-overflow)
        }"""
A = ["B01", "B02", "B03", "B04", "C01"]
MUT = [
    ("ok_pack_loop", A, 0, B, PB, """    uint32_t ret = 0U;
    for (unsigned i = 0; i < static_cast<unsigned>(size); ++i) {
        ret = (ret << 8) | bytes[i];
    }
    return ret;"""),
    ("ok_p2", A, 0, B, P2, """        const auto low = (packed >> (i * 8)) & 0x0f;
        const auto high = (packed >> (i * 8 + 4)) & 0x0f;
        result += (high * 10 + low) * exp;
        exp *= 100;"""),
    ("ok_p2rev", A, 0, B, """    uint32_t result = 0;
    int exp = 1;
    for (unsigned i = 0; i < static_cast<unsigned>(size); ++i) {
        auto tmp = static_cast<uint8_t>(packed >> (i * 8));
        result += ((tmp & 0x0f) * exp);
        exp *= 10;
        result += ((tmp >> 4) * exp);
        exp *= 10;
    }
    return result;""", """    uint64_t result = 0;
    for (int shift = static_cast<int>(size) * 8 - 4; shift >= 0; shift -= 4) {
        result = result * 10 + ((packed >> shift) & 0xF);
    }
    return result;"""),
    ("ok_ib", A, 0, B, IB, """        const auto pair = value % 100;
        value /= 100;
        result[result.size() - i - 1] = static_cast<uint8_t>((pair / 10) << 4 | (pair % 10));"""),
    ("ok_ib2", A, 0, B, "    std::vector<uint8_t> result;\n    result.resize(static_cast<unsigned>(size));\n", "    std::vector<uint8_t> result(static_cast<size_t>(size));\n"),
    ("ok_ib3", A, 0, B, """    for (unsigned i = 0; i < static_cast<unsigned>(size); i++) {
        // form""", """    for (int i = 0; i != static_cast<int>(size); i++) {
        // form"""),
    ("ok_crc_for", A, 0, R, CR, """    for (uint16_t k = 0; k < len; ++k) {
        const uint8_t i = crch ^ buffer[k];
        crch = crcl ^ crcHi[i];
        crcl = crcLo[i];
    }
"""),
    ("ok_crc_ret", A, 0, R, "return crch << 8 | crcl;", "return static_cast<uint16_t>((crch << 8) + crcl);"),
    ("ok_crc_bit", A, 0, R, "    uint8_t crch = 0xff, crcl = 0xff;\n" + CR + "\n    return crch << 8 | crcl;", """    uint16_t crc = 0xFFFF;
    for (uint16_t k = 0; k < len; ++k) {
        crc ^= buffer[k];
        for (int b = 0; b < 8; ++b) {
            crc = (crc & 1) ? (crc >> 1) ^ 0xA001 : crc >> 1;
        }
    }
    return static_cast<uint16_t>((crc << 8) | (crc >> 8));"""),
    ("ok_mask", A, 0, C, """    if (bitCount < sizeof(uint64_t) * 8) {
        return (uint64_t(1) << bitCount) - 1;
    }
    return 0xFFFFFFFFFFFFFFFF;""", "    return bitCount >= 64 ? ~uint64_t(0) : ((uint64_t(1) << bitCount) - 1);"),
    ("ok_mask2", A, 0, C, """    if (bitCount < sizeof(uint64_t) * 8) {
        return (uint64_t(1) << bitCount) - 1;
    }
    return 0xFFFFFFFFFFFFFFFF;""", "    if (bitCount == 0) {\n        return 0;\n    }\n    if (bitCount > 64) {\n        bitCount = 64;\n    }\n    return ~uint64_t(0) >> (64 - bitCount);"),
    ("ok_dec_ref", A, 0, C, "for (auto rule: rules) {", "for (const auto& rule: rules) {"),
    ("ok_dec_bind", A, 0, (C, "for (auto rule: rules) {", "for (const auto& [byte, sequence]: rules) {"), (C, "if (rule.second.empty()) {", "if (sequence.empty()) {"),
        (C, DEC + "\n                *writeIt = rule.first;\n                readIt += rule.second.size() - 1;", """            if ((static_cast<size_t>(std::distance(readIt, data.end())) >= sequence.size()) &&
                std::equal(sequence.begin(), sequence.end(), readIt))
            {
                *writeIt = byte;
                readIt += sequence.size() - 1;""")),
    ("ok_dec_erase", A, 0, C, "data.resize(writeIt - data.begin());", "data.erase(writeIt, data.end());"),
    ("ok_dec_post", A, 0, (C, "                *writeIt = rule.first;\n", "                *writeIt++ = rule.first;\n"), (C, "            *writeIt = *readIt;\n        }\n        ++writeIt;\n", "            *writeIt++ = *readIt;\n        }\n")),
    ("ok_dec_out", A, 0, (C, "    auto writeIt = data.begin();\n", "    std::vector<uint8_t> out;\n"), (C, "                *writeIt = rule.first;\n", "                out.push_back(rule.first);\n"),
        (C, "            *writeIt = *readIt;\n        }\n        ++writeIt;\n", "            out.push_back(*readIt);\n        }\n"), (C, "data.resize(writeIt - data.begin());", "data.swap(out);")),
    ("ok_stuff", A, 0, H, STUF, """            if (const auto it = rules.find(byte); it == rules.end()) {
                *inserter = byte;
            } else {
                for (auto b: it->second) {
                    *inserter = b;
                }
            }"""),
    ("ok_stuff_at", A, 0, H, STUF, """            if (rules.count(byte)) {
                const auto& sequence = rules.at(byte);
                std::copy(sequence.cbegin(), sequence.cend(), inserter);
                continue;
            }
            *inserter = byte;"""),
    ("ok_be", A, 0, H, BE, """        for (size_t i = byteCount; i > 0; --i) {
            *it = (value >> ((i - 1) * 8)) & 0xFF;
        }"""),
    ("ok_get", A, 0, H, """        ResultType sum = 0;
        size_t shift = 0;
        for (; begin != end; ++begin) {
            ResultType t = (*begin);
            sum += (t << shift);
            shift += 8;
        }
        return sum;""", """        ResultType sum = 0;
        for (size_t shift = 0; begin != end; ++begin, shift += 8) {
            sum |= static_cast<ResultType>(*begin) << shift;
        }
        return sum;"""),
    ("ok_getbe", A, 0, H, "            sum <<= 8;\n            sum += (*begin);", "            sum = (sum << 8) | *begin;"),
    ("ok_w2", A, 0, C, """    dst[0] = static_cast<uint8_t>(val >> 8);
    dst[1] = static_cast<uint8_t>(val);""", """    *dst++ = val / 256;
    *dst = val % 256;"""),
    # broken
    ("b_pack24", A, [1], B, "        case WordSizes::W24_SZ:\n            ret |= (*bytes++ << 16);", "        case WordSizes::W24_SZ:\n            ret |= ((*bytes++ & 0x7F) << 16);"),
    ("b_pack_brk", A, [1], B, "            ret |= (*bytes++ << 8);\n        case", "            ret |= (*bytes++ << 8);\n            break;\n        case"),
    ("b_p2_u16", A, [1], B, "    int exp = 1;", "    short exp = 1;"),
    ("b_p2_res", A, [1], B, "    uint32_t result = 0;\n    int exp", "    uint16_t result = 0;\n    int exp"),
    ("b_p2_0f", A, [1], B, "((tmp & 0x0f) * exp)", "((tmp & 0x07) * exp)"),
    ("b_ib_order", A, [1], B, "result[static_cast<unsigned>(size) - i - 1] = byte;", "result[i] = byte;"),
    ("b_ib_16", A, [1], B, "uint32_t IntToPackedBCD(uint32_t value, WordSizes size)\n{", "uint32_t IntToPackedBCD(uint32_t value, WordSizes size)\n{\n    value = static_cast<int32_t>(value) < 0 ? 0 : value;"),
    ("b_ib_arr", A, [1], B, "    result.resize(static_cast<unsigned>(size));", "    result.resize(static_cast<unsigned>(size));\n    if (value > 99999999) value = 99999999;"),
    ("b_crc_tab", A, [1], R, "0x43, 0x83, 0x41, 0x81, 0x80, 0x40\n", "0x43, 0x83, 0x41, 0x80, 0x81, 0x40\n"),
    ("b_crc_len", A, [1], R, "const uint8_t* buffer, uint16_t len)\n{", "const uint8_t* buffer, uint16_t len)\n{\n    if (len > 256) len = 256;"),
    ("b_crc_init", A, [1], R, "crch = 0xff, crcl = 0xff;", "crch = 0xff, crcl = len ? 0xff : 0;"),
    ("b_mask63", A, [1], C, "if (bitCount < sizeof(uint64_t) * 8) {", "if (bitCount < sizeof(uint64_t) * 8 - 1) {"),
    ("b_mask32", A, [1], C, "return (uint64_t(1) << bitCount) - 1;", "return (1u << bitCount) - 1;"),
    ("b_mask0", A, [1], C, "return 0xFFFFFFFFFFFFFFFF;", "return 0x7FFFFFFFFFFFFFFF;"),
    ("b_dec_end", A, [1], C, ">= rule.second.size()) &&", "> rule.second.size()) &&"),
    ("b_dec_skip", A, [1], C, "readIt += rule.second.size() - 1;", "readIt += 1;"),
    ("b_dec_brk", A, [1], C, "                changed = true;\n                break;", "                changed = true;"),
    ("b_dec_one", A, [1], C, "                changed = true;", "                changed = rule.first != 0;"),
    ("b_dec_nores", A, 0, C, "    data.resize(writeIt - data.begin());", "    if (writeIt != data.begin()) data.resize(writeIt - data.begin());"),
    ("b_dec_empty", A, 0, C, "                throw std::invalid_argument(\"invalid byte stuffing rule\");", "                continue;"),
    ("b_stuff_one", A, [1], H, "std::copy(it->second.begin(), it->second.end(), inserter);", "std::copy_n(it->second.begin(), 2, inserter);"),
    ("b_stuff_7f", A, [1], H, "auto it = rules.find(byte);", "auto it = rules.find(byte & 0x7F);"),
    ("b_be0", A, [1], H, "for (size_t i = byteCount - 1; i != 0; --i) {", "for (size_t i = byteCount - 1; i > 1; --i) {"),
    ("b_ap", A, [1], H, "            *it = value & 0xFF;\n            value >>= 8;", "            *it = value & 0x7F;\n            value >>= 8;"),
    ("b_get_sh", A, [1], H, "            ResultType t = (*begin);\n            sum += (t << shift);", "            uint32_t t = (*begin);\n            sum += (t << shift);"),
    ("b_get_s8", A, [1], H, "            ResultType t = (*begin);\n            sum", "            ResultType t = static_cast<int8_t>(*begin);\n            sum"),
    ("b_getfrom", A, [1], H, "return GetBigEndian<ResultType>(begin, begin + sizeof(ResultType));", "return GetBigEndian<ResultType>(begin, begin + (sizeof(ResultType) > 4 ? 4 : sizeof(ResultType)));"),
    ("b_w2", A, [1], C, "dst[1] = static_cast<uint8_t>(val);", "dst[1] = static_cast<uint8_t>(val | (val >> 15));"),
]
