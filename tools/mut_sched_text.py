PP='src/poll_plan.h'; CU='src/common_utils.cpp'; FU='src/file_utils.cpp'; EX='src/serial_exc.h'; EE='src/expression_evaluator.cpp'
MUT=[
("lt",["Q01"],1,PP,"if (Deadline > item.Deadline)","if (Deadline >= item.Deadline)"),
("lt2",["Q01"],1,PP,"return ComparePredicate()(Data, item.Data);","return ComparePredicate()(item.Data, Data);"),
("heap",["Q01"],1,PP,"                std::make_heap(this->c.begin(), this->c.end(), this->comp);\n",""),
("heap2",["Q01"],1,PP,"std::make_heap(this->c.begin(), this->c.end(), this->comp);","std::make_heap(this->c.begin(), this->c.end() - 1, this->comp);"),
("ready",["Q01"],1,PP,"(GetDeadline() <= time)","(GetDeadline() < time)"),
("contains",["Q01"],1,PP,"return item.Data == entry; });\n    }\n\n    void Remove","return item.Data < entry; });\n    }\n\n    void Remove"),

("maxdl",["Q01"],1,PP,"return std::chrono::steady_clock::time_point::max();","return std::chrono::steady_clock::time_point();"),
("q2a",["Q02"],1,PP,"(policy == TItemSelectionPolicy::All) && ShouldSelect","(policy == TItemSelectionPolicy::All) || ShouldSelect"),
("q2b",["Q02"],1,PP,"(!forceLowPriority || !LowPriorityQueue.HasReadyItems(currentTime))","(!forceLowPriority)"),
("q2c",["Q02"],1,PP,"                HighPriorityQueue.Pop();\n                firstItem = false;","                HighPriorityQueue.Pop();"),
("q2d",["Q02"],1,PP,"if (delta > std::chrono::milliseconds(0)) {\n            return delta;\n        }\n        return GetLow","if (delta >= std::chrono::milliseconds(0)) {\n            return delta;\n        }\n        return GetLow"),
("q2e",["Q02"],1,PP,"std::chrono::ceil<std::chrono::milliseconds>(HighP","std::chrono::floor<std::chrono::milliseconds>(HighP"),
("q2f",["Q02"],1,PP,"(forceLowPriority && firstItem)","(forceLowPriority)"),
("q2g",["Q02"],1,PP,"return (TotalTime >= TotalTimeThreshold);","return (TotalTime > TotalTimeThreshold);"),
("q2h",["Q02"],1,PP,"std::max(TotalTime - delta, -MaxTotalTime)","std::max(TotalTime - delta, MaxTotalTime)"),
("q2i",["Q02"],1,PP,"LowPriorityQueue.Remove(entry);\n        High","High"),
("q2j",["Q02"],1,PP,"TimeBalancer(maxLowPriorityLag, 2 * maxLowPriorityLag)","TimeBalancer(maxLowPriorityLag, maxLowPriorityLag)"),
("q2k",["Q02"],1,PP,"if (priority == TPriority::High) {\n            TimeBalancer.Inc","if (priority == TPriority::Low) {\n            TimeBalancer.Inc"),
("q2l",["Q02"],1,PP,"auto delta = (TotalTime - TotalTimeThreshold);","auto delta = (MaxTotalTime - TotalTimeThreshold);"),
("q2m",["Q02"],1,PP,"return std::min(HighPriorityQueue.GetDeadline(), LowPriorityQueue.GetDeadline());","return HighPriorityQueue.IsEmpty() ? LowPriorityQueue.GetDeadline() : HighPriorityQueue.GetDeadline();"),
("q2ok",["Q02","Q01"],0,PP,"return std::min(HighPriorityQueue.GetDeadline(), LowPriorityQueue.GetDeadline());","auto a = HighPriorityQueue.GetDeadline(); auto b = LowPriorityQueue.GetDeadline(); return b < a ? b : a;"),
("q2ok2",["Q02","Q01"],0,PP,"""            bool firstItem = true;
            while (HighPriorityQueue.HasReadyItems(currentTime) &&
                   accumulator(HighPriorityQueue.GetTop().Data,
                               firstItem ? TItemAccumulationPolicy::Force
                                         : TItemAccumulationPolicy::AccordingToPollLimitTime,
                               std::chrono::milliseconds::max()))
            {
                HighPriorityQueue.Pop();
                firstItem = false;
            }""","""            auto p = TItemAccumulationPolicy::Force;
            for (;;) {
                if (!HighPriorityQueue.HasReadyItems(currentTime)) break;
                if (!accumulator(HighPriorityQueue.GetTop().Data, p, std::chrono::milliseconds::max())) break;
                HighPriorityQueue.Pop();
                p = TItemAccumulationPolicy::AccordingToPollLimitTime;
            }"""),
("q1ok",["Q01"],0,PP,"""            if (Deadline > item.Deadline) {
                return true;
            }
            if (Deadline == item.Deadline) {
                return ComparePredicate()(Data, item.Data);
            }
            return false;""","""            if (Deadline != item.Deadline) {
                return item.Deadline < Deadline;
            }
            return ComparePredicate()(Data, item.Data);"""),
("q1ok2",["Q01","Q02"],0,PP,"        return std::find_if(this->c.cbegin(), this->c.cend(), pred) != this->c.cend();","        return std::any_of(this->c.cbegin(), this->c.cend(), pred);"),
("q1ok3",["Q01","Q02"],0,PP,"        return std::find_if(this->c.cbegin(), this->c.cend(), pred) != this->c.cend();","        for (const auto& x: this->c) { if (pred(x)) return true; }\n return false;"),
("q3a",["Q03"],1,PP,"if (time - StartTime <= std::chrono::seconds(1)) {\n            ++","if (time - StartTime < std::chrono::seconds(1)) {\n            ++"),
("q3b",["Q03"],1,PP,"return Count > RateLimit;","return Count >= RateLimit;"),
("q3c",["Q03"],1,PP,"Count = 1;\n        StartTime","Count = 0;\n        StartTime"),
("q3d",["Q03"],1,PP,"StartTime = std::chrono::time_point_cast<std::chrono::seconds>(time);","StartTime = time;"),
("q3e",["Q03"],1,PP,"return Count > RateLimit;\n        }\n        return false;","return Count > RateLimit;\n        }\n        return Count > RateLimit;"),
("u1a",["U01"],1,CU,"int offset = -128;","int offset = -1;"),
("u1b",["U01"],1,CU,"offset = 128;","offset = 127;"),
("u1c",["U01"],1,CU,"for (size_t i = 0; i < std::max(","for (size_t i = 0; i < std::min("),
("u1d",["U01"],1,CU,"\"^[0-9]+(-rc|\\\\+wb)[0-9]+$\"","\"^[0-9]+(-rc|\\\\+wb)[0-9]*$\""),
("u1e",["U01"],1,CU,"            list.push_back(0);\n","            continue;\n"),
("u1f",["U01"],1,CU,"if (v2.empty()) {\n        return 1;","if (v2.empty()) {\n        return 0;"),
("u1g",["U01"],0,CU,"index = buffer.find(\"+wb\");","index = buffer.find(\"+\");\n"),
("u1ok",["U01"],0,CU,"        int n1 = i < l1.size() ? l1[i] : 0;\n        int n2 = i < l2.size() ? l2[i] : 0;\n        if (n1 > n2) {\n            return 1;\n        }\n        if (n1 < n2) {\n            return -1;\n        }","        int d = (i < l1.size() ? l1[i] : 0) - (i < l2.size() ? l2[i] : 0);\n        if (d != 0) return d > 0 ? 1 : -1;"),
("u1ok2",["U01"],0,CU,"            if (std::regex_match(buffer, std::regex(\"^[0-9]+$\"))) {","            static const std::regex number(\"[0-9]+\");\n            if (std::regex_match(buffer, number)) {"),
("u1ok3",["U01"],0,CU,"            if (std::regex_match(buffer, std::regex(\"^[0-9]+$\"))) {","            if (!buffer.empty() && std::all_of(buffer.begin(), buffer.end(), [](char c) { return c >= '0' && c <= '9'; })) {"),
("u2a",["U02"],1,CU,"{'$', \"_\"}","{'$', \"$\"}"),
("u2b",["U02"],1,CU,"{'\"', \"|\"}, ",""),
("u2c",["U02"],1,CU,"validStr += it->second;","validStr += it->second[0];"),
("u2d",["U02"],1,CU,"               return ConvertToMqttStringMap.find(ch) != ConvertToMqttStringMap.end();\n           }) == src.end()","               return ConvertToMqttStringMap.find(ch) == ConvertToMqttStringMap.end();\n           }) == src.end()"),
("u2ok",["U02"],0,CU,"    for (auto const& ch: src) {\n        if (const auto it = ConvertToMqttStringMap.find(ch); it != ConvertToMqttStringMap.end()) {\n            validStr += it->second;","    for (size_t i = 0; i < src.size(); ++i) {\n        const char ch = src[i];\n        if (ConvertToMqttStringMap.count(ch)) {\n            validStr.append(ConvertToMqttStringMap.at(ch));"),
("u2ok2",["U02"],0,CU,"    return std::find_if(src.begin(), src.end(), [](auto ch) {\n               return ConvertToMqttStringMap.find(ch) != ConvertToMqttStringMap.end();\n           }) == src.end();","    for (char c: src) if (ConvertToMqttStringMap.count(c)) return false;\n    return true;"),
("u2ok3",["U02"],0,CU,"    return std::find_if(src.begin(), src.end(), [](auto ch) {\n               return ConvertToMqttStringMap.find(ch) != ConvertToMqttStringMap.end();\n           }) == src.end();","    return src.find_first_of(\"'\\\"/+$#\") == std::string::npos;"),
("u3a",["U03"],1,CU,"std::chrono::ceil<std::chrono::microseconds>","std::chrono::floor<std::chrono::microseconds>"),
("u3b",["U03"],1,CU,"    StartTime = NowFn();","    if (StartTime == std::chrono::steady_clock::time_point()) StartTime = NowFn();"),
("f1a",["F01"],1,FU,"        if (file.is_open()) {\n            return true;","        if (file.is_open()) {\n            file.close();\n            return true;"),
("f1b",["F01"],1,FU,"throw TNoDirError(ex.what());","throw std::runtime_error(ex.what());"),
("f1c",["F01"],1,FU,"            if (fn(filenameStr)) {\n                return;\n            }","            fn(filenameStr);"),
("f1d",["F01"],1,FU,"        std::sort(files.begin(), files.end());\n",""),
("f1e",["F01"],1,FU,"                res = d;\n                return true;","                res = d;"),
("f1f",["F01"],1,FU,"                return fileName;","                return std::string();"),
("f1g",["F01"],1,FU,"if (name.find(pattern) != std::string::npos) {\n            std","if (name.find(pattern) == 0) {\n            std"),
("f1h",["F01"],1,"src/file_utils.h","    if (!f.is_open()) {\n        throw std::runtime_error(\"Can't open file:\" + fileName);\n    }","    f.is_open();"),
("f1ok",["F01"],0,FU,"    for (auto& fname: fnames) {","    for (size_t i = 0; i < fnames.size(); ++i) {\n        const auto& fname = fnames[i];"),
("x1a",["X01"],1,EX,"class TResponseTimeoutException: public TSerialDeviceTransientErrorException","class TResponseTimeoutException: public TSerialDeviceException"),
]
